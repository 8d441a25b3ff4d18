"""C04: arguments stay as they are; calls can be repeated."""
from hypothesis import strategies as st

import jsons
from jv.common import (Raised, S_DUMP_OPTS, S_LOAD_OPTS, TRANSFORMERS, attempt, jcompare, options,
                       same_outcome, snap)
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import FIELDS, S_SMALL_JSON, json_for, typed
from jv.props.c01 import note
from jv.props.c12 import draw_case
from jv.world import World


def unchanged(before, o, what):
    if snap(o) != before:
        raise Violation('%s was changed; it is %s now' % (what, short(o, 800)))


def run(ctx, what, fn, args, kwargs, compare):
    """Call twice; arguments must stay and outcomes be equal."""
    before = [(n, snap(a), a) for n, a in args] + [(k, snap(v), v) for k, v in kwargs.items()]
    keys = list(kwargs)
    res = attempt(fn, *[a for _, a in args], **kwargs)
    for n, s, a in before:
        unchanged(s, a, '%s of %s%s' % (n, what, ' (which raised)' if isinstance(res, Raised) else ''))
    require(list(kwargs) == keys, 'kwargs changed')
    again = attempt(fn, *[a for _, a in args], **kwargs)
    for n, s, a in before:
        unchanged(s, a, '%s of the second %s' % (n, what))
    ctx.label('raised' if isinstance(res, Raised) else 'returned')
    same_outcome(res, again, 'repeating %s gives another result' % what, [a for _, a in args], compare=compare)
    return res


def check_dump(case, ctx):
    w = World(case['defs'])
    note(case, ctx)
    v = w.value(case['type'], case['value'])
    opts = options(case['opts'])
    how = case['how']
    T = w.type(case['type'])
    jd = dict(case['jd'])
    if how == 'dump':
        run(ctx, 'dump', jsons.dump, [('object', v)], opts, jcompare)
    elif how == 'dump_cls':
        run(ctx, 'dump', jsons.dump, [('object', v), ('cls', T)], opts, jcompare)
    elif how == 'verbose':
        opts['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
        run(ctx, 'dump', jsons.dump, [('object', v)], opts, jcompare)
    elif how == 'strict':
        run(ctx, 'dump', jsons.dump, [('object', v), ('cls', T)], dict(opts, strict=True), jcompare)
    elif how == 'dumps':
        run(ctx, 'dumps', jsons.dumps, [('object', v)], dict(opts, jdkwargs=jd), jcompare)
    else:
        run(ctx, 'dumpb', jsons.dumpb, [('object', v)], dict(opts, jdkwargs=jd), jcompare)


@st.composite
def s_dump(draw):
    case = draw(typed(cvars=True))
    case['opts'] = draw(S_DUMP_OPTS)
    case['how'] = draw(st.sampled_from(['dump', 'dump', 'dump_cls', 'verbose', 'strict', 'dumps', 'dumpb']))
    case['jd'] = draw(st.sampled_from([{}, {'indent': 1}, {'sort_keys': False}, {'separators': [',', ':']}]))
    return case


def check_load(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    j = case['json']
    opts = options(case['opts'])
    kind = case['as']
    if kind == 'tuple' and isinstance(j, list):
        j = tuple(j)
    ctx.interesting(isinstance(j, (dict, list, tuple)) and bool(j))
    calls = []
    if case['getters'] is not None:
        opts['attr_getters'] = {n: (lambda v=v, n=n: calls.append(n) or v)
                                for n, v in case['getters'].items()}
        ctx.label('getters')
    how = case['how']
    if how == 'text':
        from jv.common import text
        t = text(case['json'])
        run(ctx, 'loads', jsons.loads, [('text', t), ('cls', T)], dict(opts, jdkwargs={'parse_int': int}), None or _cmp)
    elif how == 'union':
        import typing
        run(ctx, 'load', jsons.load, [('json', j), ('cls', typing.Union[T, dict, list, str])], opts, _cmp)
    elif how == 'untyped':
        run(ctx, 'load', jsons.load, [('json', j)], opts, _cmp)
    else:
        run(ctx, 'load', jsons.load, [('json', j), ('cls', T)], opts, _cmp)


def _cmp(a, b):
    from jv.world import differ
    return differ(a, b)


@st.composite
def s_load(draw, **features):
    case = draw(json_for(**features))
    case['opts'] = draw(S_LOAD_OPTS)
    if draw(st.integers(0, 2)) == 0:
        case['opts']['key_transformer'] = draw(st.sampled_from(list(TRANSFORMERS)))
    case['how'] = draw(st.sampled_from(['load', 'load', 'load', 'text', 'untyped', 'union']))
    case['as'] = draw(st.sampled_from(['list', 'tuple']))
    case['getters'] = None
    if draw(st.integers(0, 2)) == 0:
        names = [f[0] for d in case['defs'] if d['k'] == 'cls' for f in d['f']] + FIELDS[:4]
        case['getters'] = draw(st.dictionaries(st.sampled_from(names), S_SMALL_JSON, max_size=3))
    return case


@st.composite
def s_hashed(draw):
    """Mostly dicts with hashed keys, as attributes, elements and values."""
    case = draw(s_load(keys=[['tuple', ['int', 'str']], ['vtuple', 'int'], 'complex', 'zoneinfo'],
                       containers=['dict', 'dict', 'list', 'odict', 'mapping', 'opt'], max_defs=2, text=True))
    return case


def check_verbose(case, ctx):
    # JSON with meta info; it may be loaded with or without a type.
    w = World(case['defs'])
    T = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    j = jsons.dump(v, verbose={'class': jsons.Verbosity.WITH_CLASS_INFO, 'all': True}[case['verbose']])
    if case['broken']:
        j = mutate(case['broken'], j)
    ctx.label(case['how'])
    ctx.interesting('-meta' in repr(j))
    opts = options(case['opts'])
    if case['how'] == 'untyped':
        run(ctx, 'load', jsons.load, [('json', j)], opts, _cmp)
    elif case['how'] == 'list':
        import typing
        run(ctx, 'load', jsons.load, [('json', [j, j]), ('cls', typing.List[T])], opts, _cmp)
    elif case['how'] == 'redump':
        o = run(ctx, 'load', jsons.load, [('json', j)], opts, _cmp)
        if not isinstance(o, Raised):
            run(ctx, 'dump', jsons.dump, [('object', o)], {'verbose': jsons.Verbosity.WITH_CLASS_INFO}, jcompare)
    else:
        run(ctx, 'load', jsons.load, [('json', j), ('cls', T)], opts, _cmp)


def mutate(kind, j):
    # One wrong thing, somewhere.
    if isinstance(j, dict):
        if kind == 'meta' and '-meta' in j and 'classes' in j['-meta']:
            return dict(j, **{'-meta': {'classes': {k: 'no.such.Class' if k != '/' else c
                                                    for k, c in j['-meta']['classes'].items()}}})
        keys = [k for k in j if k != '-meta']
        if keys:
            k = keys[-1]
            return {**j, k: {'wrong': 1} if kind == 'value' else mutate(kind, j[k])}
    if isinstance(j, list) and j:
        return j[:-1] + [mutate(kind, j[-1])]
    return j


@st.composite
def s_verbose(draw):
    case = draw_case(draw)
    case['opts'] = draw(st.sampled_from([{}, {}, {'strict': True}, {'warn_on_fail': True}]))
    case['verbose'] = draw(st.sampled_from(['class', 'class', 'all']))
    case['how'] = draw(st.sampled_from(['untyped', 'typed', 'list', 'redump']))
    case['broken'] = draw(st.sampled_from([None, None, None, 'meta', 'value']))
    return case


PROP = Prop(
    'C04',
    'Dump: generated values with random options; load: JSON of a generated type, 0-3 mutations (so about half of the '
    'loads raise), random options and getters. All arguments are snapshotted with types, order and identities before '
    'each of two calls. Non-trivial: the value is not empty and involves a class or container. verbose: the JSON is a verbose dump (sometimes broken).',
    [
        Facet('dump', s_dump, check_dump, 5000, 100000, 4),
        Facet('load', s_load, check_load, 6000, 120000, 4),
        Facet('hashed', s_hashed, check_load, 2500, 50000, 2),
        Facet('verbose', s_verbose, check_verbose, 1800, 40000, 2),
    ],
    ['Custom (de)serializers and mappers that change their arguments themselves are outside the domain.'])
