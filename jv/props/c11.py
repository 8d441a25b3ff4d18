"""C11: key transformers."""
import typing

from hypothesis import assume, strategies as st

import jsons
from jv.common import TRANSFORMERS, Raised, attempt, jcompare, options, same_outcome
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import S_JSON, json_for, typed
from jv.objs import Gen, Graph
from jv.props.c01 import note
from jv.world import World, jsame, same

CUSTOM = {
    'upper': str.upper, 'suffix': lambda k: k + '_x', 'prefix': lambda k: 'k' + k, 'swap': str.swapcase,
    'rev': lambda k: k[::-1], 'strip': lambda k: k.lstrip('_'), 'same': lambda k: k,
}
ALL = {**TRANSFORMERS, **CUSTOM}
S_TR = st.sampled_from(list(TRANSFORMERS) * 2 + list(CUSTOM))


class Collision(Exception):
    pass


def retag(j, tr):
    """j with all keys transformed, deeply."""
    if isinstance(j, dict):
        res = {tr(k): retag(v, tr) for k, v in j.items()}
        if len(res) != len(j):
            raise Collision
        return res
    if isinstance(j, (list, tuple)):
        return [retag(x, tr) for x in j]
    return j


def changes(j, tr):
    try:
        return retag(j, tr) != j
    except Collision:
        return True


def check_dump(case, ctx):
    """Object graphs with every style of class, properties, class variables."""
    g = Graph(case['classes'])
    tr = ALL[case['tr']]
    opts = dict(case['opts'])
    v = g.value(case['node'])
    plain = g.model(case['node'], opts)
    try:
        want = retag(plain, tr)
    except Collision:
        assume(False)
    ctx.label(case['tr'])
    ctx.interesting(want != plain)
    jsame(plain, jsons.dump(v, **opts), 'plain dump', case['classes'], case['node'])
    got = jsons.dump(v, key_transformer=tr, **opts)
    jsame(want, got, 'dump with key transformer %s, %s' % (case['tr'], opts), case['classes'], case['node'])
    require(got == retag(jsons.dump(v, **opts), tr), 'not the transformed plain dump: %s', short(got))


@st.composite
def s_dump(draw):
    g = Gen(draw, hashed=False)
    node = g.obj(len(g.classes) - 1) if not g.chance(4) else g.node()
    opts = {f: True for f in ('strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables')
            if g.chance(5)}
    if g.chance(5):
        opts['strip_attr'] = draw(st.lists(st.sampled_from(g.names), min_size=1, max_size=2))
    return {'classes': g.classes, 'node': node, 'tr': draw(S_TR), 'opts': opts}


ATOMS = ['int', 'str', 'float', 'bool', 'datetime', 'date', 'time', 'timedelta', 'decimal', 'uuid', 'path', 'none']
FEATURES = dict(atoms=ATOMS, hashed=False, text=True, keys=['str', 'str', 'date', 'uuid'])


def check_typed(case, ctx):
    """dump of typed values, with and without cls."""
    w = World(case['defs'])
    note(case, ctx)
    T = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    tr = ALL[case['tr']]
    args = (T,) if case['cls'] else ()
    if case['strict']:
        opts = {'strict': True}
    else:
        opts = {}
    plain = attempt(jsons.dump, v, *args, **opts)
    got = attempt(jsons.dump, v, *args, key_transformer=tr, **opts)
    try:
        want = plain if isinstance(plain, Raised) else retag(plain, tr)
    except Collision:
        assume(False)
    ctx.label(case['tr'])
    ctx.interesting(not isinstance(plain, Raised) and want != plain)
    same_outcome(want, got, 'dump with key transformer', plain, compare=jcompare)


@st.composite
def s_typed(draw):
    case = draw(typed(**FEATURES))
    case['tr'] = draw(S_TR)
    case['cls'] = draw(st.booleans())
    case['strict'] = draw(st.integers(0, 3)) == 0
    return case


def check_load(case, ctx):
    """load with a transformer vs. loading transformed JSON."""
    w = World(case['defs'])
    T = w.type(case['type'])
    j = case['json']
    tr, back = ALL[case['tr']], ALL[case['back']]
    try:
        j = retag(j, tr) if case['apply'] else j
        want = retag(j, back)
    except Collision:
        assume(False)
    assume(placed(case['defs'], case['type'], want))
    opts = options(case['opts'])
    expected = attempt(jsons.load, want, T, **opts)
    got = attempt(jsons.load, j, T, key_transformer=back, **opts)
    ctx.label('raised' if isinstance(expected, Raised) else 'returned', case['back'])
    ctx.interesting(not isinstance(expected, Raised) and want != j)
    if isinstance(expected, Raised) and isinstance(got, Raised):
        return    # with which error depends on the keys
    same_outcome(expected, got, 'load with key transformer %s' % case['back'], w.src(case['type']), j, want)


@st.composite
def s_load(draw, **features):
    case = draw(json_for(**{**FEATURES, 'unions': False, **features}))
    assume(not has_meta(case['json']))
    assume(placed(case['defs'], case['type'], case['json']))
    case['tr'] = draw(S_TR)
    case['apply'] = draw(st.booleans())
    case['back'] = draw(st.sampled_from(['snake', 'snake', 'camel', 'pascal', 'lisp', 'same', 'swap', 'prefix']))
    if draw(st.integers(0, 2)) == 0:
        case['apply'], case['tr'], case['back'] = True, *draw(st.sampled_from(
            [('rev', 'rev'), ('swap', 'swap'), ('camel', 'snake'), ('pascal', 'snake'), ('lisp', 'snake')]))
    case['opts'] = draw(st.fixed_dictionaries({}, optional={'strict': st.booleans()}))
    return case


def has_dict(j):
    return isinstance(j, dict) or isinstance(j, list) and any(has_dict(x) for x in j)


def placed(defs, t, j):
    """All dicts in j are where the type has a class or dict. (Elsewhere, they
    are taken over as they are, or their text.)"""
    if not has_dict(j):
        return True
    if isinstance(t, str):
        return False
    k = t[0]
    if k == 'opt':
        return placed(defs, t[1], j)
    if k == 'union':
        return False
    if k in ('dict', 'bdict', 'odict', 'ddict', 'mapping', 'mmapping'):
        return isinstance(j, dict) and all(placed(defs, t[2], x) for x in j.values())
    if k == 'ref':
        d = defs[t[1]]
        if d['k'] == 'newtype':
            return placed(defs, d['t'], j)
        if d['k'] == 'nt' and isinstance(j, list):
            return all(placed(defs, f[1], x) for f, x in zip(d['f'], j))
        if d['k'] not in ('cls', 'nt') or not isinstance(j, dict):
            return False
        fields, i = {}, t[1]
        while i is not None:
            fields.update({f[0]: f[1] for f in defs[i]['f']})
            i = defs[i].get('base')
        return all(placed(defs, fields.get(n, 'any'), x) for n, x in j.items())
    if not isinstance(j, list):
        return False
    if k in ('tuple', 'btuple'):
        return len(j) == len(t[1]) and all(placed(defs, a, x) for a, x in zip(t[1], j))
    return all(placed(defs, t[1], x) for x in j)


def has_meta(j):
    if isinstance(j, dict):
        return any(k in ('-keys', '-meta', '-cls') for k in j) or any(has_meta(v) for v in j.values())
    return isinstance(j, list) and any(has_meta(v) for v in j)


def check_untyped(case, ctx):
    """Untyped JSON and Dict[str, ...]."""
    j = case['json']
    tr = ALL[case['tr']]
    try:
        want = retag(j, tr)
    except Collision:
        assume(False)
    ctx.interesting(want != j)
    same_outcome(attempt(jsons.load, want), attempt(jsons.load, j, key_transformer=tr),
                 'load without type, key transformer %s' % case['tr'], j)
    if isinstance(j, dict):
        inner = {tr(k): v for k, v in j.items()}
        same_outcome(attempt(jsons.load, inner, typing.Dict[str, typing.Any]),
                     attempt(jsons.load, j, typing.Dict[str, typing.Any], key_transformer=tr),
                     'load into Dict[str, Any], key transformer %s' % case['tr'], j)
    same_outcome(retag(jsons.dump(j), tr), attempt(jsons.dump, j, key_transformer=tr),
                 'dump with key transformer %s' % case['tr'], j, compare=jcompare)


@st.composite
def s_untyped(draw):
    j = draw(S_JSON)
    assume(not has_meta(j))
    return {'json': j, 'tr': draw(S_TR)}


# Words that survive: lower case letters, every segment after the first at
# least two letters (a_b_c is aBC in camelCase).
SNAKE = ['name', 'first_name', 'some_long_word', 'ab', 'count', 'created_at', 'my_attr', 'is_ok', 'xx_yy_zz',
         'value', 'next_one', 'home_address', 'zip', 'of', 'the_end', 'a', 'x_axis', 'from_year', 'last_name']


def check_round(case, ctx):
    w = World(case['defs'])
    note(case, ctx)
    T = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    tr = TRANSFORMERS[case['tr']]
    expected = w.back(case['type'], case['value'])
    ctx.label(case['tr'])
    snake = jsons.KEY_TRANSFORMER_SNAKECASE
    d = jsons.dump(v, key_transformer=tr)
    same(expected, jsons.load(d, T, key_transformer=snake), 'load(dump(v, %s), snake)' % case['tr'], d)
    text = jsons.dumps(v, key_transformer=tr)
    same(expected, jsons.loads(text, T, key_transformer=snake), 'loads(dumps(v, %s), snake)' % case['tr'], text)
    same(expected, jsons.load(d, T, key_transformer=snake, strict=case['strict']),
         'load(dump(v, %s), snake, strict)' % case['tr'], d)


S_SNAKE = st.one_of(st.sampled_from(SNAKE), st.tuples(
    st.text('abcxyz', min_size=1, max_size=4), st.lists(st.text('abcxyz', min_size=2, max_size=4), max_size=3)
).map(lambda p: '_'.join([p[0]] + p[1])))


@st.composite
def s_round(draw):
    styles = [s for s in ('data', 'init', 'both', 'attrs', 'slots', 'ser', 'kwonly')]
    case = draw(typed(**dict(FEATURES, styles=styles, fields=SNAKE, keys=['str'], unions=False),
                      overrides={}))
    case['tr'] = draw(st.sampled_from(list(TRANSFORMERS)))
    case['strict'] = draw(st.booleans())
    case['value'] = rekey(case['defs'], case['type'], case['value'], draw)
    return case


def rekey(defs, t, v, draw):
    """Let all str keys be snake case words."""
    if isinstance(t, str):
        return v
    k = t[0]
    if k in ('dict', 'bdict', 'odict', 'ddict', 'mapping', 'mmapping'):
        return [[draw(S_SNAKE) if t[1] == 'str' else a, rekey(defs, t[2], b, draw)] for a, b in v]
    if k == 'opt':
        return None if v is None else rekey(defs, t[1], v, draw)
    if k in ('tuple', 'btuple'):
        return [rekey(defs, a, x, draw) for a, x in zip(t[1], v)]
    if k == 'ref':
        d = defs[t[1]]
        if d['k'] == 'newtype':
            return rekey(defs, d['t'], v, draw)
        if d['k'] == 'enum':
            return v
        chain = []
        i = t[1]
        while i is not None:
            chain = defs[i]['f'] + chain
            i = defs[i].get('base')
        return [rekey(defs, f[1], x, draw) for f, x in zip(chain, v)]
    return [rekey(defs, t[1], x, draw) for x in v]


def expected_words(word):
    """The four forms of a snake_case word, written independently."""
    segs = word.split('_')
    cap = [s[0].upper() + s[1:] for s in segs]
    return {'snake': word, 'lisp': '-'.join(segs), 'pascal': ''.join(cap), 'camel': segs[0] + ''.join(cap[1:])}


def check_laws(case, ctx):
    word = case['word']
    forms = expected_words(word)
    ctx.interesting('_' in word)
    for n, form in forms.items():
        got = TRANSFORMERS[n](word)
        require(got == form, '%s(%r) is %r, not %r', n, word, got, form)
        require(TRANSFORMERS[n](form) == form, '%s is not idempotent: %s(%r) is %r', n, n, form,
                TRANSFORMERS[n](form))
        for m, other in forms.items():
            require(TRANSFORMERS[m](form) == other, '%s(%s(%r)) is %r, not %r', m, n, word, TRANSFORMERS[m](form),
                    other)
        d = jsons.dump({word: {word: [{word: None}]}}, key_transformer=TRANSFORMERS[n])
        require(d == {form: {form: [{form: None}]}}, 'dump with %s: %s', n, d)


S_WORD = st.tuples(
    st.text('abcdefxyz', min_size=2, max_size=5), st.lists(st.text('abcdefxyz', min_size=2, max_size=5), max_size=4)
).map(lambda p: {'word': '_'.join([p[0]] + p[1])})


PROP = Prop(
    'C11',
    'dump/typed: generated object graphs and typed values, dumped with each of the four transformers and custom '
    'ones, compared with the plain dump with all keys renamed; load/untyped: JSON near a generated type, loaded with '
    'a transformer, compared with loading the renamed JSON; round: snake case objects through each case and back; '
    'laws: generated words. Cases where two keys become equal are skipped. Non-trivial: the transformer changes a '
    'key (round: a non-empty value with a class or container; laws: more than one segment).',
    [
        Facet('dump', s_dump, check_dump, 4000, 80000, 4),
        Facet('typed', s_typed, check_typed, 2500, 50000, 3),
        Facet('load', s_load, check_load, 4000, 80000, 4),
        Facet('untyped', s_untyped, check_untyped, 2000, 40000, 1),
        Facet('round', s_round, check_round, 2500, 50000, 3),
        Facet('laws', lambda: S_WORD, check_laws, 600, 10000, 1, 1),
    ],
    ['Where the type has no class or typed dict, a dict of the JSON is taken over without renaming (documented for '
     'matching types); such positions are outside the domain of "load".',
     'JSON that is an instance of the requested type already (a dict loaded into plain dict or Any) is returned as '
     'it is, which is documented.', 'Only string keys; hashed keys, and objects of the '
     'built-in types that are dumped as dicts (complex, timezone, ZoneInfo) are outside the domain.',
     'Words that cannot be recovered (single letter segments next to each other, digits at the start of a '
     'segment, double underscores) are outside the domain of the round trip.'])
