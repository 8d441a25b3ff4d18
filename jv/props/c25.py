"""C25: Options reach every depth, and functions that pass on what they got change nothing."""
import collections
import datetime as dt
import decimal
import enum
import json
import pathlib
import typing
import uuid
import warnings

from hypothesis import strategies as st

import jsons
from jv.common import (Raised, S_DUMP_OPTS, S_LOAD_OPTS, TRANSFORMERS, attempt, jcompare, options, same_outcome)
from jv.core import Facet, Prop, require, short
from jv.gen import S_SMALL_JSON, json_for, typed
from jv.props.c01 import note
from jv.world import World, attrs_of, dynamic

BUILTIN = {
    'datetime': dt.datetime, 'date': dt.date, 'time': dt.time, 'timedelta': dt.timedelta, 'timezone': dt.timezone,
    'decimal': decimal.Decimal, 'uuid': uuid.UUID, 'path': pathlib.PurePath, 'complex': complex, 'enum': enum.Enum,
    'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'deque': collections.deque,
    'object': object, 'int': int, 'str': str, 'float': float, 'bool': bool,
}
# What cannot be seen in a result.
LOOSE = ('object', 'int', 'str', 'float', 'bool', 'path', 'enum', 'list', 'dict', 'tuple')
OWN_OPTIONS = ['context', 'user', 'depth', 'mode', 'name', 'value', 'index', 'result', 'attr', 'hint', 'options',
               'type_', 'key', 'keys', 'elem', 'data', 'path', 'prefix', 'lang', 'T', 'été', 'default', 'cls_', 'json']


def parts(o, out=None, depth=0):
    """All values within o (with o)."""
    out = [] if out is None else out
    out.append(o)
    if depth > 30 or isinstance(o, (str, bytes, enum.Enum)):
        return out
    if isinstance(o, dict):
        for k, v in o.items():
            parts(k, out, depth + 1)
            parts(v, out, depth + 1)
    elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        for x in o:
            parts(x, out, depth + 1)
    elif dynamic(type(o)):
        for n in attrs_of(o):
            parts(getattr(o, n), out, depth + 1)
    return out


def registered(case, w):
    """(name, type) of what gets a function."""
    res = []
    for r in case['reg']:
        if isinstance(r, int):
            res.append((r, w.type(['ref', r])))
        else:
            res.append((r, BUILTIN[r]))
    return res


def check_kwargs(calls, opts, fork, what):
    for obj, kw, _ in calls:
        for n, v in opts.items():
            if n in ('verbose', 'warn_on_fail'):
                continue
            if n == 'key_transformer' and (type(obj) in (str, int, float, bool) or type(obj) is dict and 'real' in obj):
                continue    # (There is no key in a key; those of a complex number are fixed.)
            require(n in kw, '%s: the function for %s does not get %s: %s', what, short(obj), n, short(kw))
            got = kw[n]
            if n == 'strip_attr':
                ok = set([v] if isinstance(v, str) else v) == set([got] if isinstance(got, str) else got)
            else:
                ok = got is v
            require(ok, '%s: the function for %s gets %s=%s', what, short(obj), n, short(got))
        require(kw.get('fork_inst') is fork, '%s: the function for %s gets another fork: %s', what, short(obj), short(kw))


def own_options(case):
    return {n: object() for n in case['own']}


def check_dump(case, ctx):
    w = World(case['defs'])
    note(case, ctx)
    v = w.value(case['type'], case['value'])
    args = (w.type(case['type']),) if case['typed'] else ()
    plain, fork = jsons.fork(), jsons.fork()
    calls = []

    def ser(obj, cls=None, **kwargs):
        calls.append((obj, kwargs, None))
        if case['by'] == 'again':
            return jsons.dump(obj, cls, **{**kwargs, 'fork_inst': plain})
        default = jsons.get_serializer(cls or type(obj), plain)
        return default(obj, cls=cls, **kwargs)

    regs = registered(case, w)
    for _, T in regs:
        jsons.set_serializer(ser, T, case['high'], fork)
    opts = options(case['opts'])
    if opts.get('verbose'):
        opts['verbose'] = jsons.Verbosity.WITH_CLASS_INFO    # (without the time)
    own = own_options(case)
    expected = attempt(jsons.dump, v, *args, fork_inst=plain, **opts)
    with warnings.catch_warnings(record=True) as failing:
        warnings.simplefilter('always')
        got = attempt(jsons.dump, v, *args, fork_inst=fork, **opts, **own)
    what = 'dump with passing functions for %s' % [T for _, T in regs]
    same_outcome(expected, got, what, v, message=False, compare=jcompare)
    check_kwargs(calls, {**{k: x for k, x in opts.items()}, **own}, fork, what)
    ctx.label(case['by'], 'typed' if args else 'untyped', 'raised' if isinstance(got, Raised) else 'returned')
    ctx.interesting(bool(calls))
    if (isinstance(got, Raised) or any(n.startswith('strip') for n in opts) or case['by'] == 'again'
            or not case['high'] or failing):
        return
    seen = {id(obj) for obj, _, _ in calls}
    for x in parts(v):
        for n, T in regs:
            if type(x) is T and n not in LOOSE and n not in ('set', 'frozenset', 'deque', 'timedelta', 'complex'):
                require(id(x) in seen, '%s: %r was dumped by another function', what, x)


S_OWN = st.lists(st.sampled_from(OWN_OPTIONS), max_size=3, unique=True)


def draw_reg(draw, case):
    text = json.dumps([case['type'], case['defs']])
    pool = [n for n in sorted(BUILTIN) if '"%s"' % n in text or n == 'object']
    for n, names in (('dict', ('ddict', 'odict', 'mapping')), ('list', ('seq', 'blist')), ('tuple', ('vtuple', 'btuple'))):
        if any('"%s"' % x in text for x in names):
            pool.append(n)
    refs = [i for i, d in enumerate(case['defs']) if d['k'] in ('cls', 'enum', 'nt')]
    pool += refs * 4
    return draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))


@st.composite
def s_dump(draw):
    case = draw(typed(cvars=True))
    case['opts'] = draw(S_DUMP_OPTS)
    if draw(st.integers(0, 3)) == 0:
        case['opts']['strict'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        case['opts']['verbose'] = draw(st.booleans())
    case['own'] = draw(S_OWN)
    case['reg'] = draw_reg(draw, case)
    case['by'] = draw(st.sampled_from(['default', 'default', 'default', 'again']))
    case['typed'] = draw(st.booleans())
    case['high'] = draw(st.integers(0, 5)) > 0
    return case


def check_load(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    plain, fork = jsons.fork(), jsons.fork()
    calls = []

    def deser(obj, cls=None, **kwargs):
        calls.append([obj, kwargs, None])
        call = calls[-1]
        if case['by'] == 'again':
            call[2] = jsons.load(obj, cls, **{**kwargs, 'fork_inst': plain})
        else:
            call[2] = jsons.get_deserializer(cls, plain)(obj, cls, **kwargs)
        return call[2]

    regs = registered(case, w)
    for _, R in regs:
        jsons.set_deserializer(deser, R, case['high'], fork)
    opts = options(case['opts'])
    own = own_options(case)
    j = case['json']
    args = () if case.get('untyped') else (T,)
    expected = attempt(jsons.load, j, *args, fork_inst=plain, **opts)
    got = attempt(jsons.load, j, *args, fork_inst=fork, **opts, **own)
    what = 'load with passing functions for %s' % [R for _, R in regs]
    same_outcome(expected, got, what, j, w.src(case['type']), message=False)
    check_kwargs(calls, {**{k: x for k, x in opts.items()}, **own}, fork, what)
    ctx.label(case['by'], 'raised' if isinstance(got, Raised) else 'returned')
    ctx.interesting(bool(calls))
    if isinstance(got, Raised) or case['by'] == 'again' or not case['high']:
        return
    made = {id(r) for _, _, r in calls}
    for x in parts(got):
        for n, R in regs:
            if type(x) is R and isinstance(n, int) and not isinstance(x, enum.Enum):
                require(id(x) in made, '%s: %r was loaded by another function', what, x)


@st.composite
def s_load(draw):
    case = draw(json_for(defaults=False))
    case['opts'] = draw(S_LOAD_OPTS)
    if draw(st.integers(0, 3)) == 0:
        case['opts']['key_transformer'] = draw(st.sampled_from(list(TRANSFORMERS)))
    case['own'] = draw(S_OWN)
    case['untyped'] = draw(st.integers(0, 5)) == 0
    if case['untyped']:
        # (Any text might be a datetime.)
        if draw(st.booleans()):
            case['json'] = draw(S_SMALL_JSON)
        case['reg'] = draw(st.lists(st.sampled_from(['datetime', 'datetime', 'str', 'list', 'dict', 'int', 'object']),
                                    min_size=1, max_size=3, unique=True))
    else:
        case['reg'] = draw_reg(draw, case)
    # (To load a dict as a dict is to leave it as it is, which is not what happens without a type.)
    case['by'] = 'default' if case['untyped'] else draw(st.sampled_from(['default', 'default', 'default', 'again']))
    case['high'] = draw(st.integers(0, 5)) > 0
    return case


PROP = Prop(
    'C25',
    'dump/load: generated values and (mutated) JSON of generated types with random options of jsons and of the caller; '
    'in a fork, functions are registered for up to 4 of the classes or builtin types involved (or object), which record '
    'their arguments and pass them on to the default function, or to dump/load with another fork. Results are compared '
    'with a fork without registrations. Non-trivial: a registered function was called.',
    [
        Facet('dump', s_dump, check_dump, 6000, 120000, 5),
        Facet('load', s_load, check_load, 6000, 120000, 5),
    ],
    ['Options that the list deserializer consumes (warn_on_fail, tasks, task_type), verbose and attr_getters are only '
     'compared by their effect.',
     'Names of own options that are parameters of jsons itself (cls, obj, sig, ...) are outside the domain.'])
