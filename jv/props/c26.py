"""C26: The default functions do by themselves what dump and load do."""
import collections.abc
import datetime as dt
import decimal
import enum
import pathlib
import typing
import uuid
import zoneinfo

from hypothesis import strategies as st

import jsons
from jv.common import Raised, S_DUMP_OPTS, S_LOAD_OPTS, attempt, jcompare, options
from jv.core import Facet, Prop, require, short
from jv.gen import S_SMALL_JSON, json_for, typed
from jv.props.c01 import note
from jv.world import ATOMS, DICTS, World, differ

SERIALIZERS = [
    (enum.Enum, ['enum']), ((str, int, float, bool, type(None)), ['primitive']), (dt.datetime, ['datetime']),
    (dt.date, ['date']), (dt.time, ['time']), (dt.timedelta, ['timedelta']), (dt.timezone, ['timezone']),
    (zoneinfo.ZoneInfo, ['zone_info']), (decimal.Decimal, ['decimal']), (uuid.UUID, ['uuid']),
    (pathlib.PurePath, ['path']), (complex, ['complex']), (list, ['list', 'iterable']), (tuple, ['tuple', 'iterable']),
    (collections.abc.Mapping, ['dict']), (collections.abc.Iterable, ['iterable']), (object, ['object'])]
ATOM_DESERIALIZERS = {
    'int': ['primitive'], 'float': ['primitive'], 'bool': ['primitive'], 'str': ['string'], 'none': ['nonetype'],
    'zoneinfo': ['zone_info'], 'winpath': ['path'], 'any': []}
DESERIALIZERS = {
    'list': ['list', 'iterable'], 'blist': ['list', 'iterable'], 'tuple': ['tuple'], 'btuple': ['tuple'], 'vtuple': ['tuple'],
    'dict': ['mapping', 'dict'], 'bdict': ['mapping', 'dict'], 'odict': ['mapping'], 'mapping': ['mapping', 'dict'],
    'mmapping': ['mapping', 'dict'], 'ddict': ['defaultdict'], 'opt': ['union'], 'union': ['union']}
# These know what to make without being told.
NO_CLS = ('datetime', 'date', 'time', 'timedelta', 'timezone', 'decimal', 'uuid', 'complex', 'zoneinfo', 'none')


def get(name, kind):
    n = 'default_%s_%s' % (name, kind)
    f = getattr(jsons, n, None)
    require(f is not None, 'there is no jsons.%s', n)
    return f


def resolve(w, t):
    while not isinstance(t, str) and t[0] == 'ref' and w.defs[t[1]]['k'] == 'newtype':
        t = w.defs[t[1]]['t']
    return t


def check_ser(case, ctx):
    w = World(case['defs'])
    note(case, ctx)
    v = w.value(case['type'], case['value'])
    T = w.type(case['type'])
    opts = options(case['opts'])
    if opts.get('verbose'):
        opts['verbose'] = jsons.Verbosity.WITH_CLASS_INFO    # (without the time)
    if case['fork']:
        opts['fork_inst'] = jsons.fork()
    names = next(names for C, names in SERIALIZERS if isinstance(v, C))
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        names = ['tuple', 'namedtuple']
    kw = {}
    if case['typed']:
        kw['cls'] = T
        t = resolve(w, case['type'])
        if t == 'any':
            names = ['object']
        elif t[0] in ('opt', 'union'):
            names = ['union']
    for name in names:
        f = get(name, 'serializer')
        expected = attempt(jsons.dump, v, **kw, **opts)
        got = attempt(f, v, **kw, **opts)
        what = 'default_%s_serializer(%s, %s)' % (name, short(v), short({**kw, **opts}))
        ctx.label(name, 'raised' if isinstance(expected, Raised) else 'returned')
        ctx.interesting(not isinstance(v, (int, str)) or bool(opts))
        same(expected, got, what, jcompare)


def same(expected, got, what, compare):
    if isinstance(expected, Raised):
        # (That may be another exception, it is not wrapped.)
        require(isinstance(got, Raised), '%s gives %s instead of %s', what, short(got), expected)
        return
    require(not isinstance(got, Raised), '%s raises %s instead of %s', what, got, short(expected))
    d = compare(expected, got)
    require(not d, '%s: %s', what, d)


@st.composite
def s_ser(draw):
    case = draw(typed(cvars=True, ref_first=1))
    case['opts'] = draw(S_DUMP_OPTS)
    if draw(st.integers(0, 3)) == 0:
        case['opts']['strict'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        case['opts']['verbose'] = draw(st.booleans())
    case['fork'] = draw(st.booleans())
    case['typed'] = draw(st.booleans())
    return case


def check_deser(case, ctx):
    w = World(case['defs'])
    t = resolve(w, case['type'])
    T = w.type(t)
    j = case['json']
    opts = options(case['opts'])
    if case['fork']:
        opts['fork_inst'] = jsons.fork()
    if isinstance(t, str):
        names = ATOM_DESERIALIZERS.get(t, [t])
    elif t[0] == 'ref':
        names = {'cls': ['object'], 'enum': ['enum'], 'nt': ['namedtuple', 'tuple']}[w.defs[t[1]]['k']]
    else:
        names = DESERIALIZERS.get(t[0], ['iterable'])
    calls = [(n, (j, T)) for n in names]
    if t in NO_CLS:
        calls += [(n, (j,)) for n in names]
    expected = attempt(jsons.load, j, T, **opts)
    if case['untyped']:
        simple = {list: 'list', str: 'string', int: 'primitive', float: 'primitive', bool: 'primitive',
                  type(None): 'nonetype'}.get(type(j))
        if simple:
            calls = [(simple, (j,))]
            expected = attempt(jsons.load, j, **opts)
    for name, args in calls:
        f = get(name, 'deserializer')
        got = attempt(f, *args, **opts)
        what = 'default_%s_deserializer(%s, %s)' % (name, short(args), short(opts))
        ctx.label(name, 'raised' if isinstance(expected, Raised) else 'returned')
        ctx.interesting()
        if isinstance(expected, Raised) and (name != 'object' or not isinstance(j, dict) or '-meta' in j):
            continue    # (It is load that checks what it is given.)
        same(expected, got, what, differ)


@st.composite
def s_deser(draw):
    case = draw(json_for(defaults=draw(st.booleans())))
    case['untyped'] = draw(st.integers(0, 5)) == 0
    if case['untyped'] and draw(st.booleans()):
        case['json'] = draw(S_SMALL_JSON)
    case['opts'] = draw(S_LOAD_OPTS)
    case['fork'] = draw(st.booleans())
    return case


PROP = Prop(
    'C26',
    'Generated values and (mutated) JSON of generated types; the default function for it is called directly, with '
    'generated options, with or without type and fork, and compared with dump and load. Non-trivial: the value is no '
    'str or int, or there are options; every direct load.',
    [
        Facet('ser', s_ser, check_ser, 6000, 120000, 5),
        Facet('deser', s_deser, check_deser, 6000, 120000, 5),
    ],
    ['What load itself checks (None, the type of the JSON, -meta) is not checked by the deserializers: where load fails, '
     'only the default_object_deserializer must fail too.'])
