"""C05: all forms of the API agree."""
import json

from hypothesis import strategies as st

import jsons
from jv.common import (Raised, S_DUMP_OPTS, S_LOAD_OPTS, TRANSFORMERS, attempt, jcompare, options,
                       same_outcome)
from jv.core import Facet, Prop, require
from jv.gen import G, json_for, mutate, typed
from jv.props.c01 import note
from jv import world
from jv.world import World, differ, plain

S_JD = st.fixed_dictionaries({}, optional={
    'indent': st.sampled_from([None, 0, 2, '\t']), 'ensure_ascii': st.booleans(),
    'separators': st.sampled_from([[',', ':'], [' , ', ' : ']]), 'sort_keys': st.booleans(),
    'allow_nan': st.booleans(), 'skipkeys': st.booleans()})
ENCODINGS = ['utf-8', 'utf-16', 'utf-32', 'utf-16-le', 'latin-1', 'ascii', 'cp1252', 'utf-8-sig']
LOAD_JD = {
    'none': {}, 'parse_int': {'parse_int': str}, 'parse_float': {'parse_float': lambda s: s + 'f'},
    'pairs': {'object_pairs_hook': lambda p: {k + '_': v for k, v in p}},
    'hook': {'object_hook': lambda d: {**d, 'hooked': 1}}, 'const': {'parse_constant': lambda c: 'C' + c},
    'strict': {'strict': False},
}


def jd_of(spec):
    return {k: (tuple(v) if isinstance(v, list) else v) for k, v in spec.items()}


def encode(d, jd, enc=None):
    if isinstance(d, Raised):
        return d
    t = attempt(json.dumps, d, **jd)
    return t if enc is None or isinstance(t, Raised) else attempt(t.encode, enc)


def check_dump(case, ctx):
    """dumps, dumpb vs. dump."""
    w = World(case['defs'])
    note(case, ctx)
    v = w.value(case['type'], case['value'])
    T = w.type(case['type'])
    opts, jd, enc = options(case['opts']), jd_of(case['jd']), case['enc']
    if case['cls'] == 'kw':
        opts['cls'] = T
    args = (T,) if case['cls'] == 'pos' else ()
    if case['strict']:
        opts['strict'] = True
    d = attempt(jsons.dump, v, *args, **opts)
    ctx.label('raised' if isinstance(d, Raised) else 'returned')
    text = encode(d, jd)
    if args:
        same_outcome(text, attempt(jsons.dumps, v, jd, T, **opts), 'dumps(v, jdkwargs, cls)', d, compare=jcompare)
        same_outcome(encode(d, jd, enc), attempt(jsons.dumpb, v, enc, jd, T, **opts),
                     'dumpb(v, encoding, jdkwargs, cls)', d, compare=jcompare)
    else:
        same_outcome(text, attempt(jsons.dumps, v, jdkwargs=jd, **opts), 'dumps(v)', d, compare=jcompare)
        same_outcome(encode(d, jd, enc), attempt(jsons.dumpb, v, encoding=enc, jdkwargs=jd, **opts),
                     'dumpb(v)', d, compare=jcompare)
        same_outcome(encode(d, {}), attempt(jsons.dumps, v, **opts), 'dumps(v) without jdkwargs', d, compare=jcompare)
        same_outcome(encode(d, {}, 'utf-8'), attempt(jsons.dumpb, v, **opts), 'dumpb(v) by default', d,
                     compare=jcompare)
        same_outcome(encode(d, jd), attempt(jsons.dumps, v, jd, **opts), 'dumps(v, jdkwargs)', d, compare=jcompare)


@st.composite
def s_dump(draw):
    case = draw(typed(cvars=True))
    case['opts'] = draw(S_DUMP_OPTS)
    case['jd'] = draw(S_JD)
    case['enc'] = draw(st.sampled_from(ENCODINGS))
    case['cls'] = draw(st.sampled_from(['no', 'no', 'kw', 'pos']))
    case['strict'] = draw(st.integers(0, 3)) == 0
    return case


def check_load(case, ctx):
    """loads, loadb vs. load."""
    w = World(case['defs'])
    T = w.type(case['type'])
    opts = options(case['opts'])
    jd = LOAD_JD[case['ljd']]
    text = json.dumps(case['json'], ensure_ascii=case['ascii'])
    ctx.interesting(isinstance(case['json'], (dict, list)) and bool(case['json']))
    j = json.loads(text, **jd)
    form = case['cls']
    args = {'no': (), 'kw': (), 'pos': (T,)}[form]
    if form == 'kw':
        opts['cls'] = T
    res = attempt(jsons.load, j, *args, **opts)
    ctx.label('raised' if isinstance(res, Raised) else 'returned', 'jd:' + case['ljd'])
    if form == 'pos':
        same_outcome(res, attempt(jsons.loads, text, T, jd, **opts), 'loads(text, cls, jdkwargs)', text)
    same_outcome(res, attempt(jsons.loads, text, *args, jdkwargs=jd, **opts), 'loads(text)', text)
    enc = case['enc']
    try:
        data = text.encode(enc)
    except UnicodeError:
        return
    if data.decode(enc) != text:
        return
    same_outcome(res, attempt(jsons.loadb, data, *args, encoding=enc, jdkwargs=jd, **opts), 'loadb(data)', text)
    if form == 'pos':
        same_outcome(res, attempt(jsons.loadb, data, T, enc, jd, **opts), 'loadb(data, cls, encoding, jdkwargs)', text)
    if not jd:
        same_outcome(res, attempt(jsons.loads, text, *args, **opts), 'loads without jdkwargs', text)
        same_outcome(res, attempt(jsons.loadb, text.encode(), *args, **opts), 'loadb by default', text)


@st.composite
def s_load(draw):
    case = draw(json_for())
    case['opts'] = draw(S_LOAD_OPTS)
    if draw(st.integers(0, 3)) == 0:
        case['opts']['key_transformer'] = draw(st.sampled_from(list(TRANSFORMERS)))
    case['enc'] = draw(st.sampled_from(ENCODINGS))
    case['ljd'] = draw(st.sampled_from(list(LOAD_JD)))
    case['cls'] = draw(st.sampled_from(['no', 'kw', 'pos', 'pos']))
    case['ascii'] = draw(st.booleans())
    return case


@st.composite
def s_ser(draw):
    """An instance of a JsonSerializable and JSON near it."""
    g = G(draw, text=True, max_defs=2, max_depth=2)
    g.make_defs()
    i = g._def_cls(g.new_name(), style='ser')
    if g.chance(3):
        i = g._def_cls(g.new_name(), style='ser')
    t = ['ref', i]
    v = g.value(t)
    world.reset()
    j = plain(World(g.defs).model(t, v))
    case = {'defs': g.defs, 'type': t, 'value': v, 'json': mutate(draw, j),
            'opts': draw(S_DUMP_OPTS), 'lopts': draw(S_LOAD_OPTS), 'jd': draw(S_JD),
            'enc': draw(st.sampled_from(['utf-8', 'utf-16', 'latin-1'])), 'custom': g.chance(2)}
    if g.chance(3):
        case['lopts']['key_transformer'] = g.pick(list(TRANSFORMERS))
    return case


def customize(cls):
    """Registrations on the class must be used by its methods."""
    cls.set_serializer(lambda o, **kwargs: '<%s>' % o, str)
    cls.set_deserializer(lambda o, cls, **kwargs: int(o) + 1, int)


def on_base(defs, base):
    """The JsonSerializable classes of defs derive from base."""
    world._module.__dict__['SerBase'] = base
    return [dict(d, opts=dict(d['opts'], serbase='SerBase'))
            if d['k'] == 'cls' and d['style'] == 'ser' else d for d in defs]


def check_methods(case, ctx):
    defs = case['defs']
    if case.get('custom'):
        base = jsons.JsonSerializable.fork()
        customize(base)
        ctx.label('custom')
        defs = on_base(defs, base)
    w = World(defs)
    note(case, ctx)
    cls = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    opts, lopts, jd, enc = options(case['opts']), options(case['lopts']), jd_of(case['jd']), case['enc']
    dump = attempt(jsons.dump, v, fork_inst=cls, **opts)
    same_outcome(dump, attempt(v.dump, **opts), 'inst.dump()', compare=jcompare)
    d0 = attempt(jsons.dump, v, fork_inst=cls)
    same_outcome(d0, attempt(lambda: v.json), 'inst.json', compare=jcompare)
    same_outcome(encode(d0, {}), attempt(str, v), 'str(inst)', compare=jcompare)
    same_outcome(attempt(jsons.dumps, v, jd, fork_inst=cls, **opts),
                 attempt(v.dumps, jdkwargs=jd, **opts), 'inst.dumps()', compare=jcompare)
    same_outcome(encode(dump, jd), attempt(v.dumps, jdkwargs=jd, **opts), 'inst.dumps()', compare=jcompare)
    same_outcome(encode(dump, jd, enc), attempt(v.dumpb, jdkwargs=jd, encoding=enc, **opts),
                 'inst.dumpb()', compare=jcompare)
    j = case['json']
    text = json.dumps(j)
    res = attempt(jsons.load, j, cls, fork_inst=cls, **lopts)
    ctx.label('raised' if isinstance(res, Raised) else 'returned')
    same_outcome(res, attempt(cls.load, j, **lopts), 'cls.load()', j)
    same_outcome(res, attempt(cls.from_json, j, **lopts), 'cls.from_json()', j)
    j = json.loads(text)
    same_outcome(res, attempt(cls.loads, text, **lopts), 'cls.loads()', j)
    same_outcome(res, attempt(cls.loadb, text.encode(enc), encoding=enc, **lopts), 'cls.loadb()', j)
    pairs = LOAD_JD['pairs']
    same_outcome(attempt(jsons.loads, text, cls, pairs, fork_inst=cls, **lopts),
                 attempt(cls.loads, text, jdkwargs=pairs, **lopts), 'cls.loads(jdkwargs)', j)
    if not isinstance(res, Raised):
        require(type(res) is cls, 'load returned a %s', type(res))


def check_with(case, ctx):
    """with_dump/with_load: always the given options."""
    opts, lopts = options(case['opts']), options(case['lopts'])
    extra, lextra = options(case['extra']), options(case['lextra'])
    root_dump, root_load = jsons.JsonSerializable.dump, jsons.JsonSerializable.__dict__['load']
    base = jsons.JsonSerializable
    if case['order']:
        base = base.with_dump(fork=True, **opts).with_load(fork=case['refork'], **lopts)
    else:
        base = base.with_load(fork=True, **lopts).with_dump(fork=case['refork'], **opts)
    defs = on_base(case['defs'], base)
    w = World(defs)
    note(case, ctx)
    ctx.interesting(bool(opts) or bool(lopts))
    cls = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    both = {**extra, **opts}
    res = attempt(jsons.dump, v, fork_inst=cls, **both)
    same_outcome(res, attempt(v.dump, **extra), 'dump() of with_dump(%s)' % case['opts'], compare=jcompare)
    plain_ = attempt(jsons.dump, v, fork_inst=cls, **opts)
    same_outcome(plain_, attempt(lambda: v.json), '.json of with_dump(%s)' % case['opts'], compare=jcompare)
    j = case['json']
    res = attempt(jsons.load, j, cls, fork_inst=cls, **{**lextra, **lopts})
    ctx.label('raised' if isinstance(res, Raised) else 'returned')
    same_outcome(res, attempt(cls.load, j, **lextra), 'load() of with_load(%s)' % case['lopts'], j)
    res = attempt(jsons.load, j, cls, fork_inst=cls, **lopts)
    same_outcome(res, attempt(cls.from_json, j), 'from_json() of with_load(%s)' % case['lopts'], j)
    require(jsons.JsonSerializable.dump is root_dump and jsons.JsonSerializable.__dict__['load'] is root_load,
            'with_dump/with_load(fork=True) changed JsonSerializable itself')


@st.composite
def s_with(draw):
    case = draw(s_ser())
    case['extra'] = draw(S_DUMP_OPTS)
    case['lextra'] = draw(S_LOAD_OPTS)
    case['order'] = draw(st.booleans())
    case['refork'] = draw(st.booleans())
    return case


PROP = Prop(
    'C05',
    'dump/load: a generated value, or JSON near a generated type, through every function with random options, codec '
    'options and encodings. methods: a generated JsonSerializable class (also with own (de)serializers), every '
    'method. with: with_dump/with_load with random options. Errors must agree too (class and message). Non-trivial: '
    'a non-empty value with a class or container; for "with" also: some option is given.',
    [
        Facet('dump', s_dump, check_dump, 2500, 50000, 3),
        Facet('load', s_load, check_load, 3500, 70000, 3),
        Facet('methods', s_ser, check_methods, 1500, 30000, 3),
        Facet('with', s_with, check_with, 1500, 30000, 2),
    ],
    ['dumps/loads of a with_dump/with_load class do not take the options of dump/load (documented for dump/load only).'])
