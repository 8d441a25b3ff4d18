"""C10: strict dumps."""
import typing

from hypothesis import strategies as st

import jsons
from jv.common import Raised, attempt
from jv.core import Facet, Prop, require, short
from jv.gen import G, typed, STYLES
from jv.objs import Gen, Graph
from jv.props.c01 import note
from jv.world import World, jdiffer, jsame

STRICT_STYLES = ['data', 'data', 'init', 'both', 'attrs', 'slots', 'ser', 'late', 'kwonly']


def check_conforming(case, ctx):
    """A strict dump of a conforming value equals the ordinary one."""
    w = World(case['defs'])
    note(case, ctx)
    T = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    model = w.model(case['type'], case['value'])
    jsame(model, jsons.dump(v, T, strict=True), 'dump(v, cls, strict=True)', w.src(case['type']))
    jsame(model, jsons.dump(v, strict=True), 'dump(v, strict=True)', w.src(case['type']))


POSITIONS = ['arg', 'hint', 'list', 'listarg', 'opt', 'vtuple', 'tuple', 'nested', 'argopt', 'seq', 'hint2', 'deque']


def place(pos, i):
    """Type in which the base class i occurs, and how to get at its dump."""
    r = ['ref', i]
    return {'arg': r, 'hint': r, 'hint2': r, 'list': ['list', r], 'listarg': ['list', r], 'opt': ['opt', r],
            'argopt': ['opt', r], 'vtuple': ['vtuple', r], 'tuple': ['tuple', [r, r]], 'seq': ['seq', r],
            'deque': ['deque', r], 'nested': ['list', ['list', r]]}[pos]


def wrap(pos, x):
    if pos in ('list', 'listarg', 'vtuple', 'seq', 'deque'):
        return [x, x]
    if pos == 'tuple':
        return [x, x]
    if pos == 'nested':
        return [[x], [x, x]]
    return x


def check_base(case, ctx):
    """Instances of a derived class as the base class."""
    defs, b, d = case['defs'], case['base'], case['derived']
    w = World(defs)
    pos = case['pos']
    ctx.label('pos:' + pos, 'style:' + defs[b]['style'])
    ctx.interesting(len(case['value']) > len(w.fields(b)))
    t_base, t_derived = place(pos, b), place(pos, d)
    val = wrap(pos, case['value'])
    v = w.value(t_derived, val)
    full = w.model(t_derived, val)
    base_only = w.model(t_base, wrap(pos, case['value'][:len(w.fields(b))]))
    T = w.type(t_base)
    if pos in ('arg', 'listarg', 'argopt', 'nested', 'tuple', 'vtuple', 'seq', 'deque'):
        jsame(base_only, jsons.dump(v, T, strict=True), 'strict dump as the base class', pos, defs)
        jsame(full, jsons.dump(v, T), 'dump as the base class', pos, defs)
        jsame(full, jsons.dump(v), 'dump', pos, defs)
        jsame(full, jsons.dump(v, w.type(t_derived), strict=True), 'strict dump as its own class', pos, defs)
        return
    # As the hint of an attribute.
    holder = {'k': 'cls', 'n': 'Holder', 'style': case['holder'], 'f': [['held', t_base], ['zz', 'int']], 'opts': {}}
    w.defs.append(holder)
    w.objs.append(w._make(len(w.defs) - 1))
    cls = w.objs[-1]
    if case['holder'] == 'late':
        h = cls()
        h.held, h.zz = v, 5
    else:
        h = cls(held=v, zz=5)
    H = cls
    m_base, m_full = {'held': base_only, 'zz': 5}, {'held': full, 'zz': 5}
    if pos == 'hint2':
        jsame([m_base], jsons.dump([h], typing.List[H], strict=True), 'strict dump of a list of holders', defs)
        jsame([m_full], jsons.dump([h], typing.List[H]), 'dump of a list of holders', defs)
    if case['holder'] == 'slots':
        # A slot has no type.
        jsame(m_full, jsons.dump(h), 'dump', defs)
        return
    jsame(m_base, jsons.dump(h, H, strict=True), 'strict dump of an attribute hinted as the base class', pos, defs)
    jsame(m_base, jsons.dump(h, strict=True) if case['holder'] in ('both', 'data', 'late', 'attrs') else
          jsons.dump(h, H, strict=True), 'strict dump without cls', pos, defs)
    jsame(m_full, jsons.dump(h, H), 'dump of an attribute hinted as the base class', pos, defs)
    jsame(m_full, jsons.dump(h), 'dump of an attribute hinted as the base class', pos, defs)


@st.composite
def s_base(draw):
    g = G(draw, max_defs=2, max_depth=2, styles=STRICT_STYLES, recursive=False, newtypes=False)
    g.make_defs()
    b = g._def_cls(g.new_name())
    d = g._def_cls(g.new_name(), base=b)
    if g.chance(3):
        d = g._def_cls(g.new_name(), base=d)
    return {'defs': g.defs, 'base': b, 'derived': d, 'value': g.value(['ref', d]), 'pos': g.pick(POSITIONS),
            'holder': g.pick(['data', 'both', 'init', 'late', 'attrs'])}


def check_types(case, ctx):
    """The classes of the values of a dict, as given with types."""
    w = World(case['defs'])
    b, d = ['ref', case['base']], ['ref', case['derived']]
    n = len(w.fields(case['base']))
    as_types = {'base': b, 'derived': d, 'list': ['list', b], 'opt': ['opt', b]}
    o, full, narrow, types = {}, {}, {}, {}
    for key, how, val in case['items']:
        x = [val] if how == 'list' else val
        o[key] = w.value(['list', d] if how == 'list' else d, x)
        full[key] = narrow[key] = w.model(['list', d] if how == 'list' else d, x)
        if how in as_types:
            types[key] = w.type(as_types[how])
        if how in ('base', 'opt'):
            narrow[key] = w.model(b, val[:n])
        elif how == 'list':
            narrow[key] = [w.model(b, val[:n])]
        elif how == 'inner':
            # The types are those of this dict, not those of the dicts in it.
            o[key], full[key] = {key: o[key], case['items'][0][0]: o[key]}, {key: full[key], case['items'][0][0]: full[key]}
            narrow[key] = full[key]
    for key in case['more']:
        types.setdefault(key, w.objs[case['base']]) if key not in o else None
    before = dict(types)
    ctx.interesting(any(full[k] != narrow[k] for k in o))
    ctx.label('%d types' % min(len(types), 3))
    jsame(narrow, jsons.dump(o, types=types, strict=True), 'strict dump with types', short(types), case['defs'])
    jsame(full, jsons.dump(o, types=types), 'dump with types', short(types), case['defs'])
    require(types == before, 'the types became %s', types)
    if case['direct']:
        jsame(narrow, jsons.default_dict_serializer(o, types=types, strict=True), 'strict default_dict_serializer with types',
              short(types), case['defs'])


@st.composite
def s_types(draw):
    g = G(draw, max_defs=2, max_depth=2, styles=STRICT_STYLES, recursive=False, newtypes=False)
    g.make_defs()
    b = g._def_cls(g.new_name())
    d = g._def_cls(g.new_name(), base=b)
    keys = draw(st.lists(st.sampled_from(['a', 'b', 'key', '', 'some_thing', 'types', 'cls', '1', 'self']), min_size=1,
                         max_size=4, unique=True))
    items = [[k, g.pick(['base', 'base', 'derived', 'list', 'opt', 'inner', None]), g.value(['ref', d])] for k in keys]
    return {'defs': g.defs, 'base': b, 'derived': d, 'items': items, 'more': draw(st.lists(st.sampled_from(['zz', 'a', 'b']), max_size=1)),
            'direct': g.chance(3)}


def check_members(case, ctx):
    """Properties and class variables of base and derived class."""
    g = Graph(case['classes'])
    b, d = case['base'], case['derived']
    node = case['node']
    v = g.value(node)
    own = g.attrs(b)
    base_attrs = {n: x for n, x in zip(g.attrs(d), node[2]) if n in own}
    members = g.members(b)
    actual = g.members(d)
    want = {n: g.model(x) for n, x in base_attrs.items()}
    want.update({n: g.model(actual[n][1]) for n in members})
    if case['classes'][b]['style'] == 'attrs':
        want = {n.lstrip('_'): x for n, x in want.items()}
    ctx.label('style:' + case['classes'][b]['style'])
    ctx.interesting(len(want) < len(g.model(node)))
    B = g.classes[b]
    jsame(want, jsons.dump(v, B, strict=True), 'strict dump as the base class', case['classes'])
    jsame([want], jsons.dump([v], typing.List[B], strict=True), 'strict dump as List of the base class',
          case['classes'])
    jsame(want, jsons.dump(v, typing.Optional[B], strict=True), 'strict dump as Optional', case['classes'])
    full = g.model(node)
    jsame(full, jsons.dump(v, B), 'dump as the base class', case['classes'])
    jsame(full, jsons.dump(v), 'dump', case['classes'])


@st.composite
def s_members(draw):
    g = Gen(draw, styles=('ann', 'data', 'slots', 'attrs'), max_classes=1)
    g.classes.clear()
    b = g.make_class()
    d = g.make_class(base=b)
    if g.chance(3):
        d = g.make_class(base=d)
    # Values that do not depend on strictness: no objects inside.
    n = len(Graph.attrs(_specs(g.classes), d))
    vals = [g.node(2, upto=0) if g.chance(2) else g.atom() for _ in range(n)] if False else \
        [['list', [g.atom()]] if g.chance(3) else g.atom() for _ in range(n)]
    return {'classes': g.classes, 'base': b, 'derived': d, 'node': ['obj', d, vals]}


class _specs:
    def __init__(self, specs):
        self.specs = specs

    chain = Graph.chain


class Bad:
    pass


def check_failing(case, ctx):
    """A failing attribute raises in strict mode only."""
    w = World(case['defs'])
    i = len(w.defs) - 1
    t = ['ref', i]
    fork = jsons.fork()

    def ser(o, **kwargs):
        raise ValueError('it is bad')

    jsons.set_serializer(ser, Bad, fork_inst=fork)
    v = w.value(t, case['value'])
    names = [n for n, _, _ in w.fields(i)]
    bad = [names[k % len(names)] for k in case['bad']] if names else []
    for n in bad:
        object.__setattr__(v, n, Bad())
    model = w.model(t, case['value'])
    strip = w.defs[i]['style'] == 'attrs'
    for n in bad:
        model.pop(n.lstrip('_') if strip else n, None)
    ctx.interesting(bool(bad))
    ctx.label('style:' + w.defs[i]['style'])
    where = case['where']
    o, m = {'top': (v, model), 'list': ([v], [model]), 'dict': ({'k': v}, {'k': model})}[where]
    res = attempt(jsons.dump, o, strict=True, fork_inst=fork)
    if bad:
        require(isinstance(res, Raised), 'a failing attribute is skipped in strict mode: %s', short(res))
        require(isinstance(res.err, jsons.SerializationError), 'raised %s', res)
    else:
        jsame(model if where == 'top' else m, res, 'strict dump')


@st.composite
def s_failing(draw):
    g = G(draw, max_defs=1, max_depth=1, styles=['init', 'slots', 'ser', 'init', 'late'], recursive=False, inherit=False,
          defaults=False)
    g.make_defs(kinds=['enum'])
    i = g._def_cls(g.new_name(), style=g.pick(['init', 'slots', 'both', 'data', 'attrs', 'late']))
    fields = g.defs[i]['f']
    bad = draw(st.lists(st.integers(0, len(fields) - 1), max_size=2))
    for k in bad:
        fields[k][1] = 'any'   # other hints would direct the serialization of the failing values
    return {'defs': g.defs, 'value': g.value(['ref', i]), 'bad': bad, 'where': g.pick(['top', 'list', 'dict'])}


PROP = Prop(
    'C10',
    'conforming: typed values of generated types; base: a generated class, a subclass of it with more attributes, dumped '
    'as the base class at 12 positions (argument, attribute hint, element of lists, tuples, Optionals, nested); types: several such values in a dict with the types argument; members: '
    'same with properties and class variables; failing: random attributes that cannot be dumped. Non-trivial: the '
    'subclass adds attributes / an attribute fails / the value involves a class or container.',
    [
        Facet('conforming', lambda: typed(styles=STRICT_STYLES, cvars=True), check_conforming, 4000, 80000, 3),
        Facet('base', s_base, check_base, 4000, 80000, 3),
        Facet('types', s_types, check_types, 1500, 30000, 1),
        Facet('members', s_members, check_members, 3000, 60000, 2),
        Facet('failing', s_failing, check_failing, 1500, 20000, 1),
    ],
    ['A class declares the attributes of its annotations or slots, else the hinted parameters of its constructor; '
     'slots carry no types.'])
