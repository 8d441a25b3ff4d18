"""C02: dumps consist of JSON types only, in the documented shape."""
import collections
import json

from hypothesis import strategies as st

import jsons
from jv.core import Facet, Prop, Violation, short
from jv.gen import S_BOOL, S_INT, G, typed
from jv.props.c01 import note
from jv.world import Bag, World, jsame, plain, pure_json, strict_eq


def encodable(d):
    """A standard encoder takes it, and a standard decoder gives it back."""
    try:
        text = json.dumps(d, allow_nan=False)
    except Exception as err:
        raise Violation('a JSON encoder refuses the dump: %s\n  %s' % (err, short(d))) from None
    if not strict_eq(json.loads(text), plain(d)):
        raise Violation('encoding and decoding changes the dump: %s' % short(d))


def check_typed(case, ctx):
    w = World(case['defs'])
    note(case, ctx)
    T = w.type(case['type'])
    model = w.model(case['type'], case['value'])
    v = w.value(case['type'], case['value'])
    d = jsons.dump(v)
    pure_json(d)
    jsame(model, d, 'dump(v)', w.src(case['type']), d)
    encodable(d)
    d2 = jsons.dump(v, T)
    pure_json(d2)
    jsame(model, d2, 'dump(v, cls)', w.src(case['type']), d2)


SHAPES = ['list', 'tuple', 'deque', 'dict', 'odict', 'nested', 'dictlist', 'obj', 'slots', 'keys', 'values', 'sub']


class Box:
    def __init__(self, items):
        for i, x in enumerate(items):
            setattr(self, 'item%d' % i, x)


class Slots:
    __slots__ = ('item0', 'item1', 'item2', 'item3')

    def __init__(self, items):
        for i, x in enumerate(items):
            setattr(self, 'item%d' % i, x)


class Methods(Box):
    """Methods and inner classes are not data."""
    class Inner:
        pass

    def __init__(self, items):
        super().__init__(items)

    def method(self):
        return 1

    @classmethod
    def class_method(cls):
        return 2

    @staticmethod
    def static_method():
        return 3


def shaped(shape, items, model):
    if shape in ('list', 'nested', 'sub'):
        return (items, model) if shape == 'list' else ([items, [items]], [model, [model]]) \
            if shape == 'nested' else (Methods(items), {'item%d' % i: m for i, m in enumerate(model)})
    if shape == 'tuple':
        return tuple(items), model
    if shape == 'deque':
        return collections.deque(items), model
    if shape in ('dict', 'odict', 'dictlist'):
        pairs = [('k%d' % i, x) for i, x in enumerate(items)]
        mpairs = {'k%d' % i: x for i, x in enumerate(model)}
        if shape == 'dict':
            return dict(pairs), mpairs
        if shape == 'odict':
            return collections.OrderedDict(pairs), mpairs
        return [dict(pairs), dict(pairs)], [mpairs, mpairs]
    if shape == 'obj':
        return Box(items), {'item%d' % i: x for i, x in enumerate(model)}
    if shape == 'slots':
        items, model = items[:4], model[:4]
        while len(items) < 4:
            items, model = items + [None], model + [None]
        return Slots(items), {'item%d' % i: x for i, x in enumerate(model)}
    pairs = {'k%d' % i: x for i, x in enumerate(items)}
    if shape == 'keys':
        return pairs.keys(), ['k%d' % i for i in range(len(items))]
    return collections.UserDict(pairs), {'k%d' % i: x for i, x in enumerate(model)}


def check_mixed(case, ctx):
    """Heterogeneous, untyped containers."""
    w = World(case['defs'])
    items = [w.value(t, v) for t, v in case['items']]
    model = [w.model(t, v) for t, v in case['items']]
    o, m = shaped(case['shape'], items, model)
    ctx.label('shape:' + case['shape'])
    ctx.interesting(len({json.dumps(t) for t, _ in case['items']}) > 1)
    d = jsons.dump(o)
    pure_json(d)
    jsame(m, d, 'dump of a mixed %s' % case['shape'], d)
    encodable(d)


@st.composite
def s_mixed(draw):
    g = G(draw, max_depth=2, cvars=True)
    g.make_defs()
    items = []
    for _ in range(g.i(0, 6)):
        t = g.type()
        items.append([t, g.value(t)])
    return {'defs': g.defs, 'items': items, 'shape': g.pick(SHAPES)}


PROP = Prop(
    'C02',
    'Cases: generated definitions + type + value (as in C01), dumped without and with the type, compared with a '
    'reference dump; and heterogeneous containers/objects of 0-6 values of different generated types. Non-trivial: '
    'involves a generated class or container (typed), at least two different element types (mixed).',
    [
        Facet('typed', lambda: typed(cvars=True), check_typed, 7000, 150000, 6),
        # (bools are ints)
        Facet('boolints', lambda: typed(hashed=False, overrides={'int': st.one_of(S_BOOL, S_BOOL, S_INT)},
                                        atoms=['int', 'int', 'str', 'float', 'any', 'date']),
              check_typed, 1500, 30000, 1),
        Facet('mixed', s_mixed, check_mixed, 4000, 80000, 3),
    ],
    ['Finite floats; instances of subclasses of str/int/float other than enums are outside the domain.'])
