"""C01: typed round trip."""
import collections

import jsons

from jv import world
from jv.core import Facet, Prop
from jv.gen import S_BOOL, S_INT, G, ATOMS_ALL, typed, STYLES
from jv.core import short
from jv.world import World, pure_json, same
from hypothesis import strategies as st


def depth_of(t):
    if isinstance(t, str):
        return 0
    subs = t[1] if t[0] in ('tuple', 'btuple', 'union') else [x for x in t[1:] if not isinstance(x, int)]
    return 1 + max([depth_of(s) for s in subs] or [0])


def note(case, ctx):
    t = case['type']
    for d in case['defs']:
        ctx.label('def:' + d['k'] + (':' + d['style'] if d['k'] == 'cls' else ''))
    ctx.label('type:' + (t if isinstance(t, str) else t[0]))
    v = case['value']
    ctx.interesting(v not in ([], None, 0, '', False) and (bool(case['defs']) or depth_of(t) > 0))


def roundtrip(case, ctx, dump, load):
    w = World(case['defs'])
    note(case, ctx)
    T = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    expected = w.back(case['type'], case['value'])
    dumped = dump(v, T)
    back = load(dumped, T)
    same(expected, back, 'load(dump(v)) is not v', 'type: %s' % w.src(case['type']),
         'dumped: %s' % short(dumped, 600))


def check_object(case, ctx):
    roundtrip(case, ctx, lambda v, T: jsons.dump(v), jsons.load)


def check_object_cls(case, ctx):
    roundtrip(case, ctx, lambda v, T: jsons.dump(v, T), jsons.load)


def check_text(case, ctx):
    jd = case['jd']
    roundtrip(case, ctx, lambda v, T: jsons.dumps(v, jdkwargs=jd), jsons.loads)


def check_bytes(case, ctx):
    jd, enc = case['jd'], case['enc']
    roundtrip(case, ctx, lambda v, T: jsons.dumpb(v, encoding=enc, jdkwargs=jd),
              lambda b, T: jsons.loadb(b, T, encoding=enc))


def check_strict(case, ctx):
    roundtrip(case, ctx, lambda v, T: jsons.dump(v), lambda j, T: jsons.load(j, T, strict=True))


S_JD = st.sampled_from([{}, {'indent': 2}, {'ensure_ascii': False}, {'sort_keys': False},
                        {'separators': [',', ':']}])


@st.composite
def s_text(draw, encodings=None):
    case = draw(typed(text=True, cvars=True))
    case['jd'] = draw(S_JD)
    if encodings:
        case['enc'] = draw(st.sampled_from(encodings))
    return case


@st.composite
def s_wide(draw):
    """Long lists and dicts, long strings, deep nesting."""
    g = G(draw, max_defs=1, max_depth=1, text=False)
    g.make_defs()
    t = g.type(1)
    kind = g.pick(['list', 'dict', 'deep', 'vtuple', 'deque', 'deepdict'])
    if kind in ('list', 'vtuple', 'deque'):
        base = [g.value(t) for _ in range(g.i(1, 6))]
        n = g.pick([17, 64, 130, 400])
        return {'defs': g.defs, 'type': [kind, t], 'value': [base[i % len(base)] for i in range(n)]}
    if kind == 'dict':
        base = [g.value(t) for _ in range(g.i(1, 4))]
        n = g.pick([17, 64, 150])
        kt = g.pick(['str', 'int'])
        return {'defs': g.defs, 'type': ['dict', kt, t],
                'value': [[('k%d' % i) if kt == 'str' else i * 7 - 3, base[i % len(base)]]
                          for i in range(n)]}
    n = g.pick([5, 9, 14])
    v = g.value(t)
    for _ in range(n):
        if kind == 'deep':
            t, v = ['list', t], [v]
        else:
            t, v = ['dict', 'str', t], [['k', v]]
    return {'defs': g.defs, 'type': t, 'value': v}


@st.composite
def s_floats(draw):
    t = draw(st.sampled_from(['float', ['list', 'float'], ['dict', 'str', 'float'], ['opt', 'float'],
                              'complex']))
    g = G(draw, overrides={'float': st.floats(),
                           'complex': st.tuples(st.floats(), st.floats()).map(list)})
    return {'defs': [], 'type': t, 'value': g.value(t), 'jd': {}}


BUILTINS = ['list', 'tuple', 'set', 'frozenset', 'collections.deque', 'dict', 'collections.OrderedDict',
            'collections.defaultdict', 'str', 'int', 'float', 'pathlib.PurePosixPath']
HOLDERS = ['%s', 'typing.Optional[%s]', 'typing.List[%s]', 'typing.Dict[str, %s]', 'typing.Tuple[int, %s]',
           'typing.Tuple[%s, ...]', 'typing.Deque[%s]', 'Holder', 'Wrapped', 'typing.Dict[%s, int]']


def check_derived(case, ctx):
    """Classes that derive from builtin types."""
    world.reset()
    ns = world._module.__dict__
    source = 'class Derived(%s):\n    def first(self):\n        return 1\n' % case['base']
    if case['deep']:
        source += 'class Deeper(Derived):\n    pass\n'
    name = 'Deeper' if case['deep'] else 'Derived'
    source += '@dataclasses.dataclass\nclass Holder:\n    a: %s\n    b: int = 5\n' % name
    source += 'class Wrapped:\n    def __init__(self, x: typing.List[%s]):\n        self.x = x\n' % name
    exec(source, ns)
    cls = ns[name]
    values = case['values']
    if case['base'] in ('str', 'int', 'float'):
        makers = [cls(v) for v in values]
    elif case['base'].startswith('path'):
        makers = [cls(str(v).replace('\x00', '')) for v in values]
    elif 'dict' in case['base'].lower():
        pairs = [(str(v), v) for v in values if not str(v).startswith('-')]
        makers = [cls(None, pairs) if 'default' in case['base'] else cls(pairs)]
    else:
        makers = [cls(values)]
    T = eval(case['holder'].replace('%s', name), ns)
    for o in makers:
        v = {'%s': lambda: o, 'typing.Optional[%s]': lambda: o, 'typing.List[%s]': lambda: [o, o],
             'typing.Dict[str, %s]': lambda: {'k': o}, 'typing.Tuple[int, %s]': lambda: (3, o),
             'typing.Tuple[%s, ...]': lambda: (o,), 'typing.Dict[%s, int]': lambda: {o: 3}, 'typing.Deque[%s]': lambda: collections.deque([o]),
             'Holder': lambda: ns['Holder'](o, 7), 'Wrapped': lambda: ns['Wrapped']([o])}[case['holder']]()
        ctx.interesting()
        dumped = jsons.dumps(v) if case['text'] else jsons.dump(v)
        pure_json(dumped)
        back = (jsons.loads if case['text'] else jsons.load)(dumped, T)
        same(v, back, 'load(dump(v)) is not v', case['base'], case['holder'], 'dumped: %s' % short(dumped))


@st.composite
def s_derived(draw):
    base = draw(st.sampled_from(BUILTINS))
    elem = {'int': S_INT, 'float': st.floats(allow_nan=False, allow_infinity=False),
            'set': S_INT, 'frozenset': S_INT}.get(base, st.text(max_size=5))
    elem = draw(st.sampled_from([elem] if base in ('int', 'float', 'str') else [elem, S_INT, S_BOOL]))
    if base == 'str':
        elem = elem.filter(lambda s: not s[:1].isdigit())
    # (In JSON text a key is always a string, NewTypes aside; other classes are no keys.)
    holders = HOLDERS if base in ('str', 'int') else HOLDERS[:-1]
    return {'base': base, 'deep': draw(S_BOOL), 'holder': draw(st.sampled_from(holders)),
            'values': draw(st.lists(elem, min_size=1, max_size=3)), 'text': draw(S_BOOL)}


PROP = Prop(
    'C01',
    'Cases are type-directed: 0-4 generated class/enum/NamedTuple/NewType definitions (dataclass, '
    'frozen, slots, kw-only, plain init, annotated, attrs, JsonSerializable, inheritance, '
    'recursion, defaults, odd names), a type over them, a value of it. Non-trivial: the value is '
    'not empty/null and involves a generated definition or a container.',
    [
        Facet('object', lambda: typed(cvars=True), check_object, 6000, 120000, 6),
        Facet('object_cls', lambda: typed(cvars=True), check_object_cls, 2500, 50000, 2),
        Facet('text', lambda: s_text(), check_text, 3000, 60000, 3),
        Facet('bytes', lambda: s_text(['utf-8', 'utf-16', 'utf-32', 'utf-8-sig']), check_bytes,
              1500, 30000, 2),
        Facet('strict', lambda: typed(styles=[s for s in STYLES if s != 'late']), check_strict,
              2000, 40000, 2),
        Facet('boolints', lambda: typed(hashed=False, overrides={'int': st.one_of(S_BOOL, S_BOOL, S_INT)},
                                        atoms=['int', 'int', 'str', 'float', 'any', 'date']),
              check_object, 1000, 20000, 1),
        Facet('derived', s_derived, check_derived, 600, 10000, 1),
        Facet('wide', s_wide, check_object, 200, 4000, 1),
        Facet('floats', s_floats, check_text, 300, 4000, 1, 1),
    ],
    ['Values of the documented types; unions whose alternatives are distinguishable by JSON shape '
     '(C13 covers the others).',
     'Dict keys that are bool/None, names starting with two underscores and the reserved keys '
     '-meta, -keys, -cls are outside the domain.'])
