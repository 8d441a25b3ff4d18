"""C21: Enums load by name or value as requested."""
import collections
import dataclasses
import enum
import itertools
import json
import typing

from hypothesis import assume, strategies as st

import jsons
from jv.common import Raised, attempt
from jv.core import Facet, Prop, Violation, require, short
from jv.world import strict_eq

ERROR = 'DeserializationError'
BASES = {'Enum': (enum.Enum,), 'IntEnum': (enum.IntEnum,), 'StrEnum': (enum.StrEnum,), 'str': (str, enum.Enum),
         'int': (int, enum.Enum), 'float': (float, enum.Enum), 'Flag': (enum.Flag,), 'IntFlag': (enum.IntFlag,)}
_counter = itertools.count()


class Color:
    """A mixin that is no data type."""

    def describe(self):
        return self.name


class Def:
    """An enum class and an independent table of what it contains."""

    def __init__(self, spec):
        self.base = spec['base']
        name = spec['name'] + str(next(_counter)) * spec['unique']
        bases = BASES[spec['base']]
        if spec['mixin']:
            bases = (Color,) + bases if spec['base'] in ('Enum', 'Flag') else bases
        parent = None
        if spec['parent']:
            parent = enum.EnumType('Parent', bases, enum.EnumType.__prepare__('Parent', bases))
            bases = (parent,)
        ns = enum.EnumType.__prepare__(name, bases)
        ns['__module__'] = 'jv_dyn'
        ns['__qualname__'] = 'Outer.' + name if spec['nested'] else name
        if spec['methods']:
            ns['__str__'] = lambda self: 'a member'
            ns['label'] = property(lambda self: 'label')
        for n, v in spec['members']:
            ns[n] = v
        self.cls = enum.EnumType(name, bases, ns)
        self.byname = {}
        self.table = []        # canonical (name, value)
        for n, v in spec['members']:
            for cn, cv in self.table:
                if cv == v:
                    self.byname[n] = cn
                    break
            else:
                self.byname[n] = n
                self.table.append((n, v))

    def member(self, n):
        return getattr(self.cls, n)

    def dump(self, n, mode):
        n = self.byname[n]
        return n if mode in (None, True) else dict(self.table)[n]

    def load(self, j, mode):
        """The possible outcomes: canonical names and/or ERROR."""
        if mode is not False and isinstance(j, str) and j in self.byname:
            return [self.byname[j]]
        if mode:
            return [ERROR]
        for n, v in self.table:
            if type(v) is type(j) and v == j:
                return [n]
        for n, v in self.table:
            if isinstance(j, (bool, int, float)) and v == j:
                return [n, ERROR]   # 1, 1.0 and true
        if 'Flag' in self.base and isinstance(j, (bool, int)):
            return [ERROR, None]     # May be a combination of flags.
        return [ERROR]


# -- positions ---------------------------------------------------------------------------

def holder(style, E):
    ns = {'E': E, 'dataclasses': dataclasses, 'typing': typing, 'jsons': jsons, '__name__': 'jv_dyn'}
    src = {
        'data': '@dataclasses.dataclass\nclass Pos:\n    a: E\n',
        'init': 'class Pos:\n    def __init__(self, a: E):\n        self.a = a\n',
        'late': 'class Pos:\n    a: E\n    def __init__(self):\n        pass\n',
        'opt': '@dataclasses.dataclass\nclass Pos:\n    a: typing.Optional[E] = None\n',
        'nt': 'class Pos(typing.NamedTuple):\n    a: E\n',
        'js': 'class Pos(jsons.JsonSerializable):\n    def __init__(self, a: E):\n        self.a = a\n',
        'ext': '@dataclasses.dataclass\nclass Pos:\n    a: typing.List[E]\n',
    }[style]
    exec(src, ns)
    return ns['Pos']


def place(pos, E):
    """(type, put(x) -> object or JSON, get(o))"""
    k = pos[0] if pos else 'top'
    if k == 'top':
        return E, lambda x, _=False: x, lambda o: o
    T, put, get = place(pos[1:], E)
    if k == 'list':
        return typing.List[T], lambda x, o=False: [put(x, o)], lambda r: get(r[0])
    if k == 'tuple':
        return typing.Tuple[int, T], lambda x, o=False: (1, put(x, o)) if o else [1, put(x, o)], lambda r: get(r[1])
    if k == 'deque':
        return typing.Deque[T], (lambda x, o=False: collections.deque([put(x, o)]) if o else [put(x, o)]), lambda r: get(r[0])
    if k == 'dict':
        return typing.Dict[str, T], lambda x, o=False: {'a': put(x, o)}, lambda r: get(r['a'])
    if k == 'optional':
        return typing.Optional[T], put, get
    if k == 'union':
        return typing.Union[T, None, complex], put, get
    if k == 'newtype':
        return typing.NewType('NT%d' % next(_counter), T), put, get
    cls = holder(k, T)

    def puto(x, o=False):
        v = put(x, o)
        if k == 'ext':
            v = [v]
        if not o:
            return {'a': v}
        if k == 'late':
            r = cls()
            r.a = v
            return r
        return cls(v)
    return cls, puto, (lambda r: get(r.a[0])) if k == 'ext' else (lambda r: get(r.a))


def shown(spec):
    return '%s(%s)' % (spec['base'], ', '.join('%s=%r' % tuple(m) for m in spec['members']))


def opts_for(mode):
    return {} if mode is None else {'use_enum_name': mode}


def check_dump(case, ctx):
    D = Def(case['def'])
    mode = case['mode']
    n = case['member']
    want = D.dump(n, mode)
    ctx.interesting(mode is not None or len(case['pos']) > 0)
    ctx.label('%s by %s' % (D.base, {None: 'default', True: 'name', False: 'value'}[mode]))
    T, put, get = place(case['pos'], D.cls)
    o = put(D.member(n), True)
    js = put(want)
    for typed in (False, True):
        kw = opts_for(mode)
        kw_ = dict(kw, cls=T) if typed else kw
        info = '%s.%s at %s with %s%s' % (shown(case['def']), n, case['pos'], kw, ' typed' if typed else '')
        got = jsons.dump(o, **kw_)
        if isinstance(got, tuple):
            got = list(got)
        require(strict_eq(js, got), 'dump of %s: expected %s, got %s', info, js, short(got))
        txt = json.loads(jsons.dumps(o, **kw_))
        require(strict_eq(json.loads(json.dumps(js)), txt), 'dumps of %s: expected %s, got %s', info, js, short(txt))
        back = get(jsons.load(got, T, **kw))
        expected = D.load(want, mode)
        if mode is not None:
            require(expected == [D.byname[n]], '%s: the model is ambiguous', info)
        require(back in [D.member(x) for x in expected if x not in (ERROR, None)], 'round trip of %s gives %s', info, short(back))
        require(type(back) is D.cls, 'round trip of %s gives %s', info, short(back))


def check_load(case, ctx):
    D = Def(case['def'])
    mode = case['mode']
    T, put, get = place(case['pos'], D.cls)
    for x in case['inputs']:
        expected = D.load(x, mode)
        if x is None and ('optional' in case['pos'] or 'union' in case['pos'] or 'opt' in case['pos']):
            continue
        ctx.interesting(expected != [ERROR] or isinstance(x, str))
        j = put(x)
        kw = opts_for(mode)
        info = 'load of %r into %s at %s with %s' % (x, shown(case['def']), case['pos'], kw)
        ctx.label('%s %s' % ({None: 'default', True: 'by name', False: 'by value'}[mode],
                             'member' if expected[0] != ERROR else 'error'))
        forms = [lambda: jsons.load(j, T, **kw)]
        if not isinstance(x, float) or x == x:
            forms.append(lambda: jsons.loads(json.dumps(j), T, **kw))
        for form in forms:
            got = attempt(lambda: get(form()))
            if isinstance(got, Raised):
                require(isinstance(got.err, jsons.DeserializationError), '%s raised %s', info, got)
                require(ERROR in expected, '%s raised %s, expected %s', info, got, expected[0])
            else:
                require(type(got) is D.cls, '%s gives %s, expected %s', info, short(got), expected[0])
                if None not in expected:
                    require(expected[0] != ERROR and got is D.member(expected[0]), '%s gives %s, expected %s', info,
                            short(got), expected[0])


def check_keys(case, ctx):
    """Enums as keys of dicts, and sets of enums."""
    D = Def(case['def'])
    mode = case['mode']
    kw = opts_for(mode)
    T, put, get = place(case['pos'], typing.Dict[D.cls, int])
    members = list(dict.fromkeys(D.byname[n] for n in case['keys']))
    if mode is False:
        assume(all(type(v) is str for _, v in D.table))
    o = put({D.member(n): i for i, n in enumerate(members)}, True)
    js = put({D.dump(n, mode): i for i, n in enumerate(members)})
    info = 'keys %s of %s at %s with %s' % (members, shown(case['def']), case['pos'], kw)
    ctx.interesting(len(members) > 1)
    for kw_ in (kw, dict(kw, cls=T)):
        got = jsons.dump(o, **kw_)
        require(strict_eq(js, got), 'dump of %s: expected %s, got %s', info, js, short(got))
    if mode is None:
        members = [D.load(D.dump(n, None), None)[0] for n in members]
    back = get(jsons.load(js, T, **kw))
    require(list(back.items()) == [(D.member(n), i) for i, n in enumerate(members)]
            and all(type(k) is D.cls for k in back), 'round trip of %s gives %s', info, short(back))
    S = typing.Set[D.cls]
    vals = {D.member(n) for n in members}
    d = jsons.dump(vals, **kw)
    require(sorted(map(repr, d)) == sorted(repr(D.dump(n, mode)) for n in members), 'dump of the set %s gives %s', info, d)
    back = jsons.load(d, S, **kw)
    require(back == {D.member(D.load(D.dump(n, mode), mode)[0]) for n in members}, 'load of the set %s gives %s', info, back)


def check_two(case, ctx):
    """A union of two enums: the first that has the member."""
    A, B = Def(case['def']), Def(case['other'])
    mode = case['mode']
    T, put, get = place(case['pos'], typing.Union[A.cls, B.cls])
    kw = opts_for(mode)
    for x in case['inputs']:
        assume(x is not None)
        ea, eb = A.load(x, mode), B.load(x, mode)
        if len(ea) > 1 or len(eb) > 1:
            continue
        want = A.member(ea[0]) if ea[0] != ERROR else B.member(eb[0]) if eb[0] != ERROR else None
        info = 'load of %r into Union of %s and %s at %s with %s' % (x, shown(case['def']), shown(case['other']), case['pos'], kw)
        ctx.interesting(ea[0] != eb[0])
        ctx.label('first' if ea[0] != ERROR else 'second' if eb[0] != ERROR else 'none')
        got = attempt(lambda: get(jsons.load(put(x), T, **kw)))
        if want is None:
            require(isinstance(got, Raised) and isinstance(got.err, jsons.DeserializationError), '%s gives %s', info, short(got))
        else:
            require(got is want, '%s gives %s, expected %r', info, short(got), want)


NAMES = ['A', 'B', 'C', 'RED', 'red', 'x', 'one', 'Two_2', 'None_', 'true', 'true_', 'été', 'value_', 'NAME', 'a1', 'B_']
STR_VALUES = NAMES + ['1', '2', '1.5', 'A b', '', 'null', 'true', 'E.A', '2020-01-02T03:04:05Z', 'r', 'None', ' ']
CLS_NAMES = ['E', 'Color', 'Kind', 'Int', 'Str', 'Dict', 'Enumeration', 'Datetime2']
POSITIONS = ['list', 'tuple', 'deque', 'dict', 'optional', 'union', 'newtype', 'data', 'init', 'late', 'opt', 'nt', 'js', 'ext']


def s_def(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    base = pick(['Enum'] * 5 + ['IntEnum', 'IntEnum', 'StrEnum', 'str', 'int', 'float', 'Flag', 'IntFlag'])
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    ints = st.integers(-3, 8)
    vals = {
        'Enum': st.one_of(st.sampled_from(STR_VALUES), st.sampled_from(STR_VALUES), st.sampled_from(names), ints,
                          st.sampled_from([0.5, 1.5, 1.0, True, False])),
        'IntEnum': ints, 'int': ints, 'float': st.sampled_from([0.5, 1.5, -2.0]),
        'StrEnum': st.sampled_from(STR_VALUES + names * 5), 'str': st.sampled_from(STR_VALUES + names * 5),
        'Flag': st.sampled_from([1, 2, 4, 8, 16]), 'IntFlag': st.sampled_from([1, 2, 4, 8, 16]),
    }[base]
    return {'base': base, 'name': pick(CLS_NAMES), 'unique': draw(st.booleans()), 'mixin': i(0, 5) == 0, 'parent': i(0, 5) == 0,
            'nested': i(0, 5) == 0, 'methods': i(0, 4) == 0, 'members': [[n, draw(vals)] for n in names]}


S_MODE = st.sampled_from([None, None, True, False, False])


def s_pos(draw, most=3):
    pos = draw(st.lists(st.sampled_from(POSITIONS), max_size=most))
    return [p for i, p in enumerate(pos) if p != 'newtype' or i == len(pos) - 1]


def s_input(draw, *defs):
    pool = ['A', 'B', 'nope', '', '1', 1, 2, 0, -1, 3, 1.5, True, False, None, [], ['A'], {}, {'name': 'A'}, 'a', 'E.A', 'Color.RED', 0.5]
    for d in defs:
        for n, v in d['members']:
            pool += [n, v, n, v, str(v), n.lower(), n.upper(), ' ' + n]
            pool += [n + ' ', '%s.%s' % (d['name'], n), [v], '__class__', 'name']
    return draw(st.lists(st.sampled_from(pool), min_size=1, max_size=8))


@st.composite
def s_dump(draw):
    d = s_def(draw)
    return {'def': d, 'mode': draw(S_MODE), 'pos': s_pos(draw), 'member': draw(st.sampled_from([n for n, _ in d['members']]))}


@st.composite
def s_load(draw):
    d = s_def(draw)
    return {'def': d, 'mode': draw(S_MODE), 'pos': s_pos(draw), 'inputs': s_input(draw, d)}


@st.composite
def s_keys(draw):
    d = s_def(draw)
    if draw(st.booleans()):
        d['members'] = [[n, str(v)] for n, v in d['members']]
        d['base'] = draw(st.sampled_from(['Enum', 'str', 'StrEnum']))
    return {'def': d, 'mode': draw(S_MODE), 'pos': [p for p in s_pos(draw, 2) if p not in ('newtype',)],
            'keys': draw(st.lists(st.sampled_from([n for n, _ in d['members']]), max_size=5))}


@st.composite
def s_two(draw):
    a, b = s_def(draw), s_def(draw)
    return {'def': a, 'other': b, 'mode': draw(S_MODE), 'pos': [p for p in s_pos(draw, 2) if p not in ('newtype', 'union', 'optional')],
            'inputs': s_input(draw, a, b)}


PROP = Prop(
    'C21',
    'generated enums (Enum, IntEnum, StrEnum, mixed-in str/int/float, Flag, IntFlag, with mixins, memberless parents, '
    'aliases, methods, and values that equal names of other members) with use_enum_name absent, True and False, at up '
    'to three levels of containers and classes, against a table of the definition; dict keys, sets and unions of two '
    'enums. Non-trivial: an option is given or the member is nested (dump); the input is a string or hits a member '
    '(load); several keys; the two enums disagree.',
    [
        Facet('dump', s_dump, check_dump, 3500, 70000, 2),
        Facet('load', s_load, check_load, 4500, 90000, 3),
        Facet('keys', s_keys, check_keys, 2000, 40000, 1),
        Facet('two', s_two, check_two, 2500, 50000, 2),
    ],
    ['Values that are no JSON primitives (tuples, dates, None) and combinations of flags are outside the domain. JSON '
     'numbers that equal a value of another type (1, 1.0, true) may or may not match.'])
