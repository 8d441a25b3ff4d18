"""C22: Dicts with keys that are no JSON keys survive."""
import collections
import dataclasses
import datetime as dt
import decimal
import enum
import json
import pathlib
import typing
import uuid
import zoneinfo

from hypothesis import assume, strategies as st

import jsons
from jv.common import Raised, attempt
from jv.core import Facet, Prop, Violation, require, short
from jv.world import strict_eq


@dataclasses.dataclass(frozen=True)
class Point:
    x: int
    h: int

    def __hash__(self):
        return self.h


class Quirk:
    """No JSON keys; any two with the same hash may be equal or not."""

    def __init__(self, y: str, h: int):
        self.y = y
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return type(other) is Quirk and (self.y, self.h) == (other.y, other.h)

    def __repr__(self):
        return 'Quirk(%r, %r)' % (self.y, self.h)


class Named(typing.NamedTuple):
    z: int
    h: int

    def __hash__(self):
        return self.h


@dataclasses.dataclass(frozen=True)
class Deep:
    p: Point
    t: typing.Tuple[int, ...] = ()


class Num:
    """A registered serializer makes it a number: a JSON key."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, other):
        return type(other) is Num and self.n == other.n

    def __repr__(self):
        return 'Num(%r)' % self.n


class Listed(Num):
    """A registered serializer makes it a list: no JSON key."""

    def __eq__(self, other):
        return type(other) is Listed and self.n == other.n

    __hash__ = Num.__hash__

    def __repr__(self):
        return 'Listed(%r)' % self.n


class Suit(enum.Enum):
    HEARTS = 1
    SPADES = 'HEARTS'
    N3 = 3


FORK = jsons.fork()
jsons.set_serializer(lambda o, **_: o.n, Num, fork_inst=FORK)
jsons.set_deserializer(lambda o, cls=None, **_: Num(int(o)), Num, fork_inst=FORK)
jsons.set_serializer(lambda o, **_: ['L', o.n], Listed, fork_inst=FORK)


def load_listed(o, cls=None, **_):
    if type(o) is not list:
        raise ValueError('no list')
    return Listed(o[1])


jsons.set_deserializer(load_listed, Listed, fork_inst=FORK)

HASHES = [0, 1, 2, 3, 5, -1, -2, 7, 2 ** 61 - 2, -(2 ** 40)]
# kind: (type, spec -> key, key -> its dump)
KINDS = {
    'point': (Point, lambda a, h: Point(a, h), lambda k: {'x': k.x, 'h': k.h}),
    'quirk': (Quirk, lambda a, h: Quirk('y%d' % a, h), lambda k: {'y': k.y, 'h': k.h}),
    'named': (Named, lambda a, h: Named(a, h), lambda k: {'z': k.z, 'h': k.h}),
    'deep': (Deep, lambda a, h: Deep(Point(a, h), (h,) * (a % 3)),
             lambda k: {'p': {'x': k.p.x, 'h': k.p.h}, 't': list(k.t)}),
    'tuple': (typing.Tuple[int, str], lambda a, h: (a, str(h)), list),
    'frozenset': (typing.FrozenSet[int], lambda a, h: frozenset([a]), list),
    'complex': (complex, lambda a, h: complex(a, h % 2), lambda k: {'real': k.real, 'imag': k.imag}),
    'tz': (dt.timezone, lambda a, h: dt.timezone(dt.timedelta(hours=a)), None),
    'listed': (Listed, lambda a, h: Listed(h), lambda k: ['L', k.n]),
    # Those that are JSON keys once they are dumped:
    'date': (dt.date, lambda a, h: dt.date(2000, 1, 1 + a), str),
    'uuid': (uuid.UUID, lambda a, h: uuid.UUID(int=a), str),
    'decimal': (decimal.Decimal, lambda a, h: decimal.Decimal(a) / 4, str),
    'path': (pathlib.PurePosixPath, lambda a, h: pathlib.PurePosixPath('/a/%d' % a), lambda k: k.as_posix()),
    'enum': (Suit, lambda a, h: list(Suit)[a % 3], lambda k: k.name),
    'num': (Num, lambda a, h: Num(h), lambda k: k.n),
    'timedelta': (dt.timedelta, lambda a, h: dt.timedelta(seconds=a), lambda k: k.total_seconds()),
    # JSON keys:
    'int': (int, lambda a, h: h, lambda k: k),
    'str': (str, lambda a, h: 's%d' % a, lambda k: k),
    'digits': (str, lambda a, h: str(h), lambda k: k),
    'float': (float, lambda a, h: float(a), lambda k: k),
}
HASHED = ['point', 'quirk', 'named', 'deep', 'tuple', 'frozenset', 'complex', 'tz', 'listed']
# Together with hashed keys, at the end of a Union.
PLAIN = ['date', 'uuid', 'decimal', 'path', 'enum', 'num', 'timedelta', 'int', 'float', 'str', 'digits']
TEXT = {'date', 'uuid', 'decimal', 'path', 'enum', 'str', 'digits', 'int', 'num'} | set(HASHED)
MAPS = {'dict': (typing.Dict, dict), 'ordered': (typing.OrderedDict, collections.OrderedDict),
        'default': (typing.DefaultDict, lambda x: collections.defaultdict(int, x)), 'mapping': (typing.Mapping, dict),
        'mutable': (typing.MutableMapping, dict), 'blt': (None, dict)}


@dataclasses.dataclass
class Missing:
    pass


def key_type(kinds):
    Ts = [KINDS[k][0] for k in kinds]
    return Ts[0] if len(Ts) == 1 else typing.Union[tuple(Ts)]


class Node:
    """A dict of the case: value, type and what its dump must be."""

    def __init__(self, spec, strip=False):
        self.items = []
        K = key_type(spec['kinds'])
        self.text = all(k in TEXT for k in spec['kinds']) and not (
            {'tuple', 'frozenset', 'named'} & set(spec['kinds']) and set(PLAIN) & set(spec['kinds']))
        sub = None
        for kind, a, h, v in spec['items']:
            key = KINDS[kind][1](a, h)
            if any(key == other[1] for other in self.items):
                continue
            if isinstance(v, dict):
                v = sub = Node(v, strip)
            self.items.append((kind, key, v))
        V = sub.type if sub else typing.Optional[int]
        if sub:
            self.items = [(k, key, v if isinstance(v, Node) else None) for k, key, v in self.items]
            subs = [v for _, _, v in self.items if v is not None]
            # One type of values.
            assume(all(s.K == sub.K and s.V == sub.V and s.map == sub.map for s in subs))
            V = typing.Optional[V]
        self.K, self.V, self.map = K, V, spec['map']
        generic, make = MAPS[spec['map']]
        self.type = dict[K, V] if generic is None else generic[K, V]
        self.value = make({key: v.value if isinstance(v, Node) else v for _, key, v in self.items})
        assume(len(self.value) == len(self.items))
        self.strip = strip
        self.text = self.text and all(v.text for _, _, v in self.items if isinstance(v, Node))
        self.hashed = any(k in HASHED for k, _, _ in self.items)
        self.deep_hashed = self.hashed or any(v.deep_hashed for _, _, v in self.items if isinstance(v, Node))
        plain = [str(KINDS[k][2](key)) for k, key, _ in self.items if k not in HASHED]
        assume(len(set(plain)) == len(plain))     # (No two keys with the same dump.)
        nums = [x for x in (KINDS[k][2](key) for k, key, _ in self.items if k not in HASHED)]
        assume(len(set(nums)) == len(nums))

    def live(self):
        return [i for i in self.items if not (self.strip and i[2] is None)]

    def diff(self, d, path='$'):
        """How d is not the dump of this dict."""
        if type(d) is not dict:
            return '%s is %s' % (path, short(d))
        left = dict(d)
        hashed = [i for i in self.live() if i[0] in HASHED]
        if any(type(k) not in (str, int, float) for k in d):
            return '%s has a key that is no JSON key: %s' % (path, short(d))
        if len(json.loads(json.dumps(d))) != len(d):
            return '%s loses an entry as text: %s' % (path, short(d))
        keys = left.pop('-keys', None)
        if (keys is None) != (not hashed):
            return '%s: -keys is %s' % (path, short(keys))
        for kind, key, v in self.live():
            if kind in HASHED:
                continue
            pk = KINDS[kind][2](key)
            if pk not in left or [type(k) for k in left if k == pk] != [type(pk)]:
                return '%s: no entry for %r: %s' % (path, key, short(d))
            err = self.vdiff(v, left.pop(pk), '%s[%r]' % (path, key))
            if err:
                return err
        if hashed:
            if type(keys) is not dict or set(keys) != set(left) or any(type(k) is not int for k in keys):
                return '%s: -keys do not belong to the entries: %s' % (path, short(d))
            todo = list(keys)
            for kind, key, v in hashed:
                for n in todo:
                    if self.kdiff(kind, key, keys[n]) is None and self.vdiff(v, left[n], '') is None:
                        todo.remove(n)
                        break
                else:
                    return '%s: no hashed entry %r: %r: %s' % (path, key, v, short(d))
            if todo:
                return '%s: too many hashed entries: %s' % (path, short(d))
        elif left:
            return '%s: too many entries: %s' % (path, short(d))
        return None

    def kdiff(self, kind, key, d):
        dump = KINDS[kind][2]
        if dump is None:
            return None if isinstance(d, dict) else 'no dict'
        return None if json.dumps(dump(key), sort_keys=True) == json.dumps(d, sort_keys=True) else 'not the dump of the key'

    def vdiff(self, v, d, path):
        if isinstance(v, Node):
            return v.diff(d, path)
        return None if v == d and type(v) is type(d) else '%s: expected %r, got %s' % (path, v, short(d))

    def same(self, o, path='$'):
        """How o is not the value of this dict."""
        kind = type(self.value)
        if type(o) is not kind:
            return '%s is a %s' % (path, type(o))
        if len(o) != len(self.live()):
            return '%s has %d entries instead of %d: %s' % (path, len(o), len(self.live()), short(o))
        for _, key, v in self.live():
            if key not in o:
                return '%s: no key %r in %s' % (path, key, short(o))
            got = [k for k in o if k == key and hash(k) == hash(key)]
            if [type(k) for k in got] != [type(key)]:
                return '%s: key %r became %r' % (path, key, got)
            if isinstance(v, Node):
                err = v.same(o[key], '%s[%r]' % (path, key))
                if err:
                    return err
            elif o[key] != v or type(o[key]) is not type(v):
                return '%s[%r] is %s instead of %r' % (path, key, short(o[key]), v)
        return None


def holder(T, style):
    ns = {'T': T, 'dataclasses': dataclasses, 'typing': typing, '__name__': 'jv_dyn'}
    exec({'data': '@dataclasses.dataclass\nclass Holder:\n    v: T\n    w: int = 1\n',
          'init': 'class Holder:\n    def __init__(self, v: T, w: int = 1):\n        self.v = v\n        self.w = w\n',
          'nt': 'class Holder(typing.NamedTuple):\n    v: T\n    w: int = 1\n',
          'late': 'class Holder:\n    v: T\n    w: int\n'}[style], ns)
    return ns['Holder']


def place(pos, T, v):
    """(type, value, get from dump, get from value)"""
    item = lambda x: x['v']
    attr = lambda o: o.v
    if pos == 'top':
        return T, v, lambda d: d, lambda o: o
    if pos == 'list':
        return typing.List[T], [v], lambda d: d[0], lambda o: o[0]
    if pos == 'tuple':
        return typing.Tuple[T, int], (v, 1), lambda d: d[0], lambda o: o[0]
    if pos == 'dict':
        return typing.Dict[str, T], {'v': v}, item, lambda o: o['v']
    if pos == 'optional':
        return typing.Optional[T], v, lambda d: d, lambda o: o
    H = holder(T, pos)
    if pos == 'late':
        o = H()
        o.v, o.w = v, 1
        return H, o, item, attr
    return H, H(v), item, attr


def check_dict(case, ctx):
    node = Node(case['dict'], case['strip'])
    T, v, get_d, get_o = place(case['pos'], node.type, node.value)
    opts = {'strip_nulls': True} if case['strip'] else {}
    ctx.label('hashed' if node.deep_hashed else 'no hashed keys')
    hashes = [hash(k) for kind, k, _ in node.items if kind in HASHED]
    if len(set(hashes)) < len(hashes):
        ctx.label('colliding hashes')
    if node.hashed and any(k not in HASHED for k, _, _ in node.items):
        ctx.label('mixed')
    ctx.interesting(node.hashed and len(node.items) > 1)
    info = '%r (%s) at %s' % (node.value, node.type, case['pos'])
    for kw in ({}, {'cls': T}, {'strict': True, 'cls': T}):
        d = jsons.dump(v, fork_inst=FORK, **opts, **kw)
        err = node.diff(get_d(d))
        require(err is None, 'dump of %s with %s: %s', info, kw, err)
        back = jsons.load(d, T, fork_inst=FORK)
        err = node.same(get_o(back))
        require(err is None, 'load(dump(%s)), dumped as %s: %s', info, short(d, 600), err)
        require(jsons.dump(back, fork_inst=FORK, **opts) is not None, 'no second dump of %s', info)
    d = jsons.dump(v, fork_inst=FORK, **opts)
    require(strict_eq(d, jsons.dump(v, fork_inst=FORK, **opts)), 'two dumps of %s differ', info)
    if node.text:
        txt = jsons.dumps(v, fork_inst=FORK, **opts)
        back = jsons.loads(txt, T, fork_inst=FORK)
        err = node.same(get_o(back))
        require(err is None, 'loads(dumps(%s)), dumped as %s: %s', info, short(txt, 600), err)
        back = jsons.loadb(jsons.dumpb(v, fork_inst=FORK, **opts), T, fork_inst=FORK, strict=case['pos'] != 'late')
        err = node.same(get_o(back))
        require(err is None, 'strict loadb(dumpb(%s)), dumped as %s: %s', info, short(txt, 600), err)


def check_refuse(case, ctx):
    node = Node(case['dict'])
    assume(node.hashed)
    ctx.interesting(True)
    d = jsons.dump(node.value, fork_inst=FORK)
    for how in case['nest']:
        d = [d] if how == 'list' else {'a': d} if how == 'dict' else [1, d]
    txt = json.dumps(d)
    calls = [lambda: jsons.load(d, fork_inst=FORK), lambda: jsons.loads(txt, fork_inst=FORK),
             lambda: jsons.loadb(txt.encode(), fork_inst=FORK), lambda: jsons.load(d, fork_inst=FORK, strict=True)]
    if not case['nest']:
        for T in (typing.Dict, typing.Mapping, collections.OrderedDict, typing.DefaultDict, typing.OrderedDict):
            calls.append(lambda T=T: jsons.load(d, T, fork_inst=FORK))
        calls.append(lambda: jsons.load(d, dict, fork_inst=FORK, strict=True))
    for i, call in enumerate(calls):
        got = attempt(call)
        require(isinstance(got, Raised) and isinstance(got.err, jsons.DeserializationError),
                'loading %s without a key type (%d) gives %s', short(d, 600), i, short(got))


@st.composite
def s_node(draw, depth=1):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    kinds = draw(st.lists(st.sampled_from(HASHED), min_size=1, max_size=2, unique=True))
    if i(0, 9) == 0:
        kinds = []
    if 'listed' in kinds:
        kinds = ['listed'] + [k for k in kinds if k not in ('listed', 'tuple', 'frozenset', 'named')]
    seq = [k for k in kinds if k in ('tuple', 'frozenset', 'named')][:1]
    kinds = [k for k in kinds if k not in ('tuple', 'frozenset', 'named')] + seq
    if i(0, 2) or not kinds:
        # (A string is a sequence of characters.)
        kinds = kinds + [pick(['num', 'timedelta', 'int', 'float'] if seq else PLAIN)]
    sub = draw(s_node(depth - 1)) if depth > 0 and i(0, 2) == 0 else None
    hs = draw(st.lists(st.sampled_from(HASHES), min_size=1, max_size=3))
    items = []
    for _ in range(i(0, 6)):
        v = sub if sub and i(0, 2) else pick([None, 1, 2, 3])
        items.append([pick(kinds), i(0, 4), pick(hs), v])
    return {'kinds': kinds, 'map': pick(['dict'] * 4 + ['ordered', 'default', 'mapping', 'mutable', 'blt']), 'items': items}


@st.composite
def s_dict(draw):
    return {'dict': draw(s_node(2)), 'strip': draw(st.integers(0, 3)) == 0,
            'pos': draw(st.sampled_from(['top', 'top', 'list', 'tuple', 'dict', 'optional', 'data', 'init', 'nt', 'late']))}


@st.composite
def s_refuse(draw):
    return {'dict': draw(s_node(0)), 'nest': draw(st.lists(st.sampled_from(['list', 'dict', 'second']), max_size=2))}


PROP = Prop(
    'C22',
    'generated dicts (all mapping types, up to three levels, at ten positions) whose keys are classes with generated, '
    'mostly colliding hashes, NamedTuples, tuples, frozensets, complex numbers, timezones, classes whose registered '
    'serializer gives a number or a list, values that dump to strings or numbers, and plain keys that equal the hashes '
    'of others, as numbers and as digits. Non-trivial: several entries of which some have replaced keys.',
    [
        Facet('dict', s_dict, check_dict, 6000, 120000, 6),
        Facet('refuse', s_refuse, check_refuse, 2000, 40000, 2),
    ],
    ['Two keys with the same dump (a date and its text) share an entry, which is inherent to JSON.',
     'float and timedelta keys are not restored from text.',
     'For exactly dict (not strict) and Any, the JSON itself is returned, which is documented.'])
