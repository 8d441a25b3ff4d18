"""C14: The right (de)serializer is used, and forks are isolated."""
import dataclasses
import datetime as dt
import decimal
import enum
import itertools
import typing
import uuid
import warnings

from hypothesis import assume, strategies as st

import jsons
from jv.common import Raised, attempt
from jv.core import Facet, Prop, Violation, require, short

DEF = 'default'
D1 = dt.datetime(2020, 2, 3, 4, 5, 6, tzinfo=dt.timezone.utc)
U1 = uuid.UUID(int=7)

# name: (type, a value, its default dump, JSON that needs a deserializer, its default load)
ATOMS = {
    'int': (int, 5, 5, '5', 5),
    'float': (float, 1.5, 1.5, '1.5', 1.5),
    'str': (str, 'x', 'x', None, None),
    'datetime': (dt.datetime, D1, '2020-02-03T04:05:06Z', '2020-02-03T04:05:06Z', D1),
    'date': (dt.date, dt.date(2020, 2, 3), '2020-02-03', '2020-02-03', dt.date(2020, 2, 3)),
    'uuid': (uuid.UUID, U1, str(U1), str(U1), U1),
    'decimal': (decimal.Decimal, decimal.Decimal('1.50'), '1.50', '1.50', decimal.Decimal('1.50')),
    'none': (type(None), None, None, None, None),
}
ABSTRACT = {'enum.Enum': enum.Enum, 'uuid.UUID': uuid.UUID, 'date': dt.date}
_counter = itertools.count()


class Tagged:
    """What the registered deserializers return."""

    def __init__(self, tag, obj):
        self.tag, self.obj = tag, obj

    def __repr__(self):
        return 'Tagged(%d, %r)' % (self.tag, self.obj)


class Type:
    """A type of the case with what the model needs to know of it."""

    def __init__(self, spec, types):
        k = spec[0]
        self.kind = k
        self.inner = None
        self.json = self.loaded = None
        name = 'Kls%dx' % next(_counter)
        if spec[-1] in ('same', 'case'):
            # Another class of that name (or one that differs only by case), as is common with inner classes.
            name = types[spec[-2]].name
            name = name.swapcase() if spec[-1] == 'case' else name
        if k == 'atom':
            self.type, self.value, self.dumped, self.json, self.loaded = ATOMS[spec[1]]
        elif k == 'own':
            bases = tuple(types[i].type for i in spec[1])

            def __init__(self, x: int):
                self.x = x
            self.type = type(name, bases, {'__init__': __init__, '__module__': 'jv_dyn'})
            self.value = self.type(5)
            self.json = {'x': '5'}
        elif k == 'sub':
            _, value, self.dumped, _, _ = ATOMS[spec[1]]
            base = ATOMS[spec[1]][0]
            self.type = type(name, (base,), {'__module__': 'jv_dyn'})
            if spec[1] == 'datetime':
                self.value = self.type(2020, 2, 3, 4, 5, 6, tzinfo=dt.timezone.utc)
            elif spec[1] == 'date':
                self.value = self.type(2020, 2, 3)
            elif spec[1] == 'uuid':
                self.value = self.type(int=7)
            else:
                self.value = self.type(value)
        elif k == 'enum':
            self.type = enum.Enum(name, {'A': 1, 'B': 2}, module='jv_dyn')
            self.value = self.type.A
            self.dumped, self.json, self.loaded = 'A', 'A', self.type.A
        elif k == 'newtype':
            self.inner = types[spec[1]]
            self.type = typing.NewType(name, self.inner.type)
            self.value, self.json = self.inner.value, self.inner.json
        elif k == 'abstract':
            self.type = ABSTRACT[spec[1]]
        self.name = name

    @property
    def usable(self):
        return self.kind != 'abstract'


DEFAULTS = (int, float, str, dt.datetime, dt.date, uuid.UUID, decimal.Decimal, type(None), enum.Enum, bool)


class Table:
    def __init__(self, exact=None, high=None, low=None):
        self.exact = dict(exact or {})
        self.high = list(high or [])
        self.low = list(low or [])     # (last registered with low priority)

    def copy(self):
        return Table(self.exact, self.high, self.low)

    def add(self, T, tag, high):
        self.exact[T] = tag
        for others in (self.high, self.low)[not high:]:
            if T in others:
                others.remove(T)
        (self.high if high else self.low).append(T)

    def allowed(self, T, defaults=True):
        """The tags of which one must be used."""
        if T in self.exact:
            return {self.exact[T]}
        if defaults and T in DEFAULTS:
            return {DEF}
        if not isinstance(T, type):
            return None      # a NewType: see allowed_for
        highs = [B for B in self.high if isinstance(B, type) and issubclass(T, B)]
        high = {self.exact[B] for B in highs}
        low = {self.exact[B] for B in self.low if isinstance(B, type) and issubclass(T, B)}
        if not defaults:
            return high | low or {DEF}
        if highs:
            # The latest; one that was later registered again, with low priority,
            # may still come first.
            last = highs[-1]
            doubt = {self.exact[B] for B in highs if B in self.low}
            return doubt | {self.exact[last]} if last not in self.low else high | low | {DEF}
        # There is a default for every class, except that the default of a builtin
        # base itself may have been replaced.
        return {DEF} | {self.exact[B] for B in self.low
                        if isinstance(B, type) and issubclass(T, B) and B.__module__ != 'jv_dyn'}


def allowed_for(table, typ, defaults=True):
    res = table.allowed(typ.type, defaults)
    while res is None or (typ.kind == 'newtype' and res == {DEF}):
        typ = typ.inner
        res = table.allowed(typ.type, defaults)
    return res


class Holder:
    def __init__(self, fork, parent=None, alias=False, js=False):
        self.fork = fork
        self.js = js
        if parent is None:
            self.ser, self.deser, self.val = Table(), Table(), Table()
            self.quiet, self.codes = False, set()
        elif alias:
            self.ser, self.deser, self.val = parent.ser, parent.deser, parent.val
            self.quiet, self.codes = parent.quiet, parent.codes
        else:
            self.ser, self.deser, self.val = parent.ser.copy(), parent.deser.copy(), parent.val.copy()
            self.quiet, self.codes = parent.quiet, set(parent.codes)
        self.alias = alias


# -- positions ---------------------------------------------------------------------

def holder_cls(style, T):
    ns = {'T': T, 'dataclasses': dataclasses, 'typing': typing, '__name__': 'jv_dyn'}
    name = 'Pos%d' % next(_counter)
    src = {
        'data': '@dataclasses.dataclass\nclass %s:\n    a: T\n',
        'init': 'class %s:\n    def __init__(self, a: T):\n        self.a = a\n',
        'late': 'class %s:\n    a: T\n',
        'opt': '@dataclasses.dataclass\nclass %s:\n    a: typing.Optional[T]\n',
        'nt': 'class %s(typing.NamedTuple):\n    a: T\n',
    }[style] % name
    exec(src, ns)
    return ns[name]


def put(pos, typ_T, value):
    """(type, value) with the value at the position."""
    if pos == 'list':
        return typing.List[typ_T], [value]
    if pos == 'dict':
        return typing.Dict[str, typ_T], {'a': value}
    if pos == 'tuple':
        return typing.Tuple[typ_T, typing.Any], (value, True)
    if pos == 'union':
        return typing.Optional[typ_T], value
    if pos == 'plainlist':
        return None, [True, value]
    if pos == 'plaindict':
        return None, {'a': value}
    cls = holder_cls(pos, typ_T)
    if pos == 'late':
        o = cls()
        o.a = value
    else:
        o = cls(value)
    return cls, o


def pick_dump(pos, d):
    if pos in ('list', 'tuple'):
        return d[0]
    if pos == 'plainlist':
        return d[1]
    if pos == 'union':
        return d
    return d['a']


def put_json(pos, j):
    if pos == 'list':
        return [j]
    if pos == 'tuple':
        return [j, True]
    if pos == 'union':
        return j
    return {'a': j}


def pick_load(pos, o):
    if pos in ('list', 'tuple'):
        return o[0]
    if pos == 'union':
        return o
    return o['a'] if pos == 'dict' else o.a


POS = ['list', 'dict', 'tuple', 'union', 'data', 'init', 'late', 'opt', 'nt']


# -- running a history ---------------------------------------------------------------

class Run:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.types = []
        for spec in case['types']:
            self.types.append(Type(spec, self.types))
        if case['root']:
            root = Holder(jsons.JsonSerializable, js=True)
            self.root = True
        else:
            root = Holder(jsons.JsonSerializable.fork() if case['js'] else jsons.fork(), js=case['js'])
            self.root = False
        self.holders = [root]
        self.tag = 0
        self.used = 0
        self.int_T = Type(['atom', 'int'], [])
        self.log = []

    def serializer(self):
        self.tag += 1
        n = self.tag

        def ser(obj, **kwargs):
            return 'ser%d' % n
        ser.tag = n
        return ser

    def deserializer(self):
        self.tag += 1
        n = self.tag

        def deser(obj, cls=None, **kwargs):
            return Tagged(n, obj)
        deser.tag = n
        return deser

    def validator(self):
        self.tag += 1
        n = self.tag

        def validate(obj):
            raise ValueError('val%d' % n)
        validate.tag = n
        return validate

    # expected dumps
    def dump_ok(self, h, typ, d):
        tags = allowed_for(h.ser, typ)
        for t in tags:
            if t != DEF and type(d) is str and d == 'ser%d' % t:
                self.used += 1
                return True
        if DEF in tags:
            while typ.kind == 'newtype':
                typ = typ.inner
            if typ.kind == 'own':
                return type(d) is dict and set(d) == {'x'} and self.dump_ok(h, self.int_T, d['x'])
            ok = isinstance(d, type(typ.dumped)) if typ.kind == 'sub' else type(d) is type(typ.dumped)
            return ok and d == typ.dumped
        return False

    def must_reject(self, h, typ):
        """True, False or None (depends on an ambiguous choice)"""
        v = allowed_for(h.val, typ, False)
        if DEF not in v:
            return True
        if v != {DEF}:
            return None
        if typ.kind == 'newtype' and typ.type not in h.deser.exact:
            return self.must_reject(h, typ.inner)
        tags = allowed_for(h.deser, typ)
        if typ.kind == 'own' and DEF in tags:
            inner = self.must_reject(h, self.int_T)
            return inner if tags == {DEF} or not inner else None
        return False

    def load_ok(self, h, typ, j, o):
        tags = allowed_for(h.deser, typ)
        if isinstance(o, Tagged):
            self.used += 1
            return o.tag in tags and o.obj == j
        if DEF not in tags:
            return False
        while typ.kind == 'newtype':
            typ = typ.inner
        if typ.kind == 'own':
            return type(o) is typ.type and set(vars(o)) == {'x'} and self.load_ok(h, self.int_T, j['x'], o.x)
        return type(o) is type(typ.loaded) and o == typ.loaded

    def check_get(self, h, typ):
        if isinstance(typ.type, type):
            for table, get in ((h.ser, jsons.get_serializer), (h.deser, jsons.get_deserializer)):
                f = get(typ.type, h.fork)
                t = getattr(f, 'tag', DEF)
                require(t in allowed_for(table, typ), '%s(%s) gives %s, not one of %s\n  %s', get.__name__, typ.type,
                        t, allowed_for(table, typ), self.log)
                require(f is not None, 'nothing for %s', typ.type)

    def check_dump(self, h, typ, pos):
        if typ.type in h.ser.exact and typ.kind == 'newtype':
            return     # What a value is dumped by depends on its class, not on the NewType.
        if pos == 'no':
            args, o = () if typ.kind != 'newtype' else (typ.type,), typ.value
        elif pos == 'cls':
            args, o = (typ.type,), typ.value
        elif pos == 'inst':
            if not h.js:
                return
            name = 'Inst%d' % next(_counter)
            ns = {'base': h.fork, '__name__': 'jv_dyn'}
            exec('class %s(base):\n    def __init__(self, a):\n        self.a = a\n' % name, ns)
            o = ns[name](typ.value)
            assume(typ.kind != 'newtype')
            d = o.dump()
            require(type(d) is dict and set(d) == {'a'} and self.dump_ok(h, typ, d['a']),
                    '%s().dump() gives %s; expected by one of %s\n  %s', name, short(d), allowed_for(h.ser, typ), self.log)
            return
        else:
            if pos.startswith('plain') or typ.kind == 'newtype':
                assume(typ.kind != 'newtype' or not pos.startswith('plain'))
            T, o = put(pos, typ.type, typ.value)
            args = () if T is None or pos in ('data', 'init', 'late', 'opt', 'nt') else (T,)
            if typ.kind == 'newtype' and pos in ('init', 'nt'):
                return     # The hint of the attribute is not that of the class.
        kw = {} if self.root and h is self.holders[0] else {'fork_inst': h.fork}
        got = attempt(jsons.dump, o, *args, **kw)
        ok = not isinstance(got, Raised)
        if ok:
            d = got if pos in ('no', 'cls') else pick_dump(pos, got)
            if pos in ('union', 'opt') and typ.value is None:
                ok = d is None or self.dump_ok(h, typ, d)
            else:
                ok = self.dump_ok(h, typ, d)
        require(ok, 'dump(%s, %s) under %s gives %s; expected by one of %s\n  %s', short(o), args, h.fork,
                short(got), allowed_for(h.ser, typ), self.log)

    def check_load(self, h, typ, pos):
        if typ.kind == 'sub' or typ.json is None:
            return
        j = typ.json
        if pos in ('no', 'cls', 'inst', 'plainlist', 'plaindict'):
            pos, T = 'no', typ.type
        else:
            T, _ = put(pos, typ.type, None) if pos not in ('late',) else (holder_cls('late', typ.type), None)
            j = put_json(pos, j)
        must = self.must_reject(h, typ)
        if must is None or pos == 'dict' and str in h.val.exact:
            return     # (Keys are validated as well.)
        kw = {} if self.root and h is self.holders[0] else {'fork_inst': h.fork}
        got = attempt(jsons.load, j, T, **kw)
        if must:
            if pos == 'union' or pos == 'opt':
                ok = isinstance(got, Raised)
            else:
                ok = isinstance(got, Raised) and 'val' in got.msg
            self.ctx.label('rejected by a validator')
            require(ok, 'load(%s, %s) under %s gives %s although there is a validator\n  %s', short(j), T, h.fork,
                    short(got), self.log)
            return
        ok = not isinstance(got, Raised)
        if ok:
            o = got if pos == 'no' else pick_load(pos, got)
            ok = self.load_ok(h, typ, typ.json, o)
        require(ok, 'load(%s, %s) under %s gives %s; expected by one of %s\n  %s', short(j), T, h.fork, short(got),
                allowed_for(h.deser, typ), self.log)

    def check_warn(self, h):
        if any(allowed_for(h.ser, Type(['atom', 'datetime'], [])) != {DEF} for _ in [0]):
            return
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            jsons.dump(dt.datetime(2020, 1, 1), fork_inst=h.fork)
        expect = 0 if h.quiet or 'datetime-without-tz' in h.codes else 1
        require(len(rec) == expect, '%d warnings under %s, expected %d\n  %s', len(rec), h.fork, expect, self.log)

    def probe(self, h, typ, pos, dump):
        self.log.append(('dump' if dump else 'load', typ.name, pos))
        (self.check_dump if dump else self.check_load)(h, typ, pos)
        self.log.pop()

    def do(self, op):
        h = self.holders[op['h'] % len(self.holders)]
        typs = [self.types[i % len(self.types)] for i in op['t']]
        k = op['op']
        self.log.append((k, self.holders.index(h), [t.name for t in typs], op['high'], op['via']))
        if k in ('ser', 'deser', 'val'):
            typs = [t for t in typs if self.root is False or h is not self.holders[0] or t.kind in ('own', 'newtype')]
            if not typs:
                return
            Ts = [t.type for t in typs]
            arg = Ts if len(Ts) > 1 or op['via'] == 'seq' else Ts[0]
            if k != 'ser' and type(None) in Ts:
                return
            if k == 'val':
                f = self.validator()
                jsons.set_validator(f, arg, fork_inst=h.fork)
                for T in Ts:
                    h.val.add(T, f.tag, True)
                return
            f = self.serializer() if k == 'ser' else self.deserializer()
            if op['via'].startswith('method') and h.js:
                method = h.fork.set_serializer if k == 'ser' else h.fork.set_deserializer
                res = method(f, arg, op['high'], fork=op['via'] == 'methodfork')
                if op['via'] == 'methodfork':
                    h = Holder(res, h, js=True)
                    self.holders.append(h)
                else:
                    require(res is h.fork, 'set_serializer returned %s', res)
            else:
                fn = jsons.set_serializer if k == 'ser' else jsons.set_deserializer
                fn(f, arg, op['high'], h.fork)
            for T in Ts:
                (h.ser if k == 'ser' else h.deser).add(T, f.tag, op['high'])
        elif k == 'fork' and len(self.holders) < 7:
            if op['via'] == 'sub' and h.js and h.fork is not jsons.JsonSerializable:
                self.holders.append(Holder(type('Sub%d' % next(_counter), (h.fork,), {}), h, alias=True, js=True))
            elif op['via'].startswith('method') and h.js:
                self.holders.append(Holder(h.fork.fork(*(['MyFork'] if op['high'] else [])), h, js=True))
            else:
                self.holders.append(Holder(jsons.fork(h.fork), h, js=h.js))
        elif k == 'quiet':
            if h.alias or any(x.alias for x in self.holders) or h.fork is jsons.JsonSerializable:
                return
            if op['via'] == 'seq':
                jsons.suppress_warning('datetime-without-tz', h.fork)
                h.codes.add('datetime-without-tz')
            else:
                jsons.suppress_warnings(op['high'], h.fork)
                h.quiet = op['high']
        else:
            for t in typs:
                if t.usable:
                    self.probe(h, t, op['pos'], op['high'])
                    self.probe(h, t, op['pos'], not op['high'])


def check_history(case, ctx):
    run = Run(case, ctx)
    for op in case['ops']:
        run.do(op)
        if op['op'] in ('ser', 'deser', 'val') and op['also']:
            # Everybody notices at once, or not at all.
            for h in run.holders:
                for i in op['t']:
                    t = run.types[i % len(run.types)]
                    if t.usable:
                        run.probe(h, t, op['pos'], op['op'] == 'ser')
    for h in run.holders:
        for t in run.types:
            if t.usable:
                run.check_get(h, t)
                run.probe(h, t, 'no', True)
                run.probe(h, t, 'no', False)
        run.check_warn(h)
    if not case['root']:
        # The root did not notice anything.
        root = Holder(jsons.JsonSerializable, js=True)
        for t in run.types:
            if t.usable:
                run.probe(root, t, 'no', True)
                run.probe(root, t, 'no', False)
        run.check_warn(root)
    ctx.interesting(run.used > 0)
    ctx.label('%d holders' % len(run.holders), 'registered functions used' if run.used else 'defaults only')


@st.composite
def s_history(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    types = [['own', []]]
    for n in range(1, i(2, 6)):
        k = i(0, 9)
        if k < 4:
            owns = [m for m, s in enumerate(types) if s[0] == 'own']
            types.append(['own', sorted({pick(owns)} if i(0, 4) else {})]
                         + ([pick(owns), pick(['same', 'same', 'case'])] if i(0, 3) == 0 else []))
        elif k < 6:
            types.append(['atom', pick(sorted(ATOMS))])
        elif k == 6:
            types.append(['sub', pick(['int', 'float', 'str', 'datetime', 'date', 'uuid', 'decimal'])])
        elif k == 7:
            types.append(['enum'])
        elif k == 8:
            ok = [m for m, s in enumerate(types) if s[0] in ('own', 'atom', 'enum') and s != ['atom', 'none']]
            types.append(['newtype', pick(ok)])
        else:
            types.append(['abstract', pick(sorted(ABSTRACT))])
    ops = []
    for _ in range(i(2, 14)):
        ops.append({
            'op': pick(['ser', 'ser', 'ser', 'deser', 'deser', 'val', 'fork', 'fork', 'quiet', 'probe', 'probe', 'probe']),
            'h': i(0, 6), 't': draw(st.lists(st.integers(0, len(types) - 1), min_size=1, max_size=2)),
            'high': i(0, 4) > 0, 'via': pick(['fn', 'fn', 'fn', 'seq', 'method', 'methodfork', 'sub']),
            'pos': pick(POS + ['no', 'no', 'cls', 'inst', 'plainlist', 'plaindict']), 'also': draw(st.booleans()),
        })
    return {'types': types, 'ops': ops, 'js': draw(st.booleans()), 'root': i(0, 9) == 0}


# -- the parts of builtin values -------------------------------------------------------

def check_parts(case, ctx):
    """The offset of a timezone is a timedelta, the parts of a complex number are floats."""
    whole = case['whole']
    part, cast = ((dt.timedelta, lambda x: dt.timedelta(seconds=x)) if whole == 'timezone' else (float, float))
    forks = [(jsons.fork() if case['js'] else jsons.JsonSerializable.fork(), {})]

    def register(i, what, n):
        fork, regs = forks[i]
        if what == 'ser':
            def f(obj, **kwargs):
                return '%d:%r' % (n, obj.total_seconds() if whole == 'timezone' else obj)
            jsons.set_serializer(f, part, fork_inst=fork)
        elif what == 'deser':
            def f(obj, cls=None, **kwargs):
                tag, x = obj.split(':')
                if int(tag) != n:
                    raise ValueError('another tag')
                return cast(float(x))
            jsons.set_deserializer(f, part, fork_inst=fork)
        else:
            def f(obj):
                if obj == cast(n):
                    raise ValueError('val%d' % n)
                return True
            jsons.set_validator(f, part, fork_inst=fork)
        regs[what] = n

    for op in case['ops']:
        i = op['h'] % len(forks)
        if op['op'] == 'fork':
            forks.append((jsons.fork(forks[i][0]), dict(forks[i][1])))
        else:
            register(i, op['op'], op['n'])
    x, y = case['x'] * 60.0, case['y'] * 60.0
    value = dt.timezone(cast(x), 'Z1') if whole == 'timezone' else complex(x, y)
    T = type(value)
    pos = case['pos']
    for fork, regs in forks + [(jsons.JsonSerializable, {})]:
        PT, o = (T, value) if pos == 'no' else put(pos, T, value)
        info = '%s under %s %s' % (short(o), fork, regs)
        d = jsons.dump(o, *([PT] if pos in ('list', 'dict', 'tuple', 'union') else []), fork_inst=fork)
        d = d if pos == 'no' else pick_dump(pos, d)
        if whole == 'timezone':
            want = '%d:%r' % (regs['ser'], x) if 'ser' in regs else x
            require(d == {'name': 'Z1', 'offset': want}, 'dump of %s gives %s', info, d)
        for tag in sorted({None, regs.get('deser'), *(r.get('deser') for _, r in forks)}, key=str):
            enc = lambda z: z if tag is None else '%d:%r' % (tag, z)
            j = {'name': 'Z1', 'offset': enc(x)} if whole == 'timezone' else {'real': enc(x), 'imag': enc(y)}
            got = attempt(jsons.load, j if pos == 'no' else put_json(pos, j), PT, fork_inst=fork)
            # What is a float already, is not converted.
            fits = tag == regs.get('deser') or (tag is None and whole == 'complex')
            rejected = fits and regs.get('val') in ([x] if whole == 'timezone' else [x, y])
            if fits and not rejected:
                require(not isinstance(got, Raised), 'load of %s from %s gives %s', info, j, got)
                r = got if pos == 'no' else pick_load(pos, got)
                require(type(r) is T and r == value, 'load of %s from %s gives %s', info, j, r)
            else:
                require(isinstance(got, Raised), 'load of %s from %s gives %s', info, j, short(got))
                if rejected and pos not in ('union', 'opt'):
                    require('val%d' % regs['val'] in got.msg, 'load of %s from %s gives %s', info, j, got)
                ctx.label('rejected by a validator' if rejected else 'no fitting deserializer')
    ctx.label(whole)
    ctx.interesting(len(forks) > 1 and any(regs for _, regs in forks))


@st.composite
def s_parts(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    ops = [{'op': pick(['ser', 'deser', 'val', 'fork']), 'h': i(0, 3), 'n': 60 * i(0, 3)} for _ in range(i(1, 6))]
    return {'whole': pick(['timezone', 'complex']), 'js': draw(st.booleans()), 'ops': ops, 'x': i(0, 3), 'y': i(0, 3),
            'pos': pick(POS + ['no', 'no'])}


PROP = Prop(
    'C14',
    'Histories of up to 14 operations (fork by function or method, subclassing a fork, registering serializers, '
    'deserializers and validators with high or low priority for one or several of up to 5 types, suppressing warnings, '
    'dumping and loading at any position) over generated class hierarchies, builtin types and their subclasses, enums '
    'and NewTypes; a model registry tells which functions are acceptable. parts: functions registered for timedelta and float in '
    'several forks, used for the offset of a timezone and the parts of a complex number. Non-trivial: a registered '
    'function was used.',
    [Facet('history', s_history, check_history, 5000, 120000, 8),
     Facet('parts', s_parts, check_parts, 1500, 30000, 2)],
    ['Of several base classes with a registered function, that registered last with high priority must be used; '
     'for validators any is accepted, and if all were registered with high_prio=False the default one.',
     'Classes registered in the root (10% of the cases) have names that are unique within the process; builtin types '
     'are registered in forks only.'])
