"""Types and values from JSON-able specs; strict equality; reference dump.

A case describes its own classes ("defs"), a type and a value:

  type  := atom | ["list", T] | ["blist", T] | ["set", T] | ["frozenset", T]
         | ["bset", T] | ["deque", T] | ["seq", T] | ["iter", T]
         | ["tuple", [T..]] | ["btuple", [T..]] | ["vtuple", T]
         | ["dict"|"bdict"|"odict"|"ddict"|"mapping"|"mmapping", K, V]
         | ["opt", T] | ["union", [T..]] | ["ref", i]
  atom  := "int" "float" "str" "bool" "none" "datetime" "date" "time"
           "timedelta" "timezone" "zoneinfo" "decimal" "uuid" "complex"
           "path" "winpath" "any"
  def   := {"k":"enum","n":name,"base":b,"m":[[name, value]..]}
         | {"k":"newtype","n":name,"t":T}
         | {"k":"nt","n":name,"f":[[name, T, default?]..]}
         | {"k":"cls","n":name,"style":s,"f":[[name, T, default?]..],
            "base":i?, "opts":{..}}
A default is [] (none) or [value spec].
["opt", T, "pep"] and ["union", [T..], "pep"] are written as A | B.
Options of a class: frozen, slots, kw_only, str (postponed hints), inner (the
name of an inner class), mod (defined in a module of its own), abc, qual (the
qualifier around the hints in the body: Final or Annotated), cvars ([name, T,
value, kind]: class variables hinted with ClassVar, or InitVars, with a
default or, InitOpt, without).
bareslot: a single slot is given as text. kw_only "marker" is written as a field hinted KW_ONLY.
"""
import abc
import collections
import collections.abc
import dataclasses
import datetime as dt
import decimal
import enum
import pathlib
import re
import sys
import types
import typing
import uuid
import zoneinfo

import attr
import jsons

from jv.core import HarnessError, Violation, require, short

MODULE = 'jv_dyn'
_module = types.ModuleType(MODULE)
sys.modules[MODULE] = _module
_BASE_NS = {
    '__name__': MODULE, '__builtins__': __builtins__, 'typing': typing,
    'enum': enum, 'dataclasses': dataclasses, 'attr': attr, 'jsons': jsons,
    'dt': dt, 'decimal': decimal, 'uuid': uuid, 'pathlib': pathlib,
    'zoneinfo': zoneinfo, 'collections': collections, 'abc': abc, 'NoneT': type(None),
}


def reset():
    """Forget everything about the previous case."""
    for name in [n for n in sys.modules if n.startswith(MODULE + '_m')]:
        del sys.modules[name]
    ns = _module.__dict__
    ns.clear()
    ns.update(_BASE_NS)
    # typing remembers what 'Foo' in List['Foo'] was, also in the next case.
    for cleanup in getattr(typing, '_cleanups', ()):
        cleanup()
    forget()


def dynamic(cls):
    """Whether this class is one of a case."""
    name = getattr(cls, '__module__', None) or ''
    return name == MODULE or name.startswith(MODULE + '_m')


def forget():
    """The library remembers every class it met, for good: give the memory of the
    generated classes back. As in another process, they must be imported again."""
    try:
        known = jsons.JsonSerializable._announced_classes
        for key in [k for k in known
                    if dynamic(k) or (isinstance(k, str) and k.startswith((MODULE + '.', MODULE + '_m')))
                    or (not isinstance(k, (str, type)) and MODULE in repr(k))]:
            del known[key]
    except Exception:
        pass


ATOMS = {
    'int': ('int', int), 'float': ('float', float), 'str': ('str', str),
    'bool': ('bool', bool), 'none': ('NoneT', type(None)),
    'datetime': ('dt.datetime', dt.datetime), 'date': ('dt.date', dt.date),
    'time': ('dt.time', dt.time), 'timedelta': ('dt.timedelta', dt.timedelta),
    'timezone': ('dt.timezone', dt.timezone),
    'zoneinfo': ('zoneinfo.ZoneInfo', zoneinfo.ZoneInfo),
    'decimal': ('decimal.Decimal', decimal.Decimal),
    'uuid': ('uuid.UUID', uuid.UUID), 'complex': ('complex', complex),
    'path': ('pathlib.PurePosixPath', pathlib.PurePosixPath),
    'winpath': ('pathlib.PureWindowsPath', pathlib.PureWindowsPath),
    'any': ('typing.Any', typing.Any),
}

_ONE = {'list': 'typing.List[%s]', 'blist': 'list[%s]', 'set': 'typing.Set[%s]',
        'bset': 'set[%s]', 'frozenset': 'typing.FrozenSet[%s]',
        'deque': 'typing.Deque[%s]', 'seq': 'typing.Sequence[%s]',
        'iter': 'typing.Iterable[%s]',
        'vtuple': 'typing.Tuple[%s, ...]', 'opt': 'typing.Optional[%s]'}
_TWO = {'dict': 'typing.Dict[%s, %s]', 'bdict': 'dict[%s, %s]',
        'odict': 'typing.OrderedDict[%s, %s]', 'ddict': 'typing.DefaultDict[%s, %s]',
        'mapping': 'typing.Mapping[%s, %s]', 'mmapping': 'typing.MutableMapping[%s, %s]'}
LISTS = ('list', 'blist', 'seq', 'iter')
SETS = ('set', 'bset')
DICTS = ('dict', 'bdict', 'odict', 'ddict', 'mapping', 'mmapping')
SEQ_KINDS = LISTS + SETS + ('frozenset', 'deque', 'vtuple')


def build_dt(spec):
    y, mo, d, h, mi, s, us, tz = spec[:8]
    fold = spec[8] if len(spec) > 8 else 0
    return dt.datetime(y, mo, d, h, mi, s, us, tzinfo=build_tz(tz), fold=fold)


def build_tz(tz):
    if tz is None:
        return None
    if tz == 'UTC':
        return dt.timezone.utc
    if isinstance(tz, str):
        return zoneinfo.ZoneInfo(tz)
    if isinstance(tz, list):
        return dt.timezone(dt.timedelta(minutes=tz[0]), tz[1])
    return dt.timezone(dt.timedelta(minutes=tz))


def _define_elsewhere(name, source):
    """Define something in a new module, that only has the names that are used there."""
    number = sum(n.startswith(MODULE + '_m') for n in sys.modules)
    mod = types.ModuleType('%s_m%d' % (MODULE, number))
    sys.modules[mod.__name__] = mod
    ns = mod.__dict__
    ns['__builtins__'] = __builtins__
    for used in set(re.findall(r'\w+', source)):
        if used in _module.__dict__ and not used.startswith('__'):
            ns[used] = _module.__dict__[used]
    exec(source, ns)
    return ns[name]


class World:
    def __init__(self, defs=()):
        self.defs = list(defs)
        self.objs = []
        for i in range(len(self.defs)):
            self.objs.append(self._make(i))

    # -- types ---------------------------------------------------------------
    def src(self, t, current=None):
        """Source text of a type; a class under construction is quoted."""
        if isinstance(t, str):
            return ATOMS[t][0]
        k = t[0]
        if len(t) > 2 and t[2] == 'pep':
            alts = [self.src(a, current) for a in (t[1] if k == 'union' else [t[1], 'none'])]
            if not any(a[0] in '"\'' for a in alts):
                return ' | '.join(alts)
        if k == 'ref':
            name = self.defs[t[1]]['n']
            return repr(name) if current is not None and t[1] >= current else name
        if k in _ONE:
            return _ONE[k] % self.src(t[1], current)
        if k in _TWO:
            return _TWO[k] % (self.src(t[1], current), self.src(t[2], current))
        if k in ('tuple', 'btuple'):
            args = ', '.join(self.src(a, current) for a in t[1]) or '()'
            return ('typing.Tuple[%s]' if k == 'tuple' else 'tuple[%s]') % args
        if k == 'union':
            return 'typing.Union[%s]' % ', '.join(self.src(a, current) for a in t[1])
        raise HarnessError('unknown type %r' % (t,))

    def type(self, t):
        if t == 'none':
            return type(None)
        return eval(self.src(t), _module.__dict__)

    def runtime_type(self, t):
        """The class that instances of type t have (None: any)."""
        if isinstance(t, str):
            return None if t == 'any' else ATOMS[t][1]
        k = t[0]
        if k in LISTS:
            return list
        if k in SETS:
            return set
        if k == 'ref':
            d = self.defs[t[1]]
            if d['k'] == 'newtype':
                return self.runtime_type(d['t'])
            return self.objs[t[1]]
        return {'frozenset': frozenset, 'deque': collections.deque, 'tuple': tuple,
                'btuple': tuple, 'vtuple': tuple, 'dict': dict, 'bdict': dict,
                'odict': collections.OrderedDict, 'ddict': collections.defaultdict,
                'mapping': dict, 'mmapping': dict}.get(k)

    def _define(self, name, source, own_module=False):
        ns = _module.__dict__
        if name in ns:
            raise HarnessError('name defined twice: %s' % name)
        if own_module:
            ns[name] = _define_elsewhere(name, source)
        else:
            exec(source, ns)
        return ns[name]

    def fields(self, i):
        """All fields, inherited ones first: [name, T, default]."""
        d = self.defs[i]
        base = d.get('base')
        own = [(f + [[]])[:3] for f in d['f']]
        return (self.fields(base) if base is not None else []) + own

    def _make(self, i):
        d = self.defs[i]
        name = d['n']
        k = d['k']
        if k == 'enum':
            bases = {'Enum': 'enum.Enum', 'IntEnum': 'enum.IntEnum',
                     'str': 'str, enum.Enum', 'int': 'int, enum.Enum'}[d['base']]
            body = '\n'.join('    %s = %r' % (n, v if not isinstance(v, list) else tuple(v))
                             for n, v in d['m'])
            return self._define(name, 'class %s(%s):\n%s\n' % (name, bases, body))
        if k == 'newtype':
            return self._define(name, '%s = typing.NewType(%r, %s)\n'
                                % (name, name, self.src(d['t'])))
        if k == 'nt':
            lines = ['    %s: %s%s' % (n, self.src(t, i), self._default(df, t))
                     for n, t, df in self.fields(i)] or ['    pass']
            return self._define(name, 'class %s(typing.NamedTuple):\n%s\n'
                                % (name, '\n'.join(lines)))
        return self._make_class(i, d, name)

    def _default(self, df, t, prefix=' = '):
        if not df:
            return ''
        key = '_default_%d' % len(_module.__dict__)
        _module.__dict__[key] = self.value(t, df[0])
        return prefix + key

    def _make_class(self, i, d, name):
        style = d['style']
        opts = d.get('opts', {})
        as_str = opts.get('str', False)
        base = d.get('base')
        bases = [self.defs[base]['n']] if base is not None else ['abc.ABC'] if opts.get('abc') else []
        own = [(f + [[]])[:3] for f in d['f']]
        every = self.fields(i)

        def hint(t):
            s = self.src(t, None if as_str else i)
            return repr(s) if as_str else s

        def body_hint(t):
            s = {'Final': 'typing.Final[%s]', 'Annotated': 'typing.Annotated[%s, 1]'}.get(
                opts.get('qual'), '%s') % self.src(t, None if as_str else i)
            return repr(s) if as_str else s

        def cvar(n, t, v, kind):
            s = {'ClassVar': 'typing.ClassVar[%s]', 'InitVar': 'dataclasses.InitVar[%s]',
                 'InitOpt': 'dataclasses.InitVar[typing.Optional[%s]]',
                 'bare': 'typing.ClassVar'}[kind] % (() if kind == 'bare' else self.src(t, None if as_str else i))
            if kind == 'InitOpt':
                return '    %s: %s = dataclasses.field(kw_only=True)' % (n, repr(s) if as_str else s)
            default = self._default([v], t, '')
            if kind == 'InitVar':
                default = 'dataclasses.field(default=%s, kw_only=True)' % default
            return '    %s: %s = %s' % (n, repr(s) if as_str else s, default)

        lines = []
        if style in ('data', 'ser', 'attrs'):
            if style == 'ser' and base is None:
                bases.insert(0, opts.get('serbase', 'jsons.JsonSerializable'))
            if style == 'attrs':
                deco = '@attr.s(auto_attribs=True%s)' % (', frozen=True' if opts.get('frozen') else '')
            else:
                args = ['%s=True' % o for o in ('frozen', 'slots', 'kw_only')
                        if opts.get(o) and opts[o] != 'marker']
                deco = '@dataclasses.dataclass(%s)' % ', '.join(args)
            lines.append(deco)
            lines.append('class %s(%s):' % (name, ', '.join(bases)))
            if opts.get('kw_only') == 'marker':
                lines.append('    _: %s' % (repr('dataclasses.KW_ONLY') if as_str else 'dataclasses.KW_ONLY'))
            for n, t, df in own:
                if df and self._mutable(t, df[0]):
                    mk = self._factory(t, df[0])
                    lib = ('attr.ib(factory=%s)' if style == 'attrs'
                           else 'dataclasses.field(default_factory=%s)')
                    lines.append('    %s: %s = %s' % (n, body_hint(t), lib % mk))
                else:
                    lines.append('    %s: %s%s' % (n, body_hint(t), self._default(df, t)))
            if any(c[3].startswith('Init') for c in opts.get('cvars', ())):
                lines.append('    def __post_init__(self, *args, **kwargs): pass')
            if len(lines) == 2:
                lines.append('    pass')
        else:
            lines.append('class %s(%s):' % (name, ', '.join(bases)))
            if style == 'slots':
                slots = tuple(n for n, _, _ in own)
                # One name may be given without a tuple.
                lines.append('    __slots__ = %r' % (slots[0] if len(slots) == 1 and opts.get('bareslot') else slots,))
            if style in ('both', 'late'):
                for n, t, _ in own:
                    lines.append('    %s: %s' % (n, body_hint(t)))
            if style == 'late':
                lines.append('    pass')
            else:
                recv = 'this' if 'self' in [n for n, _, _ in every] else 'self'
                params = [recv]
                if opts.get('kw_only') and every:
                    params.append('*')
                for n, t, df in every:
                    params.append('%s: %s%s' % (n, hint(t), self._default(df, t)))
                lines.append('    def __init__(%s):' % ', '.join(params))
                for n, _, _ in every:
                    lines.append('        %s.%s = %s' % (recv, n, n))
                lines.append('        pass')
        lines += [cvar(*c) for c in opts.get('cvars', ())]
        if opts.get('inner'):
            lines += ['    class %s:' % opts['inner'], '        attr = 1', '        def __init__(self):',
                      '            self.x = 1']
        return self._define(name, '\n'.join(lines) + '\n', opts.get('mod'))

    def _mutable(self, t, v):
        return not isinstance(self.value(t, v), (
            int, float, str, bool, type(None), dt.datetime, dt.date, dt.time, dt.timedelta,
            decimal.Decimal, uuid.UUID, complex, tuple, frozenset, enum.Enum,
            pathlib.PurePath, dt.tzinfo))

    def _factory(self, t, v):
        key = '_factory_%d' % len(_module.__dict__)
        _module.__dict__[key] = lambda: self.value(t, v)
        return key

    # -- values --------------------------------------------------------------
    def value(self, t, v):
        if isinstance(t, str):
            return _atom(t, v)
        k = t[0]
        if k in LISTS:
            return [self.value(t[1], x) for x in v]
        if k in SETS:
            return {self.value(t[1], x) for x in v}
        if k == 'frozenset':
            return frozenset(self.value(t[1], x) for x in v)
        if k == 'deque':
            return collections.deque(self.value(t[1], x) for x in v)
        if k == 'vtuple':
            return tuple(self.value(t[1], x) for x in v)
        if k in ('tuple', 'btuple'):
            return tuple(self.value(a, x) for a, x in zip(t[1], v))
        if k in DICTS:
            pairs = [(self.value(t[1], a), self.value(t[2], b)) for a, b in v]
            if k == 'odict':
                return collections.OrderedDict(pairs)
            if k == 'ddict':
                return collections.defaultdict(None, pairs)
            return dict(pairs)
        if k == 'opt':
            return None if v is None else self.value(t[1], v)
        if k == 'union':
            return self.value(t[1][v[0]], v[1])
        if k == 'ref':
            return self.ref_value(t[1], v)
        raise HarnessError('unknown type %r' % (t,))

    def ref_value(self, i, v):
        if isinstance(v, dict):    # an instance of a subclass
            i, v = v['sub'], v['v']
        d = self.defs[i]
        cls = self.objs[i]
        if d['k'] == 'enum':
            return cls[d['m'][v][0]]
        if d['k'] == 'newtype':
            return self.value(d['t'], v)
        fields = self.fields(i)
        vals = [self.value(t, x) for (_, t, _), x in zip(fields, v)]
        if d['k'] == 'nt':
            return cls(*vals)
        if d['style'] == 'late':
            inst = cls()
            for (n, _, _), x in zip(fields, vals):
                setattr(inst, n, x)
            return inst
        if d['style'] == 'attrs':
            return cls(**{n.lstrip('_'): x for (n, _, _), x in zip(fields, vals)})
        extra = {n: self.value(t, x) for n, t, x, kind in self.cvars(i) if kind == 'InitOpt'}
        return cls(**{n: x for (n, _, _), x in zip(fields, vals)}, **extra)

    def cvars(self, i):
        """Class variables and InitVars, inherited ones too."""
        res = []
        while i is not None:
            res += self.defs[i].get('opts', {}).get('cvars', ())
            i = self.defs[i].get('base')
        return res

    # -- reference dump --------------------------------------------------------
    def model(self, t, v):
        """What dump must return for the value (sets: Bag)."""
        if isinstance(t, str):
            return _atom_model(t, v)
        k = t[0]
        if k in LISTS + ('deque', 'vtuple'):
            return [self.model(t[1], x) for x in v]
        if k in SETS + ('frozenset',):
            seen, res = set(), Bag()
            for x in v:
                o = self.value(t[1], x)
                if o not in seen:
                    seen.add(o)
                    res.append(self.model(t[1], x))
            return res
        if k in ('tuple', 'btuple'):
            return [self.model(a, x) for a, x in zip(t[1], v)]
        if k in DICTS:
            return self._model_dict(t, v)
        if k == 'opt':
            return None if v is None else self.model(t[1], v)
        if k == 'union':
            return self.model(t[1][v[0]], v[1])
        i = t[1]
        if isinstance(v, dict):
            i, v = v['sub'], v['v']
        d = self.defs[i]
        if d['k'] == 'enum':
            return self.objs[i][d['m'][v][0]].name
        if d['k'] == 'newtype':
            return self.model(d['t'], v)
        strip = d['k'] == 'cls' and d['style'] == 'attrs'
        res = {(n.lstrip('_') if strip else n): self.model(ft, x)
               for (n, ft, _), x in zip(self.fields(i), v)}
        res.update((n, self.model(t, x)) for n, t, x, kind in self.cvars(i) if kind != 'InitOpt')
        return res

    def _model_dict(self, t, v):
        last, order = {}, []
        for a, b in v:
            o = self.value(t[1], a)
            if o not in last:
                order.append((o, a))
            last[o] = b
        plain, hashed = {}, []
        for o, a in order:
            mk = o if type(o) in (str, int, float, bool, type(None)) else self.model(t[1], a)
            mv = self.model(t[2], last[o])
            if type(mk) in (str, int, float, bool, type(None), OneOf):
                plain[mk] = mv
            else:
                hashed.append((mk, mv))
        return HashDict(plain, hashed) if hashed else plain

    # -- what a round trip must give back ---------------------------------------
    def back(self, t, v):
        """The value, with naive datetimes made aware (as local times)."""
        return _localise(self.value(t, v))


class Bag(list):
    """A list of which the order does not matter."""


class HashDict:
    def __init__(self, plain, hashed):
        self.plain = plain
        self.hashed = hashed

    def __repr__(self):
        return 'HashDict(%r, %r)' % (self.plain, self.hashed)


def _atom(t, v):
    if t in ('int', 'str', 'bool', 'none', 'any'):
        return _fresh(v)
    if t == 'float':
        return float(v)
    if t == 'datetime':
        return build_dt(v)
    if t == 'date':
        return dt.date(*v)
    if t == 'time':
        return dt.time(*v)
    if t == 'timedelta':
        return dt.timedelta(days=v[0], seconds=v[1], microseconds=v[2])
    if t == 'timezone':
        off = dt.timedelta(seconds=v[0])
        return dt.timezone(off) if v[1] is None else dt.timezone(off, v[1])
    if t == 'zoneinfo':
        return zoneinfo.ZoneInfo(v)
    if t == 'decimal':
        return decimal.Decimal(v)
    if t == 'uuid':
        return uuid.UUID(int=v)
    if t == 'complex':
        return complex(v[0], v[1])
    if t == 'path':
        return pathlib.PurePosixPath(v)
    if t == 'winpath':
        return pathlib.PureWindowsPath(v)
    raise HarnessError('unknown atom %s' % t)


def _fresh(v):
    if isinstance(v, list):
        return [_fresh(x) for x in v]
    if isinstance(v, dict):
        return {k: _fresh(x) for k, x in v.items()}
    return v


def dt_text(o, strip_us=False):
    """RFC 3339 text of a datetime, written without the datetime module's
    formatting."""
    off = o.utcoffset()
    naive = off is None
    if naive:
        off = o.astimezone().utcoffset()
    res = '%04d-%02d-%02dT%02d:%02d:%02d' % (o.year, o.month, o.day, o.hour, o.minute, o.second)
    if o.microsecond and not strip_us:
        res += '.%06d' % o.microsecond
    mins = int(off.total_seconds()) // 60
    return res, ('-' if mins < 0 else '+') + '%02d:%02d' % divmod(abs(mins), 60)


def _dt_model(o):
    body, off = dt_text(o)
    if off != '+00:00':
        return body + off
    return OneOf(body + 'Z', body + '+00:00')


class OneOf:
    def __init__(self, *options):
        self.options = options

    def __repr__(self):
        return 'OneOf%r' % (self.options,)

    def __hash__(self):
        return hash(self.options)

    def __eq__(self, other):
        return isinstance(other, OneOf) and other.options == self.options


def _atom_model(t, v):
    o = _atom(t, v)
    if t in ('int', 'str', 'bool', 'none', 'float', 'any'):
        return o
    if t == 'datetime':
        return _dt_model(o)
    if t == 'date':
        return '%04d-%02d-%02d' % (o.year, o.month, o.day)
    if t == 'time':
        s = '%02d:%02d:%02d' % (o.hour, o.minute, o.second)
        return s + ('.%06d' % o.microsecond if o.microsecond else '')
    if t == 'timedelta':
        return o.total_seconds()
    if t == 'timezone':
        return {'name': o.tzname(None), 'offset': o.utcoffset(None).total_seconds()}
    if t == 'zoneinfo':
        return {'key': v}
    if t in ('decimal', 'uuid'):
        return str(o)
    if t == 'complex':
        return {'real': o.real, 'imag': o.imag}
    return o.as_posix()


def _localise(o):
    if isinstance(o, dt.datetime):
        return o if o.tzinfo else o.astimezone()
    if isinstance(o, tuple):
        if hasattr(o, '_fields'):
            return type(o)(*[_localise(x) for x in o])
        return tuple(_localise(x) for x in o)
    if isinstance(o, (list, set, frozenset, collections.deque)):
        return type(o)(_localise(x) for x in o)
    if isinstance(o, collections.defaultdict):
        return collections.defaultdict(None, {_localise(k): _localise(x) for k, x in o.items()})
    if isinstance(o, dict):
        return type(o)((_localise(k), _localise(x)) for k, x in o.items())
    if dynamic(type(o)) and not isinstance(o, enum.Enum):
        for n in attrs_of(o):
            x = getattr(o, n)
            y = _localise(x)
            if y is not x:
                object.__setattr__(o, n, y)
    return o


def attrs_of(o):
    """Names of the data attributes that an instance holds."""
    names = list(getattr(o, '__dict__', ()))
    for c in type(o).__mro__:
        slots = c.__dict__.get('__slots__', ())
        for n in ((slots,) if isinstance(slots, str) else slots):
            if n not in ('__dict__', '__weakref__') and hasattr(o, n):
                names.append(n)
    return names


# -- equality ---------------------------------------------------------------------

def differ(a, b, path='$'):
    """None if a and b are the same value; else where they differ. Types are
    compared exactly, sets by matching elements, floats by representation."""
    if isinstance(a, dt.datetime):
        if not isinstance(b, dt.datetime):
            return '%s: expected %s, got %s' % (path, short(a), short(b))
        if a.tzinfo is None or b.tzinfo is None:
            same = a.tzinfo is b.tzinfo and a.replace(fold=0) == b.replace(fold=0)
        else:
            same = (a.replace(tzinfo=None, fold=0) == b.replace(tzinfo=None, fold=0)
                    and a.utcoffset() == b.utcoffset())
        return None if same else '%s: expected %r, got %r' % (path, a, b)
    if type(a) is not type(b):
        return '%s: expected %s %s, got %s %s' % (
            path, type(a).__name__, short(a), type(b).__name__, short(b))
    if isinstance(a, enum.Enum):
        return None if a is b else '%s: expected %r, got %r' % (path, a, b)
    if isinstance(a, (float, complex)):
        return None if repr(a) == repr(b) else '%s: expected %r, got %r' % (path, a, b)
    if isinstance(a, decimal.Decimal):
        return None if str(a) == str(b) else '%s: expected %r, got %r' % (path, a, b)
    if isinstance(a, (list, tuple, collections.deque)):
        if len(a) != len(b):
            return '%s: expected %d elements, got %d: %s / %s' % (
                path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, (set, frozenset)):
        return match(list(a), list(b), path)
    if isinstance(a, dict):
        if len(a) != len(b):
            return '%s: expected keys %s, got %s' % (path, short(list(a)), short(list(b)))
        if all(type(k) is str for k in a):
            for k in a:
                if k not in b:
                    return '%s: no key %r in %s' % (path, k, short(b))
                d = differ(a[k], b[k], '%s[%r]' % (path, k))
                if d:
                    return d
        else:
            d = match(list(a.items()), list(b.items()), path)
            if d:
                return d
        if isinstance(a, collections.OrderedDict):
            return differ(list(a), list(b), path + '(order)')
        return None
    if isinstance(a, (str, int, pathlib.PurePath)):
        return None if a == b else '%s: expected %r, got %r' % (path, a, b)
    if dynamic(type(a)):
        na, nb = sorted(attrs_of(a)), sorted(attrs_of(b))
        # Loading may set the class variables of a dump on the instance.
        na = sorted(na + [n for n in nb if n not in na and _CVAR.match(n) and hasattr(type(a), n)])
        nb = sorted(nb + [n for n in na if n not in nb and _CVAR.match(n) and hasattr(type(b), n)])
        if na != nb:
            return '%s: expected attributes %s, got %s' % (path, na, nb)
        for n in na:
            d = differ(getattr(a, n), getattr(b, n), '%s.%s' % (path, n))
            if d:
                return d
        return None
    if isinstance(a, dt.tzinfo):
        if isinstance(a, zoneinfo.ZoneInfo):
            same = a.key == b.key
        else:
            same = a.utcoffset(None) == b.utcoffset(None) and a.tzname(None) == b.tzname(None)
        return None if same else '%s: expected %r, got %r' % (path, a, b)
    try:
        same = a == b
    except Exception:
        same = False
    return None if same else '%s: expected %s, got %s' % (path, short(a), short(b))


def match(xs, ys, path):
    if len(xs) != len(ys):
        return '%s: expected %d elements %s, got %d %s' % (
            path, len(xs), short(xs), len(ys), short(ys))
    left = list(ys)
    for x in xs:
        for i, y in enumerate(left):
            if differ(x, y) is None:
                del left[i]
                break
        else:
            return '%s: nothing matches %s in %s' % (path, short(x), short(left))
    return None


_CVAR = re.compile(r'_?(LIMIT|cvar)\d+_\d+$')


def same(expected, actual, what, *info):
    d = differ(expected, actual)
    if d:
        raise Violation('%s: %s%s' % (what, d, ''.join('\n  ' + short(i, 800) for i in info)))


def jdiffer(m, j, path='$'):
    """Compare a dump with the model."""
    if isinstance(m, OneOf):
        return None if type(j) is str and j in m.options else \
            '%s: expected %r, got %s' % (path, m, short(j))
    if isinstance(m, HashDict):
        return _jdiffer_hash(m, j, path)
    if isinstance(m, Bag):
        if type(j) is not list or len(m) != len(j):
            return '%s: expected the elements %s, got %s' % (path, short(m), short(j))
        left = list(j)
        for x in m:
            for i, y in enumerate(left):
                if jdiffer(x, y) is None:
                    del left[i]
                    break
            else:
                return '%s: nothing matches %s in %s' % (path, short(x), short(left))
        return None
    if type(m) is not type(j):
        return '%s: expected %s %s, got %s %s' % (
            path, type(m).__name__, short(m), type(j).__name__, short(j))
    if isinstance(m, list):
        if len(m) != len(j):
            return '%s: expected %d elements, got %s' % (path, len(m), short(j))
        for i, (x, y) in enumerate(zip(m, j)):
            d = jdiffer(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(m, dict):
        if len(m) != len(j):
            return '%s: expected keys %s, got %s' % (path, short(list(m)), short(list(j)))
        for k in m:
            kk = k
            if isinstance(k, OneOf):
                kk = next((o for o in k.options if o in j), None)
            if kk not in j:
                return '%s: no key %r in %s' % (path, k, short(j))
            if not isinstance(k, OneOf) and type(next(x for x in j if x == kk)) is not type(k):
                return '%s: key %r has another type in %s' % (path, k, short(j))
            d = jdiffer(m[k], j[kk], '%s[%r]' % (path, k))
            if d:
                return d
        return None
    if isinstance(m, float):
        return None if repr(m) == repr(j) else '%s: expected %r, got %r' % (path, m, j)
    return None if m == j else '%s: expected %s, got %s' % (path, short(m), short(j))


def _jdiffer_hash(m, j, path):
    if type(j) is not dict or type(j.get('-keys')) is not dict:
        return '%s: expected a dict with -keys, got %s' % (path, short(j))
    keys = j['-keys']
    rest = {k: v for k, v in j.items() if k != '-keys' and k not in keys}
    d = jdiffer(m.plain, rest, path)
    if d:
        return d
    if any(k not in j for k in keys) or len(keys) != len(m.hashed):
        return '%s: expected %d hashed keys, got %s' % (path, len(m.hashed), short(j))
    left = [(keys[k], j[k]) for k in keys]
    for mk, mv in m.hashed:
        for i, (jk, jv) in enumerate(left):
            if jdiffer(mk, jk) is None and jdiffer(mv, jv) is None:
                del left[i]
                break
        else:
            return '%s: nothing matches key %s in %s' % (path, short(mk), short(j))
    return None


def jsame(model, actual, what, *info):
    d = jdiffer(model, actual)
    if d:
        raise Violation('%s: %s%s' % (what, d, ''.join('\n  ' + short(i, 800) for i in info)))


def pure_json(o, path='$', keys=(str, int, float, bool, type(None))):
    """Raise unless o consists of nothing but JSON types, exactly."""
    if type(o) is dict:
        for k, v in o.items():
            require(type(k) in keys, '%s: key %s of type %s', path, short(k), type(k).__name__)
            pure_json(v, '%s[%r]' % (path, k), keys)
    elif type(o) is list:
        for i, v in enumerate(o):
            pure_json(v, '%s[%d]' % (path, i), keys)
    else:
        require(o is None or type(o) in (str, int, float, bool),
                '%s: %s is no JSON value but a %s', path, short(o), type(o).__name__)


# -- conformance --------------------------------------------------------------------

def conforms(w, t, o, path='$'):
    """None if o is an instance of the type; else what is wrong."""
    if isinstance(t, str):
        if t == 'any':
            return None
        want = ATOMS[t][1]
        if type(o) is want or (t == 'int' and type(o) is bool):
            return None
        return '%s: %s is no %s' % (path, short(o), t)
    k = t[0]
    if k == 'opt':
        return None if o is None else conforms(w, t[1], o, path)
    if k == 'union':
        errs = [conforms(w, a, o, path) for a in t[1]]
        return None if None in errs else '%s: %s fits no alternative of %s' % (path, short(o), w.src(t))
    if k == 'ref':
        d = w.defs[t[1]]
        if d['k'] == 'newtype':
            return conforms(w, d['t'], o, path)
        cls = w.objs[t[1]]
        if type(o) is not cls:
            return '%s: %s is no %s' % (path, short(o), d['n'])
        if d['k'] == 'enum':
            return None
        for n, ft, df in w.fields(t[1]):
            if not hasattr(o, n):
                if d['k'] == 'cls' and d['style'] == 'late':
                    continue
                return '%s: %s has no attribute %s' % (path, short(o), n)
            e = conforms(w, ft, getattr(o, n), '%s.%s' % (path, n))
            if e:
                if df and differ(getattr(o, n), w.value(ft, df[0])) is None:
                    continue
                return e
        return None
    rt = w.runtime_type(t)
    if type(o) is not rt:
        return '%s: %s is no %s' % (path, short(o), rt.__name__)
    if k in SEQ_KINDS:
        for i, x in enumerate(o):
            e = conforms(w, t[1], x, '%s[%d]' % (path, i))
            if e:
                return e
    elif k in ('tuple', 'btuple'):
        for i, (a, x) in enumerate(zip(t[1], o)):
            e = conforms(w, a, x, '%s[%d]' % (path, i))
            if e:
                return e
    elif k in DICTS:
        for a, b in o.items():
            e = (conforms(w, t[1], a, '%s(key %s)' % (path, short(a, 40)))
                 or conforms(w, t[2], b, '%s[%s]' % (path, short(a, 40))))
            if e:
                return e
        if k == 'ddict':
            return _factory_error(w.type(t[2]), o.default_factory, path)
    return None


def _factory_error(T, factory, path):
    """What is wrong with the default factory of a DefaultDict[..., T]."""
    try:
        expected = T()
    except Exception:
        return None    # (There is no such thing as a default T.)
    try:
        got = factory()
    except Exception as err:
        return '%s: the default factory is %s (%s)' % (path, short(factory), err)
    return None if type(got) is type(expected) else '%s: the default factory makes %s' % (path, short(got))


def union_args(t):
    return t[1]


def plain(m):
    """The JSON of a model, as JSON text would hold it (string keys)."""
    if isinstance(m, OneOf):
        return m.options[0]
    if isinstance(m, HashDict):
        res = {_key_text(k): plain(v) for k, v in m.plain.items()}
        if m.hashed:
            res['-keys'] = {}
            for i, (mk, mv) in enumerate(m.hashed):
                res['-keys'][str(770000 + i)] = plain(mk)
                res[str(770000 + i)] = plain(mv)
        return res
    if isinstance(m, dict):
        return {_key_text(k): plain(v) for k, v in m.items()}
    if isinstance(m, list):
        return [plain(x) for x in m]
    return m


def _key_text(k):
    if isinstance(k, OneOf):
        return k.options[0]
    if k is True or k is False or k is None:
        return {True: 'true', False: 'false', None: 'null'}[k]
    if isinstance(k, float):
        return float.__repr__(k)
    return k if isinstance(k, str) else str(k)


def subvalues(j):
    yield j
    if isinstance(j, dict):
        for k, v in j.items():
            yield k
            yield from subvalues(v)
    elif isinstance(j, list):
        for v in j:
            yield from subvalues(v)


def strict_eq(a, b):
    """Equality of JSON values with exact types and key order."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(
            type(x) is type(y) for x, y in zip(a, b)) and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b
