"""Generators of definitions, types and values (all JSON-able)."""
import string

from hypothesis import strategies as st

CLASS_NAMES = ['Foo', 'Bar', 'Person', 'Node', 'Reunion', 'OptionalThing', 'ListLike', 'List',
               'Datetime', 'DictOf', 'MyEnum', 'Tuple_', 'Str', 'Int', 'A', 'Union_', 'SetOfX',
               'NoneThing', 'Payload', 'Mapping', 'Any_', 'Iterable', 'Color', 'Object', 'Type',
               'Config', 'B2', 'Deque', 'Path', 'Decimal_', '_Foo', '_Hidden', 'Foo_']
FIELDS = ['a', 'b', 'c', 'name', 'value', 'id', 'count_', 'my_attr', 'some_thing', 'x1', 'created_at',
          'real', 'imag', 'offset', 'key', 'type', 'data', 'someThing', 'n_items']
ODD_FIELDS = ['load', 'dump', 'json', 'dumps', 'loads', 'cls', 'obj', 'strict', 'types', 'verbose',
              'tasks', 'source', 'target', 'message', 'key_transformer', 'fork_inst',
              'attr_getters', 'args', 'kwargs', '_priv', '_hidden_one', 'x_', 'items', 'keys',
              'values', 'get', 'classes', 'self', 'self_', 'T', 'Upper', 'camelCase', 'meta_hints',
              'fork', 'with_dump', 'from_json', 'strip_nulls', 'sig_key', 'hint', 'update',
              'été', '变量', 'initial', 'jdkwargs', 'use_enum_name', 'strip_attr']
SER_RESERVED = {'load', 'dump', 'json', 'dumps', 'loads', 'dumpb', 'loadb', 'fork', 'with_dump',
                'with_load', 'from_json', 'set_serializer', 'set_deserializer'}
STRINGS = ['', ' ', '0', '1', '-1', '1.5', 'true', 'True', 'None', 'null', 'nan', '2020-01-01',
           '2020-01-01T00:00:00Z', '2018-10-04T21:57:00+02:00', '10:20:30', 'real', '{}', '[]',
           '{"a": 1}', 'jsons', 'a.b', 'Z', 'T', '-', '_', 'x' * 120, 'été', '\u2028', '\x00',
           '"', '\\', '\\u0041', '😀', 'int', 'builtins.str', '00000000-0000-0000-0000-000000000000',
           '1e5', '+5', ' 7 ', '0x10', 'A', 'B', '/', '//', '..', 'Infinity']
BAD_KEYS = ('-keys', '-meta', '-cls')

S_TEXT = st.one_of(st.text(max_size=8), st.sampled_from(STRINGS),
                   st.text(st.characters(codec='utf-8'), max_size=30))
S_INT = st.one_of(st.integers(-9, 9), st.integers(-2**40, 2**40), st.integers(),
                  st.sampled_from([2**31 - 1, 2**31, -2**31, 2**53, 2**53 + 1, 2**63 - 1, 2**63,
                                   -2**63, 2**64, 10**18 + 1, 10**30, -10**40 - 7, 2**200]))
S_FLOAT = st.one_of(st.floats(allow_nan=False, allow_infinity=False),
                    st.floats(-1e6, 1e6), st.integers(-5, 5).map(float),
                    st.sampled_from([0.1, 1e16, 1e22, 1.5e300, 5e-324, -0.0, 0.30000000000000004,
                                     123456789.123456789, 2.0**53]))
S_BOOL = st.booleans()
ZONES = ['Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'UTC',
         'America/St_Johns', 'Pacific/Apia', 'Etc/GMT+5', 'Asia/Kathmandu']
S_OFFMIN = st.one_of(st.integers(-23 * 60 - 59, 23 * 60 + 59),
                     st.sampled_from([0, 60, -60, 330, -210, 345, -30, 30, -1, 1, -59, 59, 720, -720]))


@st.composite
def s_date(draw, lo=1, hi=9999):
    y = draw(st.one_of(st.integers(max(lo, 1900), min(hi, 2100)), st.integers(lo, hi),
                       st.sampled_from([lo, hi, max(lo, min(hi, 1970)), max(lo, min(hi, 2000))])))
    m = draw(st.integers(1, 12))
    last = [31, 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28,
            31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    d = draw(st.one_of(st.integers(1, last), st.just(last), st.just(1)))
    return [y, m, d]


S_US = st.one_of(st.just(0), st.integers(0, 999999),
                 st.sampled_from([1, 10, 100, 1000, 100000, 120000, 999999, 500000]))


@st.composite
def s_time(draw):
    return [draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(S_US)]


S_DATE = s_date()
S_TIME = s_time()
S_DATE_MID = s_date(2, 9998)
S_TZ_AWARE = st.one_of(st.just('UTC'), S_OFFMIN)


@st.composite
def s_datetime(draw, tz=S_TZ_AWARE, date=S_DATE_MID):
    return draw(date) + draw(S_TIME) + [draw(tz)]


S_DATETIME = s_datetime()
S_TIMEDELTA = st.one_of(
    st.tuples(st.integers(-20000, 20000), st.integers(0, 86399), S_US),
    st.tuples(st.integers(-1, 1), st.integers(0, 86399), S_US),
    st.tuples(st.just(0), st.just(0), st.integers(-999999, 999999))).map(list)
S_TIMEZONE = st.tuples(
    st.one_of(S_OFFMIN.map(lambda m: m * 60), st.integers(-86399, 86399)),
    st.one_of(st.none(), st.sampled_from(['UTC', 'CET', 'X', '', 'UTC+00:00', 'Z', 'été']))).map(list)
S_DECIMAL = st.one_of(
    st.decimals(allow_nan=False, allow_infinity=False).map(str),
    st.sampled_from(['0', '0.0', '-0', '1.10', '1E+5', '1e-400', '123456789012345678901234567890.123',
                     '0.1', '-7', '1E+3']))
S_UUID = st.one_of(st.integers(0, 2**128 - 1), st.sampled_from([0, 1, 2**128 - 1]))
S_COMPLEX = st.tuples(S_FLOAT, S_FLOAT).map(list)
_SEG = st.one_of(st.text(string.ascii_letters + string.digits + ' ._-é', min_size=1, max_size=6),
                 st.sampled_from(['a', '..', '.', '.hidden', 'a b', 'C']))


def _posix(parts, lead):
    return lead + '/'.join(parts)


S_PATH = st.tuples(st.lists(_SEG, max_size=4), st.sampled_from(['', '/', '//', './'])).map(
    lambda p: _posix(*p))
S_WINPATH = st.tuples(st.lists(_SEG.filter(lambda s: ':' not in s), max_size=3),
                      st.sampled_from(['', 'C:/', '/', 'c:', '//srv/share/'])).map(lambda p: _posix(*p))
S_ZONE = st.sampled_from(ZONES)
_JKEY = st.one_of(st.sampled_from(['a', 'b', 'x', 'name', 'key', '']), S_TEXT).filter(
    lambda k: k not in BAD_KEYS)
S_JSON_ATOM = st.one_of(st.none(), S_BOOL, S_INT, S_FLOAT, S_TEXT)
S_JSON = st.recursive(S_JSON_ATOM, lambda s: st.one_of(
    st.lists(s, max_size=4), st.dictionaries(_JKEY, s, max_size=4)), max_leaves=8)
S_JKEY = _JKEY

ATOM_VALUES = {
    'int': S_INT, 'float': S_FLOAT, 'str': S_TEXT, 'bool': S_BOOL, 'none': st.none(),
    'datetime': S_DATETIME, 'date': S_DATE, 'time': S_TIME, 'timedelta': S_TIMEDELTA,
    'timezone': S_TIMEZONE, 'zoneinfo': S_ZONE, 'decimal': S_DECIMAL, 'uuid': S_UUID,
    'complex': S_COMPLEX, 'path': S_PATH, 'winpath': S_WINPATH, 'any': S_JSON,
}
ATOMS_ALL = ['int', 'str', 'float', 'bool', 'datetime', 'date', 'time', 'timedelta', 'timezone',
             'zoneinfo', 'decimal', 'uuid', 'complex', 'path', 'winpath', 'none', 'any']
ATOMS_HASH = ['int', 'str', 'float', 'bool', 'datetime', 'date', 'time', 'decimal', 'uuid',
              'path', 'complex', 'timedelta', 'zoneinfo']
ATOMS_KEY_TEXT = ['str', 'str', 'int', 'float', 'datetime', 'date', 'time', 'decimal', 'uuid', 'path',
                  'complex', 'zoneinfo']
STYLES = ['data', 'data', 'data', 'init', 'init', 'both', 'attrs', 'slots', 'ser', 'late', 'kwonly']


class G:
    """Draws one case. Features are keyword arguments:

    max_defs, max_depth, styles, atoms, unions, hashed (dict keys that need
    hashing), text (JSON text will be made), odd (odd names), defaults."""

    def __init__(self, draw, max_defs=3, max_depth=3, styles=STYLES, atoms=ATOMS_ALL,
                 unions=True, hashed=True, text=False, odd=True, defaults=True,
                 recursive=True, enums=True, newtypes=True, nts=True, inherit=True,
                 containers=None, fields=None, max_fields=4, overrides=None, keys=None,
                 privates=True, max_len=4, subs=False, pep=True, inner=True, mods=True, abcs=True,
                 quals=True, cvars=False):
        self.draw = draw
        self.__dict__.update({k: v for k, v in locals().items() if k not in ('self', 'draw')})
        self.defs = []
        self.hashable = []
        self.rejecting = []    # classes that reject everything but their own dicts
        self.text_key = []
        self.overrides = overrides or {}

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, seq):
        return self.draw(st.sampled_from(seq))

    def chance(self, n):
        return self.draw(st.integers(0, n - 1)) == n - 1

    # -- definitions -----------------------------------------------------------
    def make_defs(self, n=None, kinds=None):
        n = self.i(0, self.max_defs) if n is None else n
        for _ in range(n):
            self.make_def(kinds)
        bases = [i for i, d in enumerate(self.defs) if d['k'] == 'cls']
        if self.inherit and kinds is None and bases and self.chance(4):
            self._def_cls(self.new_name(), base=self.pick(bases))
        return self.defs

    def new_name(self):
        used = {d['n'].lower() for d in self.defs}
        names = [c for c in CLASS_NAMES if c.lower() not in used]
        return self.pick(names if self.odd else [c for c in names if c in (
            'Foo', 'Bar', 'Person', 'Node', 'A', 'Payload', 'Color', 'Config', 'B2', 'MyEnum', '_Foo', 'Foo_')])

    def make_def(self, kinds=None):
        if kinds is None:
            kinds = ['cls', 'cls', 'cls', 'cls']
            if self.enums:
                kinds.append('enum')
            if self.newtypes:
                kinds.append('newtype')
            if self.nts:
                kinds.append('nt')
        kind = self.pick(kinds)
        name = self.new_name()
        return getattr(self, '_def_' + kind)(name)

    def _add(self, d, hashable, rejecting=False, text_key=False):
        self.defs.append(d)
        self.hashable.append(hashable)
        self.rejecting.append(rejecting)
        self.text_key.append(text_key)
        return len(self.defs) - 1

    def _def_enum(self, name):
        base = self.pick(['Enum', 'Enum', 'IntEnum', 'str', 'int'])
        names = self.draw(st.lists(st.sampled_from(
            ['A', 'B', 'C', 'RED', 'x', 'two_words', 'Z9', 'a', 'Foo', 'real', 'T']),
            min_size=1, max_size=4, unique=True))
        if base == 'Enum':
            vs = st.one_of(st.integers(-3, 9), st.sampled_from(['A', 'B', 'red', '', '1', 'x']),
                           st.floats(0.5, 3.5), st.none(), st.lists(st.integers(0, 3), max_size=2))
        elif base == 'str':
            vs = st.sampled_from(['A', 'B', 'C', 'red', '', '1', 'x', 'RED'])
        else:
            vs = st.integers(-3, 9)
        members = [[n, self.draw(vs)] for n in names]
        return self._add({'k': 'enum', 'n': name, 'base': base, 'm': members}, True, text_key=True)

    def _def_newtype(self, name):
        h = self.chance(2)
        t = self.pick([a for a in (ATOMS_HASH if h else self.atoms) if a not in ('any', 'none')
                       and a in self.atoms] or ['int'])
        if not h and self.defs and self.chance(2):
            refs = [i for i, d in enumerate(self.defs) if d['k'] in ('cls', 'enum')]
            if refs:
                r = self.pick(refs)
                return self._add({'k': 'newtype', 'n': name, 't': ['ref', r]}, self.hashable[r],
                                 self.rejecting[r])
        if not h and self.chance(3):
            t = ['list', self.pick(['int', 'str', 'date'])]
        return self._add({'k': 'newtype', 'n': name, 't': t}, isinstance(t, str) and t in ATOMS_HASH)

    def field_names(self, n, ban=(), nt=False, ser=False, attrs=False):
        pool = FIELDS + (ODD_FIELDS * (1 if self.odd else 0))
        if self.fields:
            pool = self.fields
        res = []
        for _ in range(n):
            ok = [f for f in pool if f not in res and f not in ban
                  and not (nt and f.startswith('_'))
                  and not (nt and f in ('count', 'index'))
                  and not (ser and f in SER_RESERVED)
                  and not (attrs and f == 'self')    # (attrs generates invalid code.)
                  and (self.privates or not f.startswith('_'))
                  and not (attrs and (f.lstrip('_') in [r.lstrip('_') for r in list(res) + list(ban)]
                                      or f == '_'))]
            if not ok:
                break
            res.append(self.pick(ok))
        return res

    def _def_nt(self, name):
        h = self.chance(2)
        names = self.field_names(self.i(1, self.max_fields), nt=True)
        fields = []
        seen_default = False
        for n in names:
            t = self.type(self.max_depth - 2, hashable=h)
            f = [n, t]
            if self.defaults and (seen_default or self.chance(4)):
                seen_default = True
                f.append([self.value(t)])
            fields.append(f)
        return self._add({'k': 'nt', 'n': name, 'f': fields}, h)

    def _def_cls(self, name, style=None, opts=None, base=None):
        if base is not None:
            style = self.defs[base]['style']
        style = style or self.pick(self.styles)
        d = {'k': 'cls', 'n': name, 'style': style, 'f': [], 'opts': dict(opts or {})}
        if style == 'kwonly':
            d['style'] = style = 'init'
            d['opts']['kw_only'] = True
        if base is None and self.inherit and self.defs and self.chance(3):
            cands = [i for i, b in enumerate(self.defs) if b['k'] == 'cls' and b['style'] == style]
            if cands:
                base = self.pick(cands)
        bopts = self.defs[base]['opts'] if base is not None else None
        frozen = False
        if style in ('data', 'attrs', 'ser'):
            frozen = bopts.get('frozen', False) if bopts is not None else self.chance(4)
            if frozen:
                d['opts']['frozen'] = True
        if style == 'data' and base is None and self.chance(5):
            d['opts']['slots'] = True
        if style == 'data' and self.chance(5):
            d['opts']['kw_only'] = True
        if self.chance(4):
            d['opts']['str'] = True
        if self.inner and style not in ('slots',) and self.chance(8):
            d['opts']['inner'] = self.pick(['Meta', 'Inner', 'Config_'])
        if self.abcs and base is None and self.chance(8):
            d['opts']['abc'] = True
        if self.mods and base is not None and self.chance(4):
            d['opts']['mod'] = True
        inherited = []
        b = base
        while b is not None:
            inherited += self.defs[b]['f']
            b = self.defs[b].get('base')
        base_default = any(len(f) > 2 and f[2] for f in inherited)
        if base is not None:
            d['base'] = base
        hashable = frozen and style == 'data' and (base is None or self.hashable[base]) and self.chance(2)
        names = self.field_names(self.i(0 if base is not None else 1, self.max_fields),
                                 ban=[f[0] for f in inherited], ser=style == 'ser',
                                 attrs=style == 'attrs')
        seen_default = base_default
        self_idx = len(self.defs)
        rejecting = style not in ('late',) and base is not None and self.rejecting[base]
        for n in names:
            t = None
            if (self.recursive and style in ('data', 'init', 'both') and not hashable
                    and not seen_default and self.chance(8)):
                me = ['ref', self_idx]
                t = self.pick([['opt', me], ['list', me], ['dict', 'str', me]])
                d['rec'] = True
            if t is None:
                t = self.type(self.max_depth - 1, hashable=hashable)
            f = [n, t]
            if (self.defaults and style != 'late' and not d.get('opts', {}).get('slots')
                    and style != 'slots' and not d.get('rec')
                    and (seen_default or self.chance(4))):
                seen_default = True
                f.append([self.value(t)])
            elif style != 'late' and not self.nullable(t):
                rejecting = True
            d['f'].append(f)
        if seen_default and any(len(f) == 2 for f in d['f']):
            # A required field after one with a default.
            d['f'].sort(key=len)
            if base_default:
                d['opts']['kw_only'] = True
                if style == 'attrs' or style == 'ser':
                    d['f'] = [f if len(f) > 2 else f + [[self.value(f[1])]] for f in d['f']]
                    d['opts'].pop('kw_only')
        if d['opts'].get('kw_only') and style in ('attrs', 'ser', 'late', 'slots'):
            d['opts'].pop('kw_only')
        if (d['opts'].get('kw_only') and style == 'data' and self.quals and self.chance(2)
                and '_' not in [f[0] for f in inherited + d['f']]):
            d['opts']['kw_only'] = 'marker'
        if style == 'slots' and self.chance(2):
            d['opts']['bareslot'] = True
        if self.quals and style in ('data', 'both', 'late') and self.chance(5):
            d['opts']['qual'] = self.pick(['Final', 'Annotated'])
        root = bopts or d['opts']
        if self.cvars and not (root.get('frozen') and root.get('slots')) and self.chance(3):
            # (CPython: no attribute of a frozen class with slots can be set, TypeError.)
            d['opts']['cvars'] = self._cvars(d, style)
        return self._add(d, hashable, rejecting)

    def _cvars(self, d, style):
        res = []
        for n in range(self.i(1, 2)):
            name = self.pick(['LIMIT%d_%d', 'cvar%d_%d'] + ['_cvar%d_%d'] * (style != 'attrs' and self.privates))
            kind = self.pick(['ClassVar'] * 3 + ['bare'] + ['InitVar', 'InitOpt'] * 2 * (
                style == 'data' and not d['opts'].get('slots')))
            t = (self.pick(['int', 'str', 'bool']) if kind == 'bare' else self.type(1)
                 if kind == 'ClassVar' else self.pick([a for a in self.atoms if a != 'any']))
            res.append([name % (len(self.defs), n), t, self.value(t), kind])
        return res

    def nullable(self, t):
        if isinstance(t, str):
            return t in ('none', 'any')
        if t[0] == 'opt':
            return True
        if t[0] == 'union':
            return any(self.nullable(a) for a in t[1])
        return False

    # -- types --------------------------------------------------------------------
    def type(self, depth=None, hashable=False, ban=(), key=False):
        depth = self.max_depth if depth is None else depth
        if key:
            return self.key_type(depth)
        refs = [i for i, d in enumerate(self.defs) if not hashable or self.hashable[i]]
        kinds = ['atom'] * 4
        if refs:
            kinds += ['ref'] * 4
        if depth > 0:
            if hashable:
                kinds += ['tuple', 'frozenset', 'vtuple', 'opt']
            else:
                kinds += self.containers or (
                    ['list', 'list', 'dict', 'dict', 'opt', 'opt', 'tuple', 'vtuple', 'set',
                     'frozenset', 'deque', 'seq', 'iter', 'mapping', 'odict', 'ddict', 'blist',
                     'bdict', 'btuple', 'bset', 'mmapping'] + (['union'] if self.unions else []))
        k = self.pick(kinds)
        if k == 'atom':
            pool = [a for a in (ATOMS_HASH if hashable else self.atoms)
                    if a not in ban and a in self.atoms]
            return self.pick(pool or ['int'])
        if k == 'ref':
            return ['ref', self.pick(refs)]
        if k == 'opt':
            if hashable:
                return self.type(depth - 1, True)
            return ['opt', self.type(depth - 1, hashable, ban=('none', 'any'))] + self.pepped()
        if k == 'union':
            return self.safe_union(depth - 1)
        if k in ('tuple', 'btuple'):
            n = self.i(0 if k == 'tuple' and not hashable else 1, 3)
            return [k, [self.type(depth - 1, hashable) for _ in range(n)]]
        if k in ('set', 'frozenset', 'bset'):
            return [k, self.type(depth - 1, True)]
        if k in ('dict', 'bdict', 'odict', 'ddict', 'mapping', 'mmapping'):
            return [k, self.key_type(depth - 1), self.type(depth - 1)]
        return [k, self.type(depth - 1, hashable)]

    def key_type(self, depth):
        if self.keys:
            return self.pick(self.keys)
        k = self.i(0, 9)
        if k < 4:
            return 'str'
        refs = [i for i, d in enumerate(self.defs) if self.text_key[i]]
        if k < 6 and refs:
            return ['ref', self.pick(refs)]
        if k < 8 or not self.hashed:
            pool = [a for a in (ATOMS_KEY_TEXT if self.text else ATOMS_HASH) if a in self.atoms]
            if not self.hashed:
                pool = [a for a in pool if a not in ('complex', 'zoneinfo')]
            return self.pick(pool or ['str'])
        # keys that must be hashed
        refs = [i for i, d in enumerate(self.defs) if self.hashable[i] and d['k'] in ('cls', 'nt')]
        if refs and self.chance(2):
            return ['ref', self.pick(refs)]
        return self.pick([['tuple', ['int', 'str']], ['tuple', ['str']], ['vtuple', 'int'],
                          'complex', ['frozenset', 'str'], ['tuple', ['date', 'bool']], 'zoneinfo'])

    def safe_union(self, depth):
        """A union of which each value's JSON is taken by its own alternative."""
        alts = []
        groups = self.draw(st.lists(st.sampled_from(['dict', 'list', 'num', 'txt', 'str', 'none']),
                                    min_size=2, max_size=4, unique=True))
        groups.sort(key=lambda g: ['num', 'txt', 'dict', 'list', 'none', 'str'].index(g))
        for g in groups:
            if g == 'num':
                alts.append(self.pick(['int', 'float', 'timedelta']))
            elif g == 'txt':
                alts.append(self.pick(['datetime', 'date', 'uuid']))
            elif g == 'dict':
                refs = [i for i in range(len(self.defs))
                        if self.rejecting[i] and self.defs[i]['k'] == 'cls']
                if refs and not self.chance(3):
                    alts.append(['ref', self.pick(refs)])
                else:
                    alts.append(['dict', 'str', self.pick(['int', 'float', 'date'])])
            elif g == 'list':
                alts.append([self.pick(['list', 'vtuple', 'deque']), self.pick(['int', 'float', 'date'])])
            elif g == 'none':
                alts.append('none')
            else:
                alts.append('str')
        alts = [a for a in alts if not isinstance(a, str) or a in self.atoms or a == 'none']
        if len(alts) < 2:
            alts = ['int', 'str']
        return ['union', alts] + self.pepped()

    def pepped(self):
        return ['pep'] if self.pep and self.chance(4) else []

    # -- values ---------------------------------------------------------------------
    def size(self, hi=None):
        hi = self.max_len if hi is None else hi
        return self.i(0, hi)

    def atom(self, t):
        return self.draw(self.overrides.get(t) or ATOM_VALUES[t])

    def value(self, t, depth=4, in_union=False):
        if isinstance(t, str):
            if t == 'str' and in_union:
                return 's:' + self.draw(st.text(max_size=5))
            return self.atom(t)
        k = t[0]
        if k == 'opt':
            return None if self.chance(4) or depth < -2 else self.value(t[1], depth)
        if k == 'union':
            i = self.i(0, len(t[1]) - 1)
            return [i, self.value(t[1][i], depth, in_union=True)]
        if k in ('tuple', 'btuple'):
            return [self.value(a, depth - 1) for a in t[1]]
        if k in ('dict', 'bdict', 'odict', 'ddict', 'mapping', 'mmapping'):
            n = self.size() if depth > 0 else 0
            keys = [self.key_value(t[1], depth - 1) for _ in range(n)]
            return [[a, self.value(t[2], depth - 1)] for a in keys]
        if k == 'ref':
            return self.ref_value(t[1], depth)
        n = self.size() if depth > 0 else 0
        return [self.value(t[1], depth - 1) for _ in range(n)]

    def key_value(self, t, depth):
        if t == 'str':
            return self.draw(S_JKEY)
        return self.value(t, depth)

    def ref_value(self, i, depth):
        d = self.defs[i]
        if d['k'] == 'enum':
            return self.i(0, len(d['m']) - 1)
        if d['k'] == 'newtype':
            return self.value(d['t'], depth)
        if self.subs and d['k'] == 'cls' and self.chance(2):
            j = self.pick([i] + [k for k in range(len(self.defs))
                                 if self.defs[k]['k'] == 'cls' and i in self.bases(k)
                                 and (self.hashable[k] or not self.hashable[i])])
            if j != i:
                return {'sub': j, 'v': self.plain_value(j, depth)}
        return self.plain_value(i, depth)

    def bases(self, i):
        res = []
        i = self.defs[i].get('base')
        while i is not None:
            res.append(i)
            i = self.defs[i].get('base')
        return res

    def plain_value(self, i, depth):
        d = self.defs[i]
        chain = []
        b = i
        while b is not None:
            chain.insert(0, self.defs[b]['f'])
            b = self.defs[b].get('base')
        rec = 2 if d.get('rec') else 1
        return [self.value(f[1], depth - rec) for fs in chain for f in fs]


def case_strategy(builder):
    """Turn a function of (draw) into a strategy."""
    @st.composite
    def strat(draw):
        return builder(draw)
    return strat


def typed(**features):
    """Strategy of {"defs", "type", "value"}."""
    ref_first = features.pop('ref_first', 3)

    @st.composite
    def strat(draw):
        g = G(draw, **features)
        g.make_defs()
        if g.defs and g.i(0, ref_first) > 0:
            t = ['ref', len(g.defs) - 1]
        else:
            t = g.type()
        return {'defs': g.defs, 'type': t, 'value': g.value(t)}
    return strat()


# -- JSON near a type ----------------------------------------------------------------

S_SMALL_JSON = st.one_of(
    S_JSON_ATOM, st.sampled_from([[], {}, [[]], [None], {'a': None}, [1, 'a'], {'a': 1, 'b': 'x'},
                                  'not a date', '2020-13-45', '25:61:61', '10:20', '5', 'nan',
                                  {'real': 'x', 'imag': 1}, {'real': 1}, {'key': 'Nowhere/City'},
                                  {'name': 'X', 'offset': 'a'}, {'-keys': {}}, {'-keys': {'1': [1]}},
                                  {'-keys': 5}, {'-meta': {}}, {'-meta': None}, {'-meta': {'classes': {}}},
                                  {'-meta': {'classes': {'/': 'no.such.Class'}}}, 1e400, -1, 10**400,
                                  True, False, [True], [0.5], 'Z', '.', '2020-01-01T00:00:00.Z']), S_JSON)


def mutate(draw, j, n=None):
    """Change up to a few places of a JSON value."""
    n = draw(st.sampled_from([0, 1, 1, 1, 2, 3])) if n is None else n
    for _ in range(n):
        j = _mutate_once(draw, j)
    return j


def _paths(j, path=(), out=None):
    out = [] if out is None else out
    if len(out) > 60:
        return out
    out.append(path)
    if isinstance(j, dict):
        for k in j:
            _paths(j[k], path + (k,), out)
    elif isinstance(j, list):
        for i in range(len(j)):
            _paths(j[i], path + (i,), out)
    return out


def _at(j, path, fn):
    if not path:
        return fn(j)
    if isinstance(j, dict):
        return {k: (_at(v, path[1:], fn) if k == path[0] else v) for k, v in j.items()}
    return [(_at(v, path[1:], fn) if i == path[0] else v) for i, v in enumerate(j)]


def _mutate_once(draw, j):
    paths = _paths(j)
    path = draw(st.sampled_from(paths))
    what = draw(st.sampled_from(['replace', 'replace', 'null', 'drop', 'add', 'wrap', 'tweak', 'swap']))

    def fn(x):
        if what == 'null':
            return None
        if what == 'wrap':
            return draw(st.sampled_from([[x], {'a': x}, [x, x]]))
        if what == 'swap':
            other = draw(st.sampled_from(paths))
            y = j
            for p in other:
                y = y[p]
            return y
        if what == 'drop':
            if isinstance(x, dict) and x:
                k = draw(st.sampled_from(list(x)))
                return {a: b for a, b in x.items() if a != k}
            if isinstance(x, list) and x:
                i = draw(st.integers(0, len(x) - 1))
                return x[:i] + x[i + 1:]
            return None
        if what == 'add':
            if isinstance(x, dict):
                return {**x, draw(st.sampled_from(FIELDS + ['-keys', '-meta', 'zzz', '1'])):
                        draw(S_SMALL_JSON)}
            if isinstance(x, list):
                return x + [draw(S_SMALL_JSON)]
        if what == 'tweak':
            if isinstance(x, str):
                return draw(st.sampled_from([x + 'x', x[1:], x[:-1], x.upper(), x + 'Z', ' ' + x,
                                             x.replace('-', '/'), x.replace('0', '9')]))
            if isinstance(x, bool):
                return int(x)
            if isinstance(x, int):
                return draw(st.sampled_from([float(x) if abs(x) < 2**1000 else 0.5, str(x), -x,
                                             x + 1, bool(x)]))
            if isinstance(x, float):
                return draw(st.sampled_from([str(x), -x, 1e300, 0]))
        return draw(S_SMALL_JSON)
    return _at(j, path, fn)


def json_for(mutated=True, **features):
    """Strategy of {"defs", "type", "json"}: JSON of a value of the type, a
    mutation of it, or any JSON."""
    features.setdefault('text', True)

    @st.composite
    def strat(draw):
        from jv import world
        g = G(draw, **features)
        g.make_defs()
        t = ['ref', len(g.defs) - 1] if g.defs and g.i(0, 2) else g.type()
        how = g.i(0, 5) if mutated else 1
        if how == 0:
            j = draw(S_SMALL_JSON)
        else:
            v = g.value(t)
            world.reset()
            j = world.plain(world.World(g.defs).model(t, v))
            if mutated:
                j = mutate(draw, j)
        return {'defs': g.defs, 'type': t, 'json': j}
    return strat()
