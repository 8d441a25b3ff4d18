"""C23: Results do not depend on what was processed before."""
import dataclasses
import datetime as dt
import enum
import random
import re
import sys
import threading
import types
import typing
import warnings

from hypothesis import assume, strategies as st

import jsons
import jsons.decorators
from jv import world
from jv.common import Raised, TRANSFORMERS, attempt, in_child
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, S_SMALL_JSON, mutate
from jv.world import World, attrs_of, plain


def describe(o):
    # (Of verbose dumps, the time of the dump is not of interest.)
    return re.sub('''(['"])([Dd]ump[-_]?[Tt]ime)\\1: ['"][^'"]*['"]''', r'\2', _describe(o))


def _describe(o, depth=0):
    """Everything there is to know about a result, as text."""
    if depth > 40:
        return '...'
    d = lambda x: _describe(x, depth + 1)
    T = type(o)
    name = '%s.%s' % (T.__module__, T.__qualname__)
    if isinstance(o, Raised):
        return 'raises %s: %s' % (o.cls.__name__, o.msg)
    if isinstance(o, enum.Enum):
        return '%s.%s' % (name, o.name)
    if T in (str, int, float, bool, type(None)):
        return repr(o)
    if isinstance(o, dict):
        return '%s{%s}' % ('' if T is dict else name, ', '.join('%s: %s' % (d(k), d(v)) for k, v in o.items()))
    if isinstance(o, (set, frozenset)):
        return '%s(%s)' % (name, ', '.join(sorted(d(x) for x in o)))
    if hasattr(o, '_fields'):
        return '%s(%s)' % (name, ', '.join(d(x) for x in o))
    if isinstance(o, (list, tuple)) or name == 'collections.deque':
        return '%s[%s]' % ('' if T is list else name, ', '.join(d(x) for x in o))
    if T.__module__.startswith('jv'):
        return '%s(%s)' % (name, ', '.join('%s=%s' % (n, d(getattr(o, n))) for n in sorted(attrs_of(o))))
    return '%s(%s)' % (name, re.sub('0x[0-9a-f]{6,}', '0x', repr(o)))


# -- histories ---------------------------------------------------------------------------

class Prepared:
    """All classes, types, values of a case; nothing is given to the library."""

    def __init__(self, case):
        self.calls = []
        worlds = []
        saved = world._module
        try:
            for i, w in enumerate(case['worlds']):
                mod = types.ModuleType('jv_dyn%d' % i)
                mod.__dict__.update(world._BASE_NS, __name__=mod.__name__)
                sys.modules[mod.__name__] = mod
                world._module = mod
                worlds.append((mod, World(w['defs']), w))
            for spec in case['calls']:
                mod, w, src = worlds[spec['w']]
                world._module = mod
                # (typing itself confuses unions of another order.)
                for cleanup in getattr(typing, '_cleanups', ()):
                    cleanup()
                self.calls.append(self.prepare(w, src, spec))
        finally:
            world._module = saved

    def prepare(self, w, src, spec):
        t = src['types'][spec['t']]
        T = w.type(t['type'])
        k = spec['k']
        opts = dict(spec['opts'])
        if 'key_transformer' in opts:
            opts['key_transformer'] = TRANSFORMERS[opts['key_transformer']]
        v = w.value(t['type'], t['value']) if k not in ('load', 'loads', 'untyped', 'transform', 'deco') else None
        j = spec.get('json')
        if k == 'dump':
            return lambda: jsons.dump(v, **opts)
        if k == 'dumpas':
            return lambda: jsons.dump(v, T, **opts)
        if k == 'dumps':
            return lambda: jsons.dumps(v, **opts)
        if k == 'load':
            return lambda: jsons.load(j, T, **opts)
        if k == 'loads':
            return lambda: jsons.loads(world_text(j), T, **opts)
        if k == 'untyped':
            return lambda: jsons.load(j)
        if k == 'verbose':
            return lambda: jsons.load(jsons.dump(v, verbose=jsons.Verbosity.WITH_CLASS_INFO, **opts))
        if k == 'round':
            return lambda: jsons.load(jsons.dump(v, T), T)
        if k == 'transform':
            return lambda: jsons.transform(j, T)
        if k == 'fork':
            def fork():
                f = jsons.fork()
                jsons.set_serializer(lambda o, **_: 'forked', type(v), fork_inst=f)
                jsons.set_deserializer(lambda o, cls=None, **_: 'forked', type(v), fork_inst=f)
                return [jsons.dump([v], fork_inst=f), jsons.dump([v])]
            return fork

        def deco():
            def f(x):
                return [x]
            f.__annotations__['x'] = T
            return jsons.decorators.loaded(returnvalue=False)(f)(j)
        return deco

    def run(self, i):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            res = describe(attempt(self.calls[i]))
        return res + ''.join(sorted('\n(warning: %s)' % w.message for w in rec))


def world_text(j):
    import json
    return json.dumps(j)


def check_history(case, ctx):
    prep = Prepared(case)
    calls = case['calls']
    names = [d['n'] for w in case['worlds'] for d in w['defs']]
    ctx.interesting(len(calls) > 2 and len({(c['w'], c['t']) for c in calls}) > 1)
    if len(set(names)) < len(names):
        ctx.label('equal names')
    history = in_child(lambda: [prep.run(i) for i in range(len(calls))])
    done = {}
    for i, c in enumerate(calls):
        key = repr(c)
        if key not in done:
            done[key] = in_child(lambda: prep.run(i))
        ctx.label(c['k'], 'raises' if done[key].startswith('raises') else 'returns')
        if history[i] != done[key]:
            raise Violation('call %d of the history gives\n    %s\n  and alone\n    %s\n  the history: %s\n  the types: %s' % (
                i, history[i], done[key], calls[:i + 1],
                [[t['type'] for t in w['types']] + [d for d in w['defs']] for w in case['worlds']]))


def check_threads(case, ctx):
    prep = Prepared(case)
    calls = case['calls']
    ctx.interesting(len({(c['w'], c['t']) for c in calls}) > 1)

    def together():
        sys.setswitchinterval(1e-5)
        res = {}
        barrier = threading.Barrier(case['threads'])

        def work(n):
            order = list(range(len(calls)))
            order = order[n % len(order):] + order[:n % len(order)]
            barrier.wait()
            for _ in range(2):
                for i in order:
                    res.setdefault(i, set()).add(describe(attempt(prep.calls[i])))
        threads = [threading.Thread(target=work, args=(n,)) for n in range(case['threads'])]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        return res

    def single():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return [describe(attempt(c)) for c in prep.calls]
    want = in_child(single)
    got = in_child(together)
    for i, c in enumerate(calls):
        ctx.label(c['k'])
        require(got.get(i) == {want[i]}, 'call %s in several threads gives\n    %s\n  and alone\n    %s', c,
                '\n    '.join(sorted(got.get(i, ()))), want[i])


S_OPTS_DUMP = st.fixed_dictionaries({}, optional={
    'strip_nulls': st.just(True), 'strip_privates': st.just(True), 'strip_class_variables': st.just(True),
    'strip_properties': st.just(True), 'use_enum_name': st.just(False), 'strip_microseconds': st.just(False),
    'strict': st.just(True), 'verbose': st.booleans()})
S_OPTS_LOAD = st.fixed_dictionaries({}, optional={
    'strict': st.just(True), 'use_enum_name': st.booleans(), 'warn_on_fail': st.just(True)})


def permuted(t):
    """The same type with its unions the other way around."""
    if isinstance(t, list):
        if t and t[0] == 'union':
            return ['union', [permuted(x) for x in reversed(t[1])]]
        return [permuted(x) for x in t]
    return t


def s_calls(kinds, low, high):
    @st.composite
    def strat(draw):
        i = lambda a, b: draw(st.integers(a, b))
        worlds = []
        for n in range(i(1, 3)):
            g = G(draw, max_defs=3, max_depth=2, text=True, odd=i(0, 3) == 0, hashed=False,
                  containers=None)
            g.make_defs()
            ts = []
            for _ in range(i(1, 3)):
                t = ['ref', i(0, len(g.defs) - 1)] if g.defs and i(0, 2) else g.type()
                v = g.value(t)
                ts.append({'type': t, 'value': v})
                if 'union' in repr(t):
                    ts.append({'type': permuted(t), 'value': None, 'like': len(ts) - 1})
            if i(0, 2) == 0:
                a, b = g.pick(['int', 'float', 'bool', 'str']), g.pick(['str', 'date', 'uuid', 'decimal', 'datetime', 'int'])
                if a != b:
                    for t in (['union', [a, b]], ['union', [b, a]], ['blist', ['union', [a, b]]], ['blist', ['union', [b, a]]],
                              ['dict', 'str', ['union', [b, a]]], ['opt', ['blist', ['union', [b, a]]]]):
                        ts.append({'type': t, 'value': None, 'pool': [1, '1', '5', 1.5, '2020-01-02', [1, '2'], ['5', 2], {'a': '1'}]})
            worlds.append({'defs': g.defs, 'types': ts})
        if len(worlds) > 1 and i(0, 1) == 0:
            # Twice the same names, with other contents.
            a, b = worlds[0]['defs'], worlds[1]['defs']
            taken = {d['n'].lower() for d in b[len(a):]}
            for x, y in zip(a, b):
                if x['n'].lower() not in taken:
                    y['n'] = x['n']
            assume(all(len({d['n'].lower() for d in w['defs']}) == len(w['defs']) for w in worlds))
        jsons_ = {}
        for wi, w in enumerate(worlds):
            world.reset()
            ww = World(w['defs'])
            for ti, t in enumerate(w['types']):
                if 'like' in t:
                    o = w['types'][t['like']]
                    pool = [plain(ww.model(o['type'], o['value']))]
                elif 'pool' in t:
                    pool = t['pool']
                else:
                    pool = [plain(ww.model(t['type'], t['value']))]
                jsons_[wi, ti] = pool
        calls = []
        for _ in range(i(low, high)):
            if calls and i(0, 4) == 0:
                calls.append(dict(draw(st.sampled_from(calls))))
                continue
            wi = i(0, len(worlds) - 1)
            ti = i(0, len(worlds[wi]['types']) - 1)
            t = worlds[wi]['types'][ti]
            k = draw(st.sampled_from(kinds))
            if t['value'] is None and k not in ('load', 'loads', 'untyped', 'transform', 'deco'):
                if t['type'] != 'none':
                    k = 'load'
            c = {'w': wi, 't': ti, 'k': k, 'opts': {}}
            if k in ('load', 'loads', 'untyped', 'transform', 'deco'):
                j = draw(st.sampled_from(jsons_[wi, ti]))
                if i(0, 2) == 0:
                    j = mutate(draw, j, 1)
                elif i(0, 5) == 0:
                    j = draw(st.sampled_from(jsons_[wi, i(0, len(worlds[wi]['types']) - 1)]))
                c['json'] = j
                if k in ('load', 'loads'):
                    c['opts'] = draw(S_OPTS_LOAD)
            elif k in ('dump', 'dumpas', 'dumps'):
                c['opts'] = draw(S_OPTS_DUMP)
            calls.append(c)
        return {'worlds': worlds, 'calls': calls, 'threads': i(2, 4)}
    return strat()


KINDS = ['load', 'load', 'load', 'loads', 'dump', 'dump', 'dumpas', 'dumps', 'untyped', 'verbose', 'round', 'transform',
         'fork', 'deco']


# -- re-entrant calls ----------------------------------------------------------------------

class Hook:
    """What the generated callbacks do besides their work."""
    ops = ()
    active = False
    count = 0


def busy():
    if not Hook.active:
        return
    Hook.active = False
    try:
        for op in Hook.ops:
            Hook.count += 1
            try:
                INNER[op]()
            except jsons.JsonsError:
                pass
    finally:
        Hook.active = True


class Shade(enum.Enum):
    DARK = 'dark'
    LIGHT = 'light'


class Key:
    """Handled by registered functions."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Key and self.n == other.n


@dataclasses.dataclass
class Leaf:
    n: int
    some_name: typing.Optional[str] = None

    @property
    def prop_value(self):
        busy()
        return self.n + 1


class Plain:
    def __init__(self, a_value: int, when: dt.datetime = None):
        busy()
        self.a_value = a_value
        self.when = when
        self._secret = 'x'


class Base:
    CLS_VAR = 7
    base_attr: int

    def __init__(self, base_attr: int):
        self.base_attr = base_attr


class Derived(Base):
    def __init__(self, base_attr: int, more: str):
        super().__init__(base_attr)
        self.more = more

    @property
    def busy_prop(self):
        busy()
        return [1]


class Pair(typing.NamedTuple):
    left: Key
    right_side: typing.Optional[Leaf]


class Checked(int):
    pass


@dataclasses.dataclass
class Outer:
    k: Key
    ks: typing.List[Key]
    by_name: typing.Dict[str, typing.Optional[Key]]
    one_of: typing.Union[int, Key, str]
    leaf: Leaf
    leaves: typing.List[Leaf]
    plain: Plain
    base: Base
    pair: Pair
    shade: Shade
    moment: dt.datetime
    anything: typing.Any = None
    none_value: typing.Optional[int] = None


MOMENT = dt.datetime(2020, 1, 2, 3, 4, 5, 678000, tzinfo=dt.timezone.utc)
FORK = jsons.fork()
OTHER = jsons.fork()


def ser_key(o, **_):
    busy()
    return 'key%d' % o.n


def deser_key(o, cls=None, **_):
    busy()
    if not isinstance(o, str) or not o.startswith('key'):
        raise ValueError('no key')
    return Key(int(o[3:]))


def ser_shade(o, **kw):
    busy()
    return jsons.default_enum_serializer(o, **kw)


def check_leaf(o):
    busy()
    return o.n >= 0


for _f in (FORK, OTHER):
    jsons.set_serializer(ser_key, Key, fork_inst=_f)
    jsons.set_deserializer(deser_key, Key, fork_inst=_f)
jsons.set_serializer(ser_shade, Shade, fork_inst=FORK)
jsons.set_validator(check_leaf, Leaf, fork_inst=FORK)
jsons.set_validator(lambda o: busy() or True, dt.datetime, fork_inst=FORK)


def busy_camel(key):
    busy()
    return jsons.camelcase(key)


def busy_snake(key):
    busy()
    return jsons.snakecase(key)


def an_outer(n=1, derived=True):
    return Outer(Key(n), [Key(2), Key(3)], {'a_b': Key(4), 'none': None}, Key(5), Leaf(6), [Leaf(7, 'x'), Leaf(8)],
                 Plain(9, MOMENT), Derived(10, 'm') if derived else Base(10), Pair(Key(1), Leaf(1)), Shade.DARK, MOMENT,
                 [1, {'x_y': Leaf(3)}], None)


class Unrelated:
    pass


PLAIN_JSON = {'a_value': '1', 'when': '2020-01-02T03:04:05Z'}
INNER = {
    'dump_other': lambda: jsons.dump({'some_key': [Unrelated(), MOMENT]}, key_transformer=jsons.KEY_TRANSFORMER_PASCALCASE),
    'dump_leaf': lambda: jsons.dump(Leaf(1), strip_nulls=True, strip_properties=True),
    'dump_verbose': lambda: jsons.dump([Leaf(1), Derived(1, 'x')], verbose=True),
    'dump_strict': lambda: jsons.dump(Derived(1, 'x'), Base, strict=True),
    'dump_derived': lambda: jsons.dump(Derived(1, 'x'), strip_class_variables=True, strip_attr='more'),
    'dump_outer': lambda: jsons.dump(an_outer(), fork_inst=OTHER, strip_privates=True, use_enum_name=False),
    'dump_fails': lambda: jsons.dump(5, str, strict=True),
    'dumps': lambda: jsons.dumps(Plain(1), jdkwargs={'indent': 1}),
    'load_leaf': lambda: jsons.load({'n': 1, 'someName': 'x'}, Leaf, key_transformer=jsons.KEY_TRANSFORMER_SNAKECASE),
    'load_plain': lambda: jsons.load(PLAIN_JSON, Plain),
    'load_strict': lambda: jsons.load(dict(PLAIN_JSON, extra=1), Plain, strict=True),
    'load_fails': lambda: jsons.load('x', int),
    'load_missing': lambda: jsons.load({}, Leaf),
    'load_union': lambda: jsons.load('5', typing.Union[str, Key, int]),
    'load_list': lambda: jsons.load(['1', 'x', '3'], typing.List[int], warn_on_fail=True),
    'load_verbose': lambda: jsons.load(jsons.dump(Leaf(4), verbose=True)),
    'load_getters': lambda: jsons.load({}, Leaf, attr_getters={'n': lambda: 77}),
    'load_text': lambda: jsons.loads('{nope', Leaf),
    'load_enum': lambda: jsons.load('dark', Shade, use_enum_name=False),
    'fork': lambda: jsons.set_serializer(lambda o, **_: 1, Leaf, fork_inst=jsons.fork(FORK)),
    'register': lambda: jsons.set_serializer(lambda o, **_: 1, type('New', (), {}), fork_inst=FORK),
    'register_de': lambda: jsons.set_deserializer(lambda o, c=None, **_: 1, type('New', (), {}), fork_inst=FORK),
    'validator': lambda: jsons.set_validator(lambda o: True, type('New', (), {}), fork_inst=FORK),
    'announce': lambda: jsons.announce_class(type('New', (), {}), 'some.name'),
    'suppress': lambda: jsons.suppress_warnings(fork_inst=OTHER),
    'transform': lambda: jsons.transform(Leaf(1), Leaf),
}
CALLS = {
    'dump': lambda o, opts: jsons.dump(o, fork_inst=FORK, **opts),
    'dumpas': lambda o, opts: jsons.dump(o, Outer, fork_inst=FORK, **opts),
    'dumplist': lambda o, opts: jsons.dump([o, o], typing.List[Outer], fork_inst=FORK, **opts),
    'dumps': lambda o, opts: jsons.dumps(o, fork_inst=FORK, **opts),
    'load': lambda j, opts: jsons.load(j, Outer, fork_inst=FORK, **opts),
    'loadlist': lambda j, opts: jsons.load([j, j], typing.List[Outer], fork_inst=FORK, **opts),
    'loaddict': lambda j, opts: jsons.load({'k': j}, typing.Dict[str, Outer], fork_inst=FORK, **opts),
    'untyped': lambda j, opts: jsons.load(j, fork_inst=FORK, **opts),
    'transform': lambda o, opts: jsons.transform(o, Outer, mapper=lambda d: [busy(), d][1], dump_kwargs={'fork_inst': FORK},
                                                 fork_inst=FORK, **opts),
    'decorated': lambda o, opts: jsons.decorators.dumped(fork_inst=FORK, **opts)(lambda x: [busy(), x][1])(o),
}
OUTER_JSON = jsons.dump(an_outer(), fork_inst=FORK)
OUTER_VERBOSE = jsons.dump(an_outer(), fork_inst=FORK, verbose=jsons.Verbosity.WITH_CLASS_INFO)
DUMPERS = ['dump', 'dumpas', 'dumplist', 'dumps', 'decorated']


def build_opts(case):
    opts = dict(case['opts'])
    kt = opts.pop('kt', None)
    if kt:
        opts['key_transformer'] = {'camel': busy_camel, 'snake': busy_snake, 'plain': jsons.KEY_TRANSFORMER_CAMELCASE,
                                   'plainsnake': jsons.KEY_TRANSFORMER_SNAKECASE}[kt]
    if opts.pop('getter', None):
        def getter():
            busy()
            return 42
        opts['attr_getters'] = {'none_value': getter}
    return opts


def subject(case):
    if case['call'] in DUMPERS or case['call'] == 'transform':
        o = an_outer(case['n'], case['derived'])
        if case['break'] == 'leaf':
            o.leaf = Leaf('x')
        elif case['break'] == 'key':
            o.ks = [Key('x')]
        return o
    src = OUTER_VERBOSE if case['verbose'] else OUTER_JSON
    j = dict(src)
    if case['break'] == 'leaf':
        j['leaf'] = {'n': -5}
    elif case['break'] == 'key':
        j['ks'] = ['key1', 5]
    elif case['break'] == 'missing':
        del j['pair']
    if case['opts'].get('kt') in ('snake', 'plainsnake') and case['n'] % 2:
        j = {jsons.camelcase(k): v for k, v in j.items()}
    return j


def run_outer(case):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        res = describe(attempt(CALLS[case['call']], subject(case), build_opts(case)))
    mine = [str(w.message) for w in rec if 'Outer' in str(w.message)]
    return res + ''.join(sorted('\n(warning: %s)' % m for m in mine))


def check_reentrant(case, ctx):
    Hook.active = False
    calm = run_outer(case)
    Hook.ops, Hook.count = case['ops'], 0
    Hook.active = True
    try:
        got = run_outer(case)
    finally:
        Hook.active = False
    ctx.interesting(Hook.count > 0)
    ctx.label(case['call'], 'raises' if calm.startswith('raises') else 'returns')
    require(got == calm, '%s with %s: with callbacks that use the library (%s)\n    %s\n  and without\n    %s', case['call'],
            case['opts'], case['ops'], got, calm)
    again = run_outer(case)
    require(again == calm, '%s with %s: after callbacks that used the library (%s)\n    %s\n  and before\n    %s', case['call'],
            case['opts'], case['ops'], again, calm)


@st.composite
def s_reentrant(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    call = pick(sorted(CALLS))
    opts = {}
    if call in DUMPERS:
        for n in ('strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables', 'strict', 'verbose'):
            if i(0, 4) == 0:
                opts[n] = True
        if i(0, 4) == 0:
            opts['use_enum_name'] = False
        if i(0, 3) == 0:
            opts['kt'] = pick(['camel', 'plain'])
        if i(0, 6) == 0:
            opts['strip_attr'] = 'leaf'
    elif call != 'untyped':
        if i(0, 5) == 0:
            opts['strict'] = True
        if i(0, 3) == 0:
            opts['kt'] = pick(['snake', 'plainsnake'])
        if i(0, 5) == 0:
            opts['getter'] = True
    return {'call': call, 'opts': opts, 'n': i(0, 3), 'derived': draw(st.booleans()), 'verbose': i(0, 2) == 0,
            'break': pick([None, None, None, 'leaf', 'key', 'missing']),
            'ops': draw(st.lists(st.sampled_from(sorted(INNER)), min_size=1, max_size=4))}


# -- classes that change between the calls --------------------------------------------------

class Evolving:
    """Classes in a module of their own, and changes to them by name."""

    def __init__(self):
        mod = types.ModuleType('jv_dyn9')
        sys.modules[mod.__name__] = mod
        mod.__dict__.update(typing=typing, dt=dt, dataclasses=dataclasses)
        exec(EVO_SOURCE, mod.__dict__)
        self.mod = mod

    def init(self, src):
        ns = {}
        exec(src, self.mod.__dict__, ns)
        return ns['__init__']

    def change(self, name):
        m = self.mod
        A, Base, Pt, Sl = m.Evo, m.EvoBase, m.EvoPoint, m.EvoOther
        try:
            if name == 'setvar':
                A.new_var = 5
            elif name == 'setbase':
                Base.base_var = 'changed'
            elif name == 'delvar':
                del A.some_var
            elif name == 'shadow':
                A.base_var = [1]
            elif name == 'prop':
                A.new_prop = property(lambda self: 'prop')
            elif name == 'propvar':
                A.some_prop = 3
            elif name == 'delprop':
                del A.some_prop
            elif name == 'baseprop':
                Base.base_prop = property(lambda self: None)
            elif name == 'method':
                A.new_method = lambda self: 1
            elif name == 'init':
                A.__init__ = self.init('def __init__(self, x: str, y: "EvoOther" = None, z: float = 0.5):\n'
                                       '    self.x, self.y, self.z = x, y, z\n')
            elif name == 'hint':
                A.__init__.__annotations__['x'] = dt.date
            elif name == 'default':
                A.__init__.__defaults__ = (None,) * len(A.__init__.__defaults__ or ())
            elif name == 'late':
                A.__annotations__ = dict(A.__dict__.get('__annotations__', {}), extra=dt.datetime)
            elif name == 'late2':
                A.__annotations__ = dict(A.__dict__.get('__annotations__', {}), extra=int)
            elif name == 'define':
                m.EvoFwd = type('EvoFwd', (), {'__module__': m.__name__, '__init__': self.init(
                    'def __init__(self, v: int = 1):\n    self.v = v\n')})
            elif name == 'undefine':
                m.__dict__.pop('EvoFwd', None)
            elif name == 'redefine':
                m.EvoOther = type('EvoOther', (), {'__module__': m.__name__, '__init__': self.init(
                    'def __init__(self, other: typing.List[dt.date]):\n    self.other = other\n')})
            elif name == 'pointhint':
                Pt.__annotations__['right'] = typing.Optional[dt.date]
        except (AttributeError, KeyError):
            pass

    def call(self, spec):
        m = self.mod
        k, opts = spec['k'], spec['opts']
        A, Base = m.Evo, m.EvoBase
        j = spec.get('json')

        def obj():
            o = A.__new__(A)
            o.__dict__.update(x=1, y=None, _p='p', extra=dt.datetime(2020, 1, 2, tzinfo=dt.timezone.utc))
            return o
        if k == 'dump':
            return jsons.dump(obj(), **opts)
        if k == 'dumpas':
            return jsons.dump(obj(), Base, strict=True, **opts)
        if k == 'dumpown':
            return jsons.dump(obj(), A, strict=True, **opts)
        if k == 'load':
            return jsons.load(j, A, **opts)
        if k == 'loadlist':
            return jsons.load([j], typing.List[A], **opts)
        if k == 'fwd':
            return jsons.load({'a': j, 'f': {'v': '3'}}, m.EvoHolder, **opts)
        if k == 'dumpfwd':
            h = m.EvoHolder.__new__(m.EvoHolder)
            h.a, h.f = obj(), (m.EvoFwd(2) if hasattr(m, 'EvoFwd') else 3)
            return jsons.dump(h, **opts)
        if k == 'point':
            return jsons.load({'left': '1', 'right': '2020-02-03'}, m.EvoPoint, **opts)
        if k == 'lizers':
            return [jsons.get_serializer(A).__name__, jsons.get_deserializer(A).__name__]
        return jsons.load(jsons.dump(obj(), verbose=jsons.Verbosity.WITH_CLASS_INFO))


EVO_SOURCE = '''
class EvoOther:
    def __init__(self, other: int):
        self.other = other

class EvoBase:
    base_var = 1
    base_attr: int = 3

class Evo(EvoBase):
    some_var = 'v'
    extra: str
    def __init__(self, x: int, y: 'typing.Optional[EvoOther]' = None):
        self.x = x
        self.y = y
    @property
    def some_prop(self):
        return [self.x]

class EvoHolder:
    def __init__(self, a: Evo, f: 'EvoFwd' = None):
        self.a = a
        self.f = f

class EvoPoint(typing.NamedTuple):
    left: int
    right: typing.Any
'''
CHANGES = ['setvar', 'setbase', 'delvar', 'shadow', 'prop', 'propvar', 'delprop', 'baseprop', 'method', 'init', 'hint',
           'default', 'late', 'late2', 'define', 'undefine', 'redefine', 'pointhint']
EVO_JSON = [{'x': '1', 'y': {'other': '2'}}, {'x': '2020-01-02', 'extra': '2021-01-02T00:00:00Z'}, {'x': 1, 'z': '2'},
            {'x': '3', 'y': {'other': ['2020-03-04']}, 'extra': '5'}, {}, {'x': '1', 'some_prop': 4, 'new_prop': 5}]


def run_steps(steps, only=None):
    evo = Evolving()
    out = []
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        for i, s in enumerate(steps):
            if isinstance(s, str):
                evo.change(s)
            elif only is None or i == only:
                del rec[:]
                out.append(describe(attempt(evo.call, s)) + ''.join(sorted('\n(warning: %s)' % w.message for w in rec)))
    return out


def check_evolve(case, ctx):
    steps = case['steps']
    calls = [i for i, s in enumerate(steps) if not isinstance(s, str)]
    ctx.interesting(any(isinstance(s, str) for s in steps[calls[0]:calls[-1]]) if calls else False)
    got = in_child(lambda: run_steps(steps))
    for n, i in enumerate(calls):
        ctx.label(steps[i]['k'], 'raises' if got[n].startswith('raises') else 'returns')
        if n:
            want = in_child(lambda: run_steps(steps[:i + 1], i))[0]
            require(got[n] == want, 'after the history %s the last call gives\n    %s\n  and without the calls before it\n    %s',
                    steps[:i + 1], got[n], want)


@st.composite
def s_evolve(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    kinds = draw(st.lists(st.sampled_from(['dump', 'dump', 'dumpas', 'dumpown', 'load', 'load', 'loadlist', 'fwd', 'dumpfwd',
                                           'point', 'lizers', 'verbose']), min_size=1, max_size=2))
    steps = []
    for _ in range(i(2, 7)):
        if i(0, 1):
            steps.append(pick(CHANGES))
            continue
        k = pick(kinds)
        s = {'k': k, 'opts': {}}
        if k in ('load', 'loadlist', 'fwd'):
            s['json'] = pick(EVO_JSON)
            s['opts'] = pick([{}, {}, {'strict': True}])
        elif k in ('dump', 'dumpas', 'dumpown'):
            s['opts'] = pick([{}, {}, {'strip_properties': True}, {'strip_class_variables': True}, {'strip_privates': True}])
        steps.append(s)
    # (The history ends with a call.)
    k = pick(kinds)
    steps.append({'k': k, 'opts': {}, 'json': pick(EVO_JSON)})
    return {'steps': steps}


PROP = Prop(
    'C23',
    'history: generated sequences of 2-10 calls (dump, load, text, untyped, verbose, round trips, transform, forks with '
    'registrations, decorators; valid and mutated input; options) over up to three modules of generated classes, often '
    'with equal names, and types whose unions are permuted; each call is repeated in a fresh process. threads: the same '
    'calls in 2-4 threads at the same time. reentrant: serializers, deserializers, validators, properties, constructors, '
    'key transformers, getters and mappers that use the library (26 kinds of calls, failures included) against ones that '
    'do not. evolve: histories of calls and of changes to the classes (variables, properties, constructors, hints, forward references) against the last call alone. Non-trivial: several types in the history; callbacks were run.',
    [
        Facet('history', lambda: s_calls(KINDS, 2, 10), check_history, 1600, 40000, 4),
        Facet('threads', lambda: s_calls(['load', 'load', 'dump', 'dumpas', 'loads', 'round'], 2, 5), check_threads, 700, 16000, 2),
        Facet('evolve', s_evolve, check_evolve, 2400, 60000, 4),
        Facet('reentrant', s_reentrant, check_reentrant, 2500, 60000, 2),
    ],
    ['The interleavings of threads are those that the machine happens to produce.'])
