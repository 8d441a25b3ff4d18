"""C20: Warnings are given and suppressed as configured."""
import dataclasses
import datetime as dt
import json
import typing
import warnings

from hypothesis import strategies as st

import jsons
import jsons.decorators
from jv.common import Raised, attempt, in_child, same_outcome
from jv.core import Facet, Prop, require, short

CODES = {'naive': 'datetime-without-tz', 'attr': 'attribute-not-serialized', 'elem': 'element-not-deserialized',
         'keys': 'hashed-keys-without-hint', 'static': 'decorated-static'}
ALL_CODES = sorted(CODES.values())
NAIVE = dt.datetime(2020, 1, 2, 3, 4, 5)
AWARE = dt.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dt.timezone.utc)


@dataclasses.dataclass
class Wrong:
    a: int
    b: str = 'fine'

    def __hash__(self):
        return 1


@dataclasses.dataclass
class Stamped:
    at: dt.datetime
    n: int = 1


@dataclasses.dataclass
class Elems:
    xs: typing.List[int]


@dataclasses.dataclass
class Box:
    v: typing.Any
    w: int = 3


class Late:
    x: int

    def __init__(self, n: int = 0):
        self.n = n

    def __eq__(self, other):
        return type(other) is Late and repr(vars(self)) == repr(vars(other))

    def __repr__(self):
        return 'Late(%r)' % vars(self)


# kind -> variants: what is dumped (d) or loaded (l: JSON, type, options)
DUMPS = {
    'naive': [NAIVE, Stamped(NAIVE), {'k': NAIVE}, [AWARE, NAIVE], (NAIVE,), {NAIVE}, {NAIVE: 1}],
    'attr': [Wrong('x'), [Wrong(1), Wrong('x')], {'k': Wrong('y')}, Box(Wrong('x'))],
    'none': [AWARE, Wrong(1), [1, 'x', None], Stamped(AWARE), Box([AWARE, 1])],
}
HASHED = {'n': 1, 'extra': {'12': 3, '-keys': {'12': {'a': 1}}}}
LOADS = {
    'elem': [(['1', 'x', '3'], typing.List[int], {'warn_on_fail': True}),
             ({'xs': ['x', 'y', 2]}, Elems, {'warn_on_fail': True}),
             ({'k': ['x']}, typing.Dict[str, typing.List[int]], {'warn_on_fail': True}),
             (['x'], typing.Set[int], {'warn_on_fail': True})],
    'keys': [(HASHED, Late, {}), ([HASHED], typing.List[Late], {}), ({'k': HASHED}, typing.Dict[str, Late], {}),
             (HASHED, typing.Optional[Late], {})],
    'none': [(['1', '2'], typing.List[int], {'warn_on_fail': True}), ({'n': 1, 'x': '2'}, Late, {}),
             ({'xs': [1]}, Elems, {}), (['x'], typing.List[int], {}), ('2020-01-02T03:04:05Z', dt.datetime, {})],
}


def wrap(value, depth):
    """The same condition, deeper."""
    for how in depth:
        value = {'list': lambda v: [v], 'dict': lambda v: {'d': v}, 'box': Box, 'tuple': lambda v: (1, v)}[how](value)
    return value


def unwrapped(v):
    return v


class Holder:
    def __init__(self, fork, quiet=False, codes=()):
        self.fork = fork
        self.quiet = quiet
        self.codes = set(codes)


def sentence(holder, kw):
    return kw if holder.fork is None else dict(kw, fork_inst=holder.fork)


def do_dump(holder, value, form):
    kw = sentence(holder, {})
    if form == 'text':
        return json.loads(jsons.dumps(value, **kw))
    if form == 'bytes':
        return json.loads(jsons.dumpb(value, **kw))
    if form == 'decorator':
        @jsons.decorators.dumped(returnvalue=False, **kw)
        def f(x):
            return x
        return f(value)
    if form == 'returned':
        @jsons.decorators.dumped(parameters=False, **kw)
        def g():
            return value
        return g()
    if form == 'transform':
        seen = []

        def mapper(d):
            seen.append(d)
            return 1
        jsons.transform(value, int, mapper=mapper, dump_kwargs=kw or None)
        return seen[0]
    if form == 'method':
        cls = holder.fork
        if cls is None or not issubclass(cls, jsons.JsonSerializable):
            return jsons.dump(value, **kw)
        boxed = type('Mine', (cls,), {'__init__': lambda self: setattr(self, 'v', value)})()
        return boxed.dump()['v']
    return jsons.dump(value, **kw)


def do_load(holder, j, T, opts, form):
    kw = sentence(holder, dict(opts))
    if form == 'text':
        return jsons.loads(json.dumps(j), T, **kw)
    if form == 'bytes':
        return jsons.loadb(json.dumps(j).encode(), T, **kw)
    if form == 'decorator':
        def f(x):
            return x
        f.__annotations__['x'] = T
        return jsons.decorators.loaded(returnvalue=False, **kw)(f)(j)
    if form == 'returned':
        def g():
            return j
        g.__annotations__['return'] = T
        return jsons.decorators.loaded(parameters=False, **kw)(g)()
    if form == 'transform':
        return jsons.transform(j, T, **kw)
    return jsons.load(j, T, **kw)


def do_static(holder, i, form):
    kw = sentence(holder, {})
    f = (staticmethod if i % 2 else classmethod)(lambda x: x)
    deco = jsons.decorators.loaded if form in ('text', 'plain', 'bytes') else jsons.decorators.dumped
    return deco(**kw)(f)


def run_op(holder, op):
    _, _, kind, i, depth, form, what = op
    if what == 'static':
        return do_static(holder, i, form)
    if what == 'dump':
        values = DUMPS[kind]
        return do_dump(holder, wrap(values[i % len(values)], depth), form)
    j, T, opts = LOADS[kind][i % len(LOADS[kind])]
    return do_load(holder, j, T, opts, form)


def codes_in(rec):
    return [c for m in rec for c in ALL_CODES if c in m]


def recorded(holder, op):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        res = attempt(run_op, holder, op)
    return res, [str(r.message) for r in rec]


def play(case, ctx, root):
    if root:
        holders = [Holder(None)]
        ref = Holder(jsons.fork(name='reference'))
    elif case['js']:
        holders = [Holder(jsons.JsonSerializable.fork())]
        ref = Holder(jsons.JsonSerializable.fork())
    else:
        holders = [Holder(jsons.fork())]
        ref = Holder(jsons.fork())
    log = []
    shown = hidden = 0
    for op in case['ops']:
        h = holders[op[1] % len(holders)]
        log.append('%s %d %s' % (op[0], op[1] % len(holders), op[2:]))
        kw = sentence(h, {})
        if op[0] == 'fork':
            if len(holders) < 6:
                if h.fork is not None and hasattr(h.fork, 'fork'):
                    f = h.fork.fork()
                elif h.fork is None and case['js']:
                    f = jsons.JsonSerializable.fork()
                else:
                    f = jsons.fork(**dict(kw, **({'name': 'Named'} if op[2] else {})))
                holders.append(Holder(f, h.quiet, h.codes))
        elif op[0] == 'quiet':
            if op[2] is None:
                jsons.suppress_warnings(**kw)
                h.quiet = True
            else:
                jsons.suppress_warnings(op[2], **kw)
                h.quiet = op[2]
        elif op[0] == 'code':
            jsons.suppress_warning(op[2], **kw)
            h.codes.add(op[2])
        else:
            kind = op[2]
            want, ref_msgs = recorded(ref, op)
            got, msgs = recorded(h, op)
            info = 'history:\n    ' + '\n    '.join(log)
            same_outcome(want, got, 'suppression changes the result', info)
            code = CODES.get(kind)
            there = set(codes_in(msgs))
            require(set(codes_in(ref_msgs)) == ({code} if code else set()), 'without suppression: warnings %s, expected %s\n  %s',
                    ref_msgs, code, info)
            require(len(msgs) == len(codes_in(msgs)), 'warnings that do not tell their code: %s\n  %s', msgs, info)
            if code is None:
                require(not msgs, 'warns without a reason: %s\n  %s', msgs, info)
                continue
            silent = h.quiet or code in h.codes
            shown += not silent
            hidden += silent
            ctx.label(kind + (' silent' if silent else ' shown'))
            if silent:
                require(not there, 'suppressed, but warns %s\n  %s', short(msgs), info)
            else:
                require(there == {code}, 'not suppressed, but warns %s instead of %s\n  %s', short(msgs), code, info)
                require(sorted(msgs) == sorted(ref_msgs), 'other warnings than usual: %s, usually %s\n  %s', msgs, ref_msgs, info)
    ctx.interesting(bool(shown and hidden))


def check_forks(case, ctx):
    play(case, ctx, False)


def check_root(case, ctx):
    """The settings of the root cannot be undone: in a process of their own."""
    def child():
        play(case, ctx, True)
        return ctx.nontrivial, ctx.labels
    nontrivial, labels = in_child(child)
    ctx.interesting(nontrivial)
    ctx.label(*labels)


FORMS = ['plain', 'plain', 'text', 'bytes', 'decorator', 'returned', 'transform', 'method']


@st.composite
def s_history(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))
    ops = []
    for _ in range(i(2, 14)):
        k, h = i(0, 11), i(0, 5)
        if k == 0:
            ops.append(['fork', h, draw(st.booleans())])
        elif k == 1:
            ops.append(['quiet', h, pick([None, True, True, False, False])])
        elif k in (2, 3):
            ops.append(['code', h, pick(ALL_CODES + ['some-other-code', 'datetime'])])
        else:
            what = pick(['dump', 'dump', 'dump', 'load', 'load', 'static'])
            kind = {'dump': lambda: pick(['naive', 'naive', 'attr', 'attr', 'none']),
                    'load': lambda: pick(['elem', 'elem', 'keys', 'none']), 'static': lambda: 'static'}[what]()
            depth = [pick(['list', 'dict', 'box', 'tuple']) for _ in range(i(0, 2))] if what == 'dump' else []
            ops.append(['do', h, kind, i(0, 6), depth, pick(FORMS), what])
    return {'js': draw(st.booleans()), 'ops': ops}


PROP = Prop(
    'C20',
    'histories of fork, suppress_warnings (on, off), suppress_warning (any code) and calls that give a warning (or '
    'none): datetimes without timezone, failing attributes and elements, hashed keys without hint, decorated '
    'static- and classmethods, at several depths and through all forms of the API, on jsons.fork() and '
    'JsonSerializable.fork() (fork histories) and the root (root histories, each in a process of its own), against a '
    'model of the settings per fork; every outcome is compared with that of a fork that suppresses nothing. '
    'Non-trivial: the history contains a warning that was shown and one that was suppressed.',
    [
        Facet('forks', s_history, check_forks, 5000, 100000, 5),
        Facet('root', s_history, check_root, 1500, 30000, 3),
    ],
    ['Settings made on a plain subclass of a fork (that is no fork itself) are outside the domain.'])
