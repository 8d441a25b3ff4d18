"""C16: Parallel processing gives the sequential result."""
import collections
import os
import sys
import threading
import time
import typing
import warnings
from multiprocessing import Process
from threading import Thread

from hypothesis import assume, strategies as st

import jsons
from jv import world
from jv.common import Raised, attempt, jcompare, options, same_outcome
from jv.core import Facet, Prop, require, short
from jv.gen import G, S_SMALL_JSON, mutate
from jv.world import World, plain


class Sized:
    """An iterable that is nothing else."""

    def __init__(self, elems):
        self.elems = elems

    def __iter__(self):
        return iter(self.elems)

    def __len__(self):
        return len(self.elems)


class Quiet:
    """Keeps the tracebacks of failing tasks off the terminal."""

    def __enter__(self):
        self.hook = threading.excepthook
        threading.excepthook = lambda args: None
        sys.stderr.flush()
        self.fd = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        return self

    def __exit__(self, *exc):
        sys.stderr.flush()
        os.dup2(self.fd, 2)
        os.close(self.fd)
        threading.excepthook = self.hook


def slow_fork(w, case):
    """A fork of which the functions of some types take a while."""
    fork = jsons.fork()
    delays = case['delays']
    count = [0]
    lock = threading.Lock()

    def wait():
        with lock:
            count[0] += 1
            d = delays[count[0] % len(delays)]
        if d:
            time.sleep(d / 1000)

    def ser(obj, **kwargs):
        wait()
        return jsons.default_object_serializer(obj, **kwargs)

    def deser(obj, cls, **kwargs):
        wait()
        return jsons.default_object_deserializer(obj, cls, **kwargs)

    def ser_int(obj, *args, **kwargs):
        wait()
        return jsons.default_primitive_serializer(obj, *args, **kwargs)

    def deser_int(obj, *args, **kwargs):
        wait()
        return jsons.default_primitive_deserializer(obj, *args, **kwargs)

    if delays:
        for i, d in enumerate(w.defs):
            if d['k'] == 'cls':
                jsons.set_serializer(ser, w.objs[i], fork_inst=fork)
                jsons.set_deserializer(deser, w.objs[i], fork_inst=fork)
        jsons.set_serializer(ser_int, int, fork_inst=fork)
        jsons.set_deserializer(deser_int, int, fork_inst=fork)
    return fork


def recorded(fn, *args, **kwargs):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        res = attempt(fn, *args, **kwargs)
    return res, sorted(str(r.message) for r in rec)


TASK = {'thread': Thread, 'process': Process}


def judge(case, ctx, seq, seqw, par, parw, what, n, compare):
    ctx.interesting(case['tasks'] > 1 and n > 1)
    ctx.label('%s tasks' % ('fewer' if case['tasks'] < n else 'as many' if case['tasks'] == n else 'more'),
              'fails' if isinstance(seq, Raised) else 'succeeds', '%d elements' % min(n, 9))
    if isinstance(seq, Raised):
        require(isinstance(par, Raised), '%s gives %s, but %s sequentially', what, short(par), seq)
        require(isinstance(par.err, jsons.exceptions.JsonsError), '%s: %s', what, par)
        return
    same_outcome(seq, par, what, compare=compare)
    if seqw is not None:
        require(seqw == parw, '%s: warnings %s, sequentially %s', what, short(parw, 500), short(seqw, 500))


def check_load(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    j = case['json']
    opts = dict(case['opts'])
    fork = slow_fork(w, case)
    par_opts = {'tasks': case['tasks'], 'task_type': TASK[case['how']]}
    with Quiet():
        seq, seqw = recorded(jsons.load, j, T, fork_inst=fork, **opts)
        par, parw = recorded(jsons.load, j, T, fork_inst=fork, **opts, **par_opts)
    n = size(j)
    judge(case, ctx, seq, seqw if opts.get('warn_on_fail') and case['how'] == 'thread' else None, par, parw,
          'load(%s, %s, tasks=%d, %s)' % (short(j, 600), T, case['tasks'], opts), n, world.differ)


def size(j):
    while isinstance(j, dict) and j:
        j = next(iter(j.values()))
    return len(j) if isinstance(j, list) else 0


def check_dump(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    o = w.value(case['type'], case['value'])
    if case['as'] == 'sized':
        assume(isinstance(o, list))
        o = Sized(o)
    elif case['as'] == 'view':
        assume(isinstance(o, list))
        o = dict(enumerate(o)).values()
    if case['bad'] and isinstance(o, (Sized, list, collections.deque)):
        elems = o.elems if isinstance(o, Sized) else o
        for n, i in enumerate(case['bad']):
            # An element that fails, or one of which only an attribute fails (which
            # only fails itself in strict mode).
            elems.insert(i, HasBad(n) if (case['half'] + n) % 2 else Bad())
    args = (T,) if case['typed'] and case['as'] == 'same' else ()
    opts = options(case['opts'])
    fork = slow_fork(w, case)
    jsons.set_serializer(fail_to_dump, Bad, fork_inst=fork)
    par_opts = {'tasks': case['tasks'], 'task_type': TASK[case['how']]}
    with Quiet():
        seq = attempt(jsons.dump, o, *args, fork_inst=fork, **opts)
        par = attempt(jsons.dump, o, *args, fork_inst=fork, **opts, **par_opts)
    try:
        n = len(o)
    except TypeError:
        n = 2
    judge(case, ctx, seq, None, par, None, 'dump(%s, tasks=%d, %s)' % (short(o, 600), case['tasks'], opts), n, jcompare)


class Bad:
    def __repr__(self):
        return 'Bad()'


class HasBad:
    def __init__(self, n):
        self.n = n
        self.bad = Bad()

    def __repr__(self):
        return 'HasBad(%d)' % self.n


def fail_to_dump(obj, **kwargs):
    raise ValueError('bad')


def check_division(case, ctx):
    n, tasks, opts = case['n'], case['tasks'], {'tasks': case['tasks'], 'task_type': Thread}
    fork = jsons.fork()
    seen = []

    def deser(obj, cls, **kwargs):
        seen.append(obj)
        if obj in case['bad']:
            raise ValueError('bad')
        return Elem(obj)

    def ser(obj, **kwargs):
        seen.append(obj.n)
        if obj.n in case['bad']:
            raise ValueError('bad')
        return obj.n
    jsons.set_deserializer(deser, Elem, fork_inst=fork)
    jsons.set_serializer(ser, Elem, fork_inst=fork)
    fails = any(b < n for b in case['bad'])
    ctx.interesting(tasks > 1 and n > 1)
    ctx.label('%d left over' % min(n % tasks, 3), 'fails' if fails else 'succeeds')
    with Quiet():
        if case['dump']:
            r = attempt(jsons.dump, Sized([Elem(i) for i in range(n)]), fork_inst=fork, **opts)
            want = list(range(n))
        else:
            r = attempt(jsons.load, list(range(n)), typing.List[Elem], fork_inst=fork, **opts)
            want = [Elem(i) for i in range(n)]
    what = '%s of %d elements with %d tasks' % ('dump' if case['dump'] else 'load', n, tasks)
    if fails:
        require(isinstance(r, Raised) and isinstance(r.err, jsons.exceptions.JsonsError), '%s: %s', what, short(r))
    else:
        require(type(r) is list and r == want, '%s: %s', what, short(r, 900))
        require(sorted(seen) == list(range(n)), '%s: elements %s were processed', what, short(sorted(seen), 900))


class Elem:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Elem and self.n == other.n

    def __repr__(self):
        return 'Elem(%r)' % self.n


@st.composite
def s_division(draw):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 70)))
    return {'n': n, 'tasks': draw(st.one_of(st.integers(1, 8), st.integers(max(1, n - 2), n + 2), st.integers(1, 75))),
            'bad': draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, max(n - 1, 0)), max_size=3))),
            'dump': draw(st.booleans())}


KINDS = ['list', 'list', 'deque', 'vtuple', 'seq', 'iter', 'blist', 'set', 'frozenset']
STYLES = ['data', 'init', 'attrs', 'late', 'slots', 'both']


def draw_case(draw, how, dump):
    g = G(draw, max_defs=2, max_depth=1, styles=STYLES, text=True, unions=False, max_len=3, recursive=False,
          hashed=False, newtypes=how == 'thread', odd=how == 'thread')
    g.make_defs()
    kind = g.pick(KINDS)
    inner = g.type(1, hashable=kind in ('set', 'frozenset'))
    if dump and kind in ('set', 'frozenset'):
        kind = 'deque'     # (The order of a set's elements is its own business.)
    n = g.i(0, 9) if how == 'thread' else g.i(0, 5)
    t = [kind, inner]
    v = [g.value(inner, 2) for _ in range(n)]
    wrap = g.i(0, 9)
    if wrap == 0:
        t, v = ['dict', 'str', t], [['k', v]]
    elif wrap == 1:
        t, v = ['list', t], [v, v[:1]]
    elif wrap == 2:
        t, v = ['opt', t], v
    elif wrap == 3:
        g.defs.append({'k': 'cls', 'n': 'Holder', 'style': 'data', 'f': [['elems', t]], 'opts': {}})
        t, v = ['ref', len(g.defs) - 1], [v]
    elif wrap == 4:
        t, v = ['tuple', [t, t]], [v, v[:2]]
    return g, t, v, n


def s_load_for(how):
    @st.composite
    def strat(draw):
        g, t, v, n = draw_case(draw, how, False)
        world.reset()
        j = plain(World(g.defs).model(t, v))
        if g.chance(3):
            j = mutate(draw, j, g.i(1, 3))
        elif isinstance(j, list) and j and g.chance(4):
            for _ in range(g.i(1, 3)):
                j[g.i(0, len(j) - 1)] = draw(S_SMALL_JSON)
        opts = {k: True for k in ('strict', 'warn_on_fail') if g.chance(5)}
        return {'defs': g.defs, 'type': t, 'json': j, 'tasks': g.i(1, n + 3), 'how': how, 'opts': opts,
                'delays': draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), max_size=5)) if how == 'thread' else []}
    return strat


def s_dump_for(how):
    @st.composite
    def strat(draw):
        g, t, v, n = draw_case(draw, how, True)
        return {'defs': g.defs, 'type': t, 'value': v, 'tasks': g.i(1, n + 3), 'how': how,
                'typed': g.chance(2), 'as': g.pick(['same', 'same', 'same', 'sized', 'view']),
                'bad': draw(st.lists(st.integers(0, 9), max_size=3)) if g.chance(3) else [],
                'half': g.i(0, 1),
                'opts': {k: True for k in ('strict', 'strip_nulls', 'strip_privates', 'strip_microseconds') if g.chance(5)},
                'delays': draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), max_size=5)) if how == 'thread' else []}
    return strat


PROP = Prop(
    'C16',
    'Lists and other iterables (0-9 elements of generated types, also nested in another list, dict, tuple, Optional or '
    'attribute), 1 to len+3 tasks, threads (with small generated delays in custom (de)serializers) or processes, with '
    'failing elements, strict, warn_on_fail and dump options. Non-trivial: more than one task and element.',
    [
        Facet('division', s_division, check_division, 1600, 20000, 2),
        Facet('load threads', s_load_for('thread'), check_load, 4000, 60000, 5),
        Facet('dump threads', s_dump_for('thread'), check_dump, 3500, 50000, 4),
        Facet('load processes', s_load_for('process'), check_load, 160, 4000, 4),
        Facet('dump processes', s_dump_for('process'), check_dump, 160, 4000, 4),
    ],
    ['Interleavings are those that occur; they are varied by delays.',
     'With processes only outcomes are compared: warnings given in another process do not arrive here.'])
