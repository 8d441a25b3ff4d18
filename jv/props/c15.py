"""C15: Validators are always enforced."""
import collections
import collections.abc
import json
import typing

from hypothesis import assume, strategies as st

import jsons
from jv import world
from jv.common import Raised, attempt, same_outcome
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, mutate
from jv.world import DICTS, SEQ_KINDS, World, differ, plain

GOOD = [True, 1, 'yes', [0]]
BAD = {
    'False': lambda m: False, 'zero': lambda m: 0, 'None': lambda m: None, 'empty': lambda m: '',
    'list': lambda m: [],
}
RAISE = {
    'value': lambda m: ValueError(m), 'key': lambda m: KeyError(m, 'more'), 'assert': lambda m: AssertionError(m),
    'valid': lambda m: jsons.ValidationError(m), 'deser': lambda m: jsons.DeserializationError(m, None, None),
    'jsons': lambda m: jsons.exceptions.JsonsError(m), 'stop': lambda m: StopIteration(m),
    'plain': lambda m: Exception(),
}


class Node:
    def __init__(self, T, obj, in_opt, path):
        self.T, self.obj, self.in_opt, self.path = T, obj, in_opt, path

    def __repr__(self):
        return '%s: %s' % (self.path, short(self.obj, 80))


def walk(w, t, o, in_opt=False, path='$', out=None):
    """Every part of o with the type by which it was loaded."""
    out = [] if out is None else out
    if isinstance(t, str):
        if t not in ('any', 'none'):
            out.append(Node(w.type(t), o, in_opt, path))
        return out
    k = t[0]
    if k == 'opt':
        if o is not None:
            walk(w, t[1], o, True, path, out)
    elif k == 'ref':
        d = w.defs[t[1]]
        T = w.objs[t[1]]
        out.append(Node(T, o, in_opt, path))
        if d['k'] == 'newtype':
            # The value itself is validated once, as N or else as the type behind it.
            inner = walk(w, d['t'], o, in_opt, path)
            out += [n for n in inner if n.path != path]
        elif d['k'] in ('cls', 'nt'):
            for n, ft, _ in w.fields(t[1]):
                walk(w, ft, getattr(o, n), in_opt, '%s.%s' % (path, n), out)
        return out
    else:
        out.append(Node(w.type(t), o, in_opt, path))
    if k in DICTS:
        for a, b in o.items():
            walk(w, t[1], a, in_opt, path + '(key)', out)
            walk(w, t[2], b, in_opt, '%s[%s]' % (path, short(a, 30)), out)
    elif k in ('tuple', 'btuple'):
        for i, (a, x) in enumerate(zip(t[1], o)):
            walk(w, a, x, in_opt, '%s[%d]' % (path, i), out)
    elif k in SEQ_KINDS:
        for i, x in enumerate(o):
            walk(w, t[1], x, in_opt, '%s[%d]' % (path, i), out)
    return out


CONTAINERS = {'object': object, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'deque': collections.deque,
              'Sequence': collections.abc.Sequence, 'Mapping': collections.abc.Mapping}


def is_sub(T, C):
    T = typing.get_origin(T) or T
    return isinstance(T, type) and isinstance(C, type) and issubclass(T, C)


def super_of(T):
    return getattr(T, '__supertype__', T)


class Validators:
    """Registered validators, and what was registered."""

    def __init__(self, w, spec):
        self.fork = jsons.fork()
        self.exact = {}
        self.calls = []
        self.reject = None      # (value, kind)
        self.n = 0
        for targets, seq in spec:
            Ts = [CONTAINERS[t[1]] if t[0] == 'container' else w.type(t) for t in targets]
            f = self.make()
            if seq:
                jsons.set_validator(f, Ts, fork_inst=self.fork)
            else:
                for T in Ts:
                    jsons.set_validator(f, T, fork_inst=self.fork)
            for T in Ts:
                self.exact[T] = f.tag

    def make(self):
        self.n += 1
        n = self.n

        def validator(obj):
            self.calls.append((n, obj))
            if self.reject and same(obj, self.reject[0]) and (self.reject[2] is None or n in self.reject[2]):
                kind = self.reject[1]
                if kind in RAISE:
                    raise RAISE[kind](self.message())
                return BAD[kind](0)
            return GOOD[len(self.calls) % len(GOOD)]
        validator.tag = n
        return validator

    def message(self):
        return 'rejected {} by %s'

    def expected_message(self):
        """None: the validator has no message, any will do."""
        return self.message() if self.reject[1] in RAISE and self.reject[1] != 'plain' else None

    def for_type(self, T):
        if T in self.exact:
            return {self.exact[T]}
        res = {n for C, n in self.exact.items() if is_sub(T, C)}
        if not res and T is not super_of(T):
            return self.for_type(super_of(T))
        return res


def same(a, b):
    if a is b:
        return True
    return type(a) is type(b) and differ(a, b) is None


FORMS = {
    'load': lambda j, T, **kw: jsons.load(j, T, **kw),
    'loads': lambda j, T, **kw: jsons.loads(json.dumps(j), T, **kw),
    'loadb': lambda j, T, **kw: jsons.loadb(json.dumps(j).encode(), T, **kw),
    'late': lambda j, T, **kw: jsons.load(j, cls=T, **kw),
}


def check_deep(case, ctx):
    w = World(case['defs'])
    t = case['type']
    T = w.type(t)
    j = plain(w.model(t, case['value']))
    v = Validators(w, case['validators'])
    opts = {'strict': True} if case['strict'] else {}
    if case['as'] == 'list':
        T, j, t = typing.List[T], [j], ['list', t]
    elif case['as'] == 'dict':
        T, j, t = typing.Dict[str, T], {'k': j}, ['dict', 'str', t]
    load = FORMS[case['form']]
    base = attempt(load, j, T, **opts)
    if isinstance(base, Raised):
        assume(False)      # e.g. strict with late attributes; C01 looks after the others
    # Everything is accepted: nothing changes, everything was asked.
    got = attempt(load, j, T, fork_inst=v.fork, **opts)
    same_outcome(base, got, 'load(%s, %s) with validators that accept everything' % (short(j), T), case['validators'])
    nodes = walk(w, t, got)
    wanted = []
    for n in nodes:
        tags = v.for_type(n.T)
        if tags:
            wanted.append((n, tags))
    calls = list(v.calls)
    for tag, obj in calls:
        Cs = [C for C, m in v.exact.items() if m == tag] + [super_of(C) for C, m in v.exact.items() if m == tag]
        Cs += [super_of(n.T) for n in nodes]
        require(any(isinstance(obj, C) for C in Cs if isinstance(C, type)) or any(same(obj, n.obj) for n in nodes),
                'validator of %s was called with %s', Cs, short(obj))
    left = list(calls)
    for n, tags in sorted(wanted, key=lambda p: len(p[1])):
        for i, (tag, obj) in enumerate(left):
            if tag in tags and same(obj, n.obj):
                del left[i]
                break
        else:
            raise Violation('load(%s, %s): no validator was called for %r (calls: %s)'
                            % (short(j), T, n, short(calls, 600)))
    ctx.interesting(bool(wanted))
    ctx.label('%d validated parts' % min(len(wanted), 10))
    if not wanted:
        return
    # One of the parts is rejected.
    node, tags = wanted[case['pick'] % len(wanted)]
    v.reject = (node.obj, case['kind'], None)
    # A class is validated after its parts; the same value may be anywhere.
    hit = [n for n, _ in wanted if same(n.obj, node.obj)]
    got = attempt(load, j, T, fork_inst=v.fork, **opts)
    info = 'load(%s, %s) with %r being rejected (%s)' % (short(j), T, node, case['kind'])
    require(isinstance(got, Raised), '%s gives %s', info, short(got))
    if any(n.in_opt for n in hit):
        require(isinstance(got.err, jsons.exceptions.JsonsError), '%s: %s', info, got)
    else:
        require(type(got.err) is jsons.ValidationError, '%s: %s', info, got)
        message = v.expected_message()
        require(str(got.err) == message if message is not None else str(got.err), '%s: the message is %s', info,
                short(str(got.err)))
        require(getattr(got.err, 'message', str(got.err)) == str(got.err), '%s: .message is %s', info, got.err)
    for form in ('validate',):
        got = attempt(jsons.validate, node.obj, node.T, v.fork)
        require(isinstance(got, Raised) and type(got.err) is jsons.ValidationError, 'validate(%r): %s', node, short(got))
    # Without the fork nobody cares.
    same_outcome(base, attempt(load, j, T, **opts), 'load without the fork')
    require(jsons.get_validator(node.T) is None, 'get_validator(%s) without the fork', node.T)


def draw_targets(g, defs, t):
    pool = ['int', 'str', 'float', 'bool', 'datetime', 'date', 'uuid', 'decimal', 'time', 'timedelta', 'complex']
    pool += [['ref', i] for i in range(len(defs))] * 3
    text = json.dumps([t, [[f[1] for f in d.get('f', ())] for d in defs]])
    pool += [a for a in pool[:11] if '"%s"' % a in text] * 4
    pool += [['container', c] for c in sorted(CONTAINERS)]
    return [[[g.pick(pool) for _ in range(g.i(1, 3))], g.chance(3)] for _ in range(g.i(1, 4))]


@st.composite
def s_deep(draw):
    g = G(draw, max_defs=4, max_depth=3, unions=False, hashed=False, defaults=False, text=True,
          styles=['data', 'data', 'init', 'both', 'attrs', 'ser', 'late', 'slots', 'kwonly'],
          atoms=['int', 'str', 'float', 'bool', 'datetime', 'date', 'time', 'timedelta', 'decimal', 'uuid', 'complex',
                 'path', 'timezone'])
    g.make_defs()
    t = ['ref', len(g.defs) - 1] if g.defs and g.i(0, 2) else g.type()
    return {'defs': g.defs, 'type': t, 'value': g.value(t), 'validators': draw_targets(g, g.defs, t),
            'pick': g.i(0, 30), 'kind': g.pick(sorted(BAD) + sorted(RAISE)), 'as': g.pick(['no', 'no', 'list', 'dict']),
            'form': g.pick(['load', 'load', 'loads', 'loadb', 'late']), 'strict': g.chance(4)}


# -- unions ------------------------------------------------------------------------

def flatten(t):
    if isinstance(t, str) or t[0] not in ('union', 'opt'):
        return [t]
    alts = t[1] if t[0] == 'union' else [t[1], 'none']
    return [b for a in alts for b in flatten(a)]


def check_union(case, ctx):
    w = World(case['defs'])
    alts = []
    for a in flatten(case['type']):
        A = w.type(a)
        if A not in alts:
            alts.append(A)
    assume(len(alts) > 1)
    U = w.type(case['type'])
    v = Validators(w, case['validators'])
    j = case['json']
    # What the single alternatives give; some of that is to be rejected.
    firsts = [r for r in (attempt(jsons.load, j, A) for A in alts) if not isinstance(r, Raised)]
    if firsts:
        tags = case['tags'] and {x for x in case['tags']}
        v.reject = (firsts[case['pick'] % len(firsts)], case['kind'], tags or None)
    expected = Raised(jsons.DeserializationError('none', j, None))
    for i, A in enumerate(alts):
        r = attempt(jsons.load, j, A, fork_inst=v.fork)
        if not isinstance(r, Raised):
            expected = r
            break
    plain_ = attempt(jsons.load, j, U)
    embed = case['as']
    if embed == 'list':
        T, j_, get = list[U], [j, j], lambda r: r[1]
    elif embed == 'dict':
        T, j_, get = dict[str, U], {'k': j}, lambda r: r['k']
        assume(str not in v.exact)
    else:
        T, j_, get = U, j, lambda r: r
    got = attempt(lambda: get(jsons.load(j_, T, fork_inst=v.fork)))
    changed = isinstance(expected, Raised) != isinstance(plain_, Raised) or (
        not isinstance(expected, Raised) and differ(plain_, expected) is not None)
    ctx.interesting(changed)
    ctx.label('another outcome due to the validator' if changed else 'same outcome')
    if isinstance(expected, Raised) and isinstance(got, Raised):
        require(isinstance(got.err, jsons.exceptions.JsonsError), '%s', got)
    else:
        same_outcome(expected, got, 'load(%s, %s), rejecting %s' % (short(j_), T, v.reject), message=False)


@st.composite
def s_union(draw):
    g = G(draw, max_defs=3, max_depth=1, unions=False, hashed=False, defaults=False, text=True,
          styles=['data', 'init', 'late', 'attrs'],
          atoms=['int', 'str', 'float', 'bool', 'datetime', 'date', 'decimal', 'uuid'])
    g.make_defs()
    alts = [g.type(0) if g.chance(2) else g.type(1) for _ in range(g.i(2, 4))]
    if g.chance(4):
        alts.append('none')
    t = ['union', alts]
    a = g.pick(alts)
    v = g.value(a)
    world.reset()
    j = mutate(draw, plain(World(g.defs).model(a, v)), 0 if g.chance(2) else 1)
    return {'defs': g.defs, 'type': t, 'json': j, 'validators': [[[x], False] for x in flatten(t)
                                                                if x != 'none' and (isinstance(x, str) or x[0] == 'ref')]
            + draw_targets(g, g.defs, t)[:g.i(0, 1)],
            'pick': g.i(0, 3), 'kind': g.pick(sorted(BAD) + sorted(RAISE)), 'as': g.pick(['no', 'no', 'list', 'dict']),
            'tags': draw(st.lists(st.integers(1, 4), max_size=2))}


PROP = Prop(
    'C15',
    'deep: generated classes, types and values; 1-4 validators on atoms, classes, enums, NamedTuples and NewTypes '
    '(also registered as sequence, overridden, on base classes), that record what they are asked; then one of the '
    'loaded parts, at any depth, is rejected by a falsy result or an error. union: generated unions of which '
    'some alternative\'s result is rejected. Non-trivial: at least one part is validated (union: the validator changes '
    'the outcome).',
    [
        Facet('deep', s_deep, check_deep, 6000, 120000, 6),
        Facet('union', s_union, check_union, 3500, 70000, 3),
    ],
    ['Values of attributes that are missing in the JSON (defaults) are not loaded and hence not validated.',
     'If several base classes have a validator, any of them is accepted. A NewType with a validator of its own is not '
     'also validated as the type behind it.',
     'Inside an Optional a rejected value makes the load fail with any jsons error (no alternative fits).'])
