"""C19: One failing element or attribute does not harm the others."""
import collections
import datetime as dt
import re
import typing
import warnings

from hypothesis import assume, strategies as st

import jsons
from jv import world
from jv.common import Raised, attempt, jcompare, same_outcome
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, S_SMALL_JSON, mutate
from jv.world import World, differ, plain


class Failed(Exception):
    pass


ERRORS = {
    'value': lambda: ValueError('no'), 'type': lambda: TypeError('no'), 'key': lambda: KeyError('no'),
    'ser': lambda: jsons.SerializationError('no'), 'deser': lambda: jsons.DeserializationError('no', 1, int),
    'own': lambda: Failed(), 'attr': lambda: AttributeError('a'), 'stop': lambda: StopIteration(),
    'rec': lambda: RecursionError('deep'), 'fmt': lambda: ValueError('{} %s {x}'), 'warn': lambda: UserWarning('w'),
}


class Bad:
    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'Bad(%s)' % self.kind

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return self is other


class BadSub(Bad):
    pass


def fail(obj, **kwargs):
    raise ERRORS[obj.kind]()


def gen():
    yield 1


LEAVES = {
    'int': (int, 5, 5), 'str': (str, 'x', 'x'), 'none': (type(None), None, None), 'float': (float, 0.5, 0.5),
    'date': (dt.date, dt.date(2020, 1, 2), '2020-01-02'), 'bool': (bool, True, True),
}
FAIL = object()


class Tree:
    """The object of a case and what must become of it."""

    def __init__(self, ctx):
        self.n = 0
        self.ctx = ctx
        self.faults = 0

    def build(self, node):
        """(value, type)"""
        k = node[0]
        if k == 'leaf':
            T, v, _ = LEAVES[node[1]]
            return v, T
        if k == 'bad':
            self.faults += 1
            if node[1] == 'gen':
                return gen(), object
            if node[1] == 'hint':
                return 'x', int
            b = (BadSub if node[2] else Bad)(node[1])
            return b, type(b)
        if k == 'list':
            return [self.build(x)[0] for x in node[1]], list
        if k == 'tuple':
            return tuple(self.build(x)[0] for x in node[1]), tuple
        if k == 'deque':
            return collections.deque(self.build(x)[0] for x in node[1]), collections.deque
        if k == 'dict':
            return {n: self.build(x)[0] for n, x in node[1]}, dict
        self.n += 1
        _, style, hints, attrs = node
        name = 'Obj%d' % self.n
        ns = dict(world._module.__dict__)
        lines, vals = [], {}
        for i, (n, x) in enumerate(attrs):
            v, T = self.build(x)
            vals[n] = v
            # A value of another type than its hint cannot be dumped: only to be used on purpose.
            ns['_T%d' % i] = T if hints or x[:2] == ['bad', 'hint'] else typing.Any
        names = [n for n, _ in attrs]
        params = ', '.join('%s: _T%d' % (n, i) for i, n in enumerate(names))
        if style == 'data':
            src = '@dataclasses.dataclass\nclass %s:\n' % name + (
                ''.join('    %s: _T%d\n' % (n, i) for i, n in enumerate(names)) or '    pass\n')
        elif style == 'attrs':
            src = '@attr.s(auto_attribs=True)\nclass %s:\n' % name + (
                ''.join('    %s: _T%d\n' % (n, i) for i, n in enumerate(names)) or '    pass\n')
        elif style == 'slots':
            src = 'class %s:\n    __slots__ = %r\n' % (name, tuple(names))
        elif style == 'prop':
            src = 'class %s:\n    def __init__(self, v):\n        self._v = v\n' % name + ''.join(
                '    @property\n    def %s(self):\n        return self._v[%r]\n' % (n, n) for n in names)
        elif style == 'classvar':
            for n in names:
                ns['_v_' + n] = vals[n]
            src = 'class %s:\n' % name + (''.join('    %s = _v_%s\n' % (n, n) for n in names) or '    pass\n')
        elif style == 'nt':
            src = 'class %s(typing.NamedTuple):\n' % name + ''.join(
                '    %s: _T%d\n' % (n, i) for i, n in enumerate(names))
        else:
            src = 'class %s:\n    def __init__(self%s):\n' % (name, ''.join(
                ', %s' % n + (': _T%d' % i if hints else '') for i, n in enumerate(names)))
            src += ''.join('        self.%s = %s\n' % (n, n) for n in names) + '        pass\n'
        exec(src, ns)
        cls = ns[name]
        if style in ('data', 'attrs', 'nt', 'init'):
            return cls(**vals), cls
        if style == 'prop':
            o = cls.__new__(cls)
            object.__setattr__(o, '_v', vals)
            return o, cls
        o = cls()
        if style == 'slots':
            for n in names:
                setattr(o, n, vals[n])
        return o, cls

    def expect(self, node, must, may):
        """The dump or FAIL; the attributes to warn of, and those that may be."""
        k = node[0]
        if k == 'leaf':
            return LEAVES[node[1]][2]
        if k == 'bad':
            return FAIL
        if k in ('list', 'tuple', 'deque', 'dict') or k == 'obj' and node[1] == 'nt':
            pairs = list(enumerate(node[1])) if k in ('list', 'tuple', 'deque') else node[1] if k == 'dict' else node[3]
            sub = []
            res = [(n, self.expect(x, sub, may)) for n, x in pairs]
            if any(r is FAIL for _, r in res):
                may += sub
                return FAIL
            must += sub
            return dict(res) if k in ('dict', 'obj') else [r for _, r in res]
        res = {}
        for n, x in node[3]:
            if x[:2] == ['bad', 'hint'] and node[1] not in ('data', 'attrs'):
                r = 'x'
            else:
                r = self.expect(x, must, may)
            if r is FAIL:
                must.append(n)
            else:
                res[n] = r
        return res


def has_prop(node):
    if node[0] == 'obj':
        return node[1] == 'prop' or any(has_prop(x) for _, x in node[3])
    if node[0] == 'dict':
        return any(has_prop(x) for _, x in node[1])
    return node[0] in ('list', 'tuple', 'deque') and any(has_prop(x) for x in node[1])


def check_attrs(case, ctx):
    tree = Tree(ctx)
    o, _ = tree.build(case['tree'])
    fork = jsons.fork()
    jsons.set_serializer(fail, Bad, fork_inst=fork)
    must, may = [], []
    expected = tree.expect(case['tree'], must, may)
    opts = {}
    if case['strip_nulls']:
        opts['strip_nulls'] = True
        expected = expected if expected is FAIL else strip(expected, case['tree'])
    strict = case['strict']
    if strict:
        opts['strict'] = True
    ctx.interesting(bool(must))
    ctx.label('%d failing attributes' % min(len(must), 6), 'strict' if strict else 'not strict')
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = attempt(jsons.dump, o, fork_inst=fork, **opts)
    msgs = [str(r.message) for r in rec]
    info = 'dump(%s, %s)' % (describe(case['tree']), opts)
    if expected is FAIL or strict and (must or may):
        require(isinstance(got, Raised) and isinstance(got.err, jsons.SerializationError), '%s gives %s', info, short(got))
        return
    require(not isinstance(got, Raised), '%s: %s', info, got)
    # An underscore attribute holds the values of the properties; not of interest.
    got = clean(got)
    d = jcompare(ordered(expected), ordered(got))
    require(d is None, '%s: %s', info, d)
    warned = collections.Counter()
    for m in msgs:
        names = re.findall(r'"([^"]*)"', m)
        require(names, '%s: the warning names no attribute: %s', info, m)
        warned[names[0]] += 1
    warned.pop('_v', None)
    need = collections.Counter(must)
    for n in need:
        require(warned[n] >= need[n], '%s: %d warnings for attribute %s, expected %d: %s', info, warned[n], n, need[n], msgs)
    extra = warned - need - collections.Counter(may)
    require(not extra or has_prop(case['tree']), '%s: unexpected warnings for %s: %s', info, dict(extra), msgs)


def ordered(d):
    """The order of the attributes of an object is nobody's business here."""
    if isinstance(d, dict):
        return {k: ordered(d[k]) for k in sorted(d)}
    return [ordered(x) for x in d] if isinstance(d, list) else d


def clean(d):
    if isinstance(d, dict):
        return {k: clean(v) for k, v in d.items() if k != '_v'}
    return [clean(x) for x in d] if isinstance(d, list) else d


def strip(d, node):
    k = node[0]
    if k == 'obj' and node[1] != 'nt':
        sub = dict((n, x) for n, x in node[3])
        return {n: strip(v, sub[n]) for n, v in d.items() if v is not None}
    if k == 'obj':
        sub = dict((n, x) for n, x in node[3])
        return {n: strip(v, sub[n]) for n, v in d.items()}
    if k == 'dict':
        sub = dict((n, x) for n, x in node[1])
        return {n: strip(v, sub[n]) for n, v in d.items() if v is not None}
    if k in ('list', 'tuple', 'deque'):
        return [strip(v, x) for v, x in zip(d, node[1])]
    return d


def describe(node):
    k = node[0]
    if k in ('leaf', 'bad'):
        return '%s' % node[1] if k == 'leaf' else 'BAD(%s)' % node[1]
    if k in ('list', 'tuple', 'deque'):
        return '%s(%s)' % (k, ', '.join(describe(x) for x in node[1]))
    pairs = node[1] if k == 'dict' else node[3]
    return '%s{%s}' % (k if k == 'dict' else node[1], ', '.join('%s: %s' % (n, describe(x)) for n, x in pairs))


NAMES = ['a', 'b', 'c', 'name', 'x1', 'two_words', 'Z']


@st.composite
def s_attrs(draw):
    i = lambda a, b: draw(st.integers(a, b))
    pick = lambda xs: draw(st.sampled_from(xs))

    def node(depth, direct=False):
        k = i(0, 11)
        if depth <= 0 or k < 4:
            return ['leaf', pick(sorted(LEAVES))]
        if k < 7:
            kinds = sorted(ERRORS) + (['gen', 'hint', 'hint'] if direct else ['gen'])
            return ['bad', pick(kinds), pick([False, False, True])]
        if k == 7:
            return [pick(['list', 'list', 'tuple', 'deque']), [node(depth - 1) for _ in range(i(0, 3))]]
        if k == 8:
            ns = draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True))
            return ['dict', [[n, node(depth - 1)] for n in ns]]
        return obj(depth)

    def obj(depth):
        ns = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
        style = pick(['data', 'data', 'init', 'init', 'attrs', 'slots', 'prop', 'classvar', 'nt'])
        # (Strictly, unhinted attributes do not belong to a class.)
        return ['obj', style, strict or draw(st.booleans()), [[n, node(depth - 1, style in ('data', 'attrs'))] for n in ns]]
    strict = i(0, 4) == 0
    depth = i(1, 4)
    tree = obj(depth) if i(0, 4) else ['list', [obj(depth) for _ in range(i(0, 3))]]
    return {'tree': tree, 'strict': strict, 'strip_nulls': i(0, 4) == 0}


# -- elements ---------------------------------------------------------------------------

POSITIONS = ['top', 'top', 'top', 'attr', 'init', 'dict', 'late']


def place(pos, T, j):
    ns = dict(world._module.__dict__, T=T)
    if pos == 'top':
        return T, j, lambda r: r
    if pos == 'dict':
        return typing.Dict[str, T], {'k': j}, lambda r: r['k']
    src = {'attr': '@dataclasses.dataclass\nclass Holder:\n    elems: T\n',
           'init': 'class Holder:\n    def __init__(self, elems: T):\n        self.elems = elems\n',
           'late': 'class Holder:\n    elems: T\n'}[pos]
    exec(src, ns)
    return ns['Holder'], {'elems': j}, lambda r: r.elems


def check_elements(case, ctx):
    w = World(case['defs'])
    E = w.type(case['elem'])
    L = w.type([case['kind'], case['elem']])
    elems = case['elems']
    opts = {'strict': True} if case['strict'] else {}
    singles = [attempt(jsons.load, e, E, **opts) for e in elems]
    for s in singles:
        if isinstance(s, Raised) and not isinstance(s.err, jsons.DeserializationError):
            raise Violation('load of an element raised %s' % s)
    bad = [i for i, s in enumerate(singles) if isinstance(s, Raised)]
    T, j, get = place(case['pos'], L, elems)
    assume(not (case['strict'] and case['pos'] == 'late'))
    kw = dict(opts)
    if case['warn']:
        kw['warn_on_fail'] = True
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        got = attempt(lambda: get(jsons.load(j, T, **kw)))
    msgs = [str(r.message) for r in rec]
    info = 'load(%s, %s, %s)' % (short(j, 600), T, kw)
    ctx.interesting(bool(bad) and len(elems) > 1)
    ctx.label('%d of %d fail' % (min(len(bad), 4), min(len(elems), 6)), 'warn' if case['warn'] else 'raise')
    if bad and not case['warn']:
        require(isinstance(got, Raised) and isinstance(got.err, jsons.DeserializationError), '%s gives %s', info, short(got))
        m = re.search(r'index (\d+)', got.msg)
        require(m and int(m.group(1)) == bad[0], '%s: the error must name index %d: %s', info, bad[0], short(got.msg))
        require(not msgs, '%s warned: %s', info, msgs)
        return
    require(not isinstance(got, Raised), '%s: %s', info, got)
    good = [s for s in singles if not isinstance(s, Raised)]
    want = {'set': set, 'bset': set, 'frozenset': frozenset, 'deque': collections.deque}.get(case['kind'], list)(good)
    d = differ(want, got)
    require(d is None, '%s: %s', info, d)
    require(len(msgs) == len(bad), '%s: %d warnings instead of %d: %s', info, len(msgs), len(bad), msgs)
    for i, m in zip(bad, msgs):
        found = re.search(r'index (\d+)', m)
        require(found and int(found.group(1)) == i, '%s: warning %r is not about index %d', info, short(m), i)


@st.composite
def s_elements(draw):
    g = G(draw, max_defs=3, max_depth=1, text=True, unions=False, hashed=False,
          styles=['data', 'init', 'attrs', 'late', 'slots'])
    g.make_defs()
    kind = g.pick(['list', 'list', 'list', 'blist', 'seq', 'iter', 'deque', 'set', 'frozenset'])
    inner = g.type(1, hashable=kind in ('set', 'frozenset'))
    # (The elements of a list within a list are the business of that list.)
    assume('list' not in str(inner) and 'seq' not in str(inner) and 'deque' not in str(inner)
           and 'set' not in str(inner) and 'iter' not in str(inner))
    world.reset()
    w = World(g.defs)
    elems = []
    for _ in range(g.i(0, 6)):
        k = g.i(0, 5)
        if k == 0:
            e = draw(S_SMALL_JSON)
        else:
            e = plain(w.model(inner, g.value(inner)))
            if k < 3:
                e = mutate(draw, e, 1)
        elems.append(e)
    return {'defs': g.defs, 'elem': inner, 'kind': kind, 'elems': elems, 'strict': g.chance(4), 'warn': g.chance(2),
            'pos': g.pick(POSITIONS)}


PROP = Prop(
    'C19',
    'attributes: generated trees of objects (dataclasses, attrs, plain, slotted classes, properties, class variables, '
    'NamedTuples) and containers in which any subset of the parts cannot be dumped (serializers raising eleven kinds of '
    'errors, values that contradict their hint, values that cannot be iterated); elements: lists, sets and deques of '
    'generated elements some of which cannot be loaded, with and without warn_on_fail, at several positions. '
    'Non-trivial: some attribute fails; some element fails and there are others.',
    [
        Facet('attributes', s_attrs, check_attrs, 6000, 120000, 6),
        Facet('elements', s_elements, check_elements, 5000, 100000, 4),
    ],
    ['Properties that raise when they are read are outside the domain.',
     'A container (or NamedTuple) with a failing part fails as a whole: it belongs to the next object around it.'])
