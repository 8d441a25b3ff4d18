"""C13: Unions resolve by the documented order."""
import functools
import operator
import types
import typing

from hypothesis import assume, strategies as st

import jsons
from jv.common import Raised, attempt, jcompare, same_outcome
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, S_SMALL_JSON, mutate
from jv import world
from jv.world import World, differ, plain


def flatten(t):
    """The alternatives of a union spec, in order."""
    if isinstance(t, str) or t[0] not in ('union', 'opt'):
        return [t]
    alts = t[1] if t[0] == 'union' else [t[1], 'none']
    return [b for a in alts for b in flatten(a)]


def alternatives(w, t):
    res = []
    for a in flatten(t):
        T = w.type(a)
        if not any(T == T2 for T2 in res):
            res.append(T)
    return res


def admits_none(alts):
    return type(None) in alts


def first_load(alts, j, **opts):
    """(outcome, index of the alternative)"""
    for i, T in enumerate(alts):
        r = attempt(jsons.load, j, T, **opts)
        if not isinstance(r, Raised):
            return r, i
        require(isinstance(r.err, jsons.DeserializationError), 'load(%s, %s) raised %s', short(j), T, r)
    return Raised(jsons.DeserializationError('none', j, None)), None


def is_instance(o, T):
    origin = typing.get_origin(T) or T
    try:
        return isinstance(o, origin)
    except TypeError:
        return False


def first_dump(alts, o, **opts):
    if o is None and admits_none(alts):
        return None, alts.index(type(None))
    order = [i for i, T in enumerate(alts) if is_instance(o, T)]
    order += [i for i in range(len(alts)) if i not in order]
    for i in order:
        r = attempt(jsons.dump, o, alts[i], **opts)
        if not isinstance(r, Raised):
            return r, i
        require(isinstance(r.err, jsons.SerializationError), 'dump(%s, %s) raised %s', short(o), alts[i], r)
    return Raised(jsons.SerializationError('none')), None


def agree(expected, got, what, *info, compare=differ):
    if isinstance(expected, Raised) and isinstance(got, Raised):
        require(isinstance(got.err, (jsons.DeserializationError, jsons.SerializationError)), '%s raised %s', what, got)
    else:
        same_outcome(expected, got, what, *info, message=False, compare=compare)


def check_load(case, ctx):
    w = World(case['defs'])
    U = w.type(case['type'])
    alts = alternatives(w, case['type'])
    assume(len(alts) > 1)
    j = case['json']
    assume('-meta' not in repr(j))     # (A reserved key.)
    opts = case['opts']
    expected, i = first_load(alts, j, **opts)
    ctx.interesting(len(alts) > 1)
    ctx.label('none fits' if i is None else 'alternative %d of %d' % (i + 1, len(alts)))
    got = attempt(jsons.load, j, U, **opts)
    agree(expected, got, 'load(%s, %s)' % (short(j), U), alts)
    if j is None:
        require(isinstance(got, Raised) != (admits_none(alts) or typing.Any in alts),
                'load(None, %s) is %s', U, short(got))
    # The same where the union is part of something else.
    if case['embed'] != 'late' or not opts.get('strict'):
        embedded_load(U, case['embed'], j, expected, opts, alts)


def embedded_load(U, embed, j, expected, opts, info):
    for name, T, wrap, unwrap in embeddings(U, embed):
        got = attempt(lambda: unwrap(jsons.load(wrap(j), T, **opts)))
        agree(expected, got, 'load(%s, %s), as %s' % (short(wrap(j)), T, name), info)


def embeddings(U, which):
    """Fresh types around U, that typing does not remember."""
    ns = dict(world._module.__dict__, U=U)
    if which == 'list':
        return [('element', list[U], lambda j: [j, j], lambda r: r[1])]
    if which == 'dict':
        return [('value', dict[str, U], lambda j: {'k': j}, lambda r: r['k'])]
    if which == 'tuple':
        return [('element of a tuple', tuple[int, U], lambda j: [1, j], lambda r: r[1])]
    if which == 'data':
        exec('@dataclasses.dataclass\nclass Holder:\n    a: U\n', ns)
        return [('attribute', ns['Holder'], lambda j: {'a': j}, lambda r: r.a)]
    if which == 'init':
        exec('class Holder:\n    def __init__(self, a: U):\n        self.a = a\n', ns)
        return [('constructor argument', ns['Holder'], lambda j: {'a': j}, lambda r: r.a)]
    if which == 'late':
        exec('class Holder:\n    a: U\n', ns)
        return [('late attribute', ns['Holder'], lambda j: {'a': j}, lambda r: r.a)]
    if which == 'nt':
        exec('class Holder(typing.NamedTuple):\n    a: U\n', ns)
        return [('field', ns['Holder'], lambda j: {'a': j}, lambda r: r.a)]
    if which == 'deep':
        return [('deep element', list[dict[str, list[U]]], lambda j: [{'k': [j]}], lambda r: r[0]['k'][0])]
    return []


def check_dump(case, ctx):
    w = World(case['defs'])
    U = w.type(case['type'])
    alts = alternatives(w, case['type'])
    assume(len(alts) > 1)
    o = w.value(case['vtype'], case['value'])
    opts = case['opts']
    expected, i = first_dump(alts, o, **opts)
    ctx.interesting(len(alts) > 1)
    ctx.label('none fits' if i is None else 'alternative %d of %d' % (i + 1, len(alts)),
              'instance of %d' % sum(is_instance(o, T) for T in alts))
    agree(expected, attempt(jsons.dump, o, U, **opts), 'dump(%s, %s)' % (short(o), U), alts, compare=jcompare)
    if case['embed'] in ('data', 'nt', 'late', 'tuple', 'list'):
        for name, T, wrap, unwrap in embeddings(U, case['embed']):
            if case['embed'] == 'late':
                h = T()
                h.a = o
                get = lambda d: d['a']
                args, opts_ = (), opts
            elif case['embed'] == 'data':
                h, get, args, opts_ = T(o), lambda d: d['a'], (), opts
            elif case['embed'] == 'list':
                h, get, args, opts_ = [o], lambda d: d[0], (T,), opts
            else:
                continue
            got = attempt(lambda: get(jsons.dump(h, *args, **opts_)))
            if isinstance(expected, Raised):
                require(isinstance(got, Raised), 'dump as %s: %s', name, short(got))
            else:
                agree(expected, got, 'dump(%s, %s), as %s' % (short(h), T, name), alts, compare=jcompare)


def draw_union(g, dump=False):
    n = g.i(2, 4)
    alts = []
    for _ in range(n):
        k = g.i(0, 9)
        if k == 0:
            alts.append('none')
        elif k == 1 and n > 2:
            alts.append(['opt', g.type(1, ban=('none', 'any'))])
        elif k == 2:
            alts.append(['union', [g.type(1), g.type(0)]] + g.pepped())
        elif k < 6:
            alts.append(g.type(0))
        else:
            alts.append(g.type(2))
    t = ['union', alts] + g.pepped()
    return ['opt', t] + g.pepped() if g.chance(5) else t


STYLES = ['data', 'data', 'init', 'both', 'attrs', 'slots', 'late', 'ser']
EMBED = ['no', 'list', 'dict', 'tuple', 'data', 'init', 'late', 'nt', 'deep']


@st.composite
def s_load(draw):
    g = G(draw, max_defs=3, max_depth=2, styles=STYLES, text=True, unions=False, cvars=True)
    g.make_defs()
    t = draw_union(g)
    if g.chance(6):
        j = draw(S_SMALL_JSON)
    else:
        a = g.pick(flatten(t))
        v = g.value(a)
        world.reset()
        j = mutate(draw, plain(World(g.defs).model(a, v)))
    return {'defs': g.defs, 'type': t, 'json': j, 'embed': g.pick(EMBED),
            'opts': {'strict': True} if g.chance(5) else {'use_enum_name': g.chance(2)} if g.chance(6) else {}}


@st.composite
def s_dump(draw):
    # (Dumping a path as an unrelated class follows path.parent forever.)
    classes = draw(st.integers(0, 4)) > 0
    g = G(draw, max_defs=3 if classes else 0, max_depth=2, styles=STYLES, unions=False, newtypes=False,
          atoms=['int', 'str', 'float', 'bool', 'datetime', 'date', 'time', 'timedelta', 'timezone', 'decimal',
                 'uuid', 'complex', 'none'] + ([] if classes else ['path']))
    if classes:
        g.make_defs()
    t = draw_union(g)
    alts = flatten(t)
    vt = g.pick(alts) if not g.chance(4) else g.type(1)
    return {'defs': g.defs, 'type': t, 'vtype': vt, 'value': g.value(vt), 'embed': g.pick(EMBED),
            'opts': {'strict': True} if g.chance(4) else {}}


# -- the same alternatives in several orders, one after the other --------------------

def check_orders(case, ctx):
    w = World(case['defs'])
    Ts = [w.type(t) for t in case['alts']]
    done = []
    for op in case['ops']:
        perm = [Ts[i] for i in op['perm']]
        U = functools.reduce(operator.or_, perm) if op.get('pep') else typing.Union[tuple(perm)]
        want = list(typing.get_args(U)) if typing.get_origin(U) in (typing.Union, types.UnionType) else [U]
        if len(want) < 2:
            continue
        done.append((op['perm'], op['how'], op.get('pep')))
        if op['how'] == 'load':
            j = op['json']
            expected, i = first_load(want, j)
            agree(expected, attempt(jsons.load, j, U), 'load(%s, %s)' % (short(j), U), done)
            embedded_load(U, op['embed'], j, expected, {}, done)
        else:
            o = w.value(case['alts'][op['of']], op['value'])
            expected, i = first_dump(want, o)
            agree(expected, attempt(jsons.dump, o, U), 'dump(%s, %s)' % (short(o), U), done, compare=jcompare)
    ctx.interesting(len({tuple(p) for p, _, _ in done}) > 1)


@st.composite
def s_orders(draw):
    g = G(draw, max_defs=3, max_depth=1, styles=['data', 'init', 'late'], text=True, unions=False, newtypes=False,
          atoms=['int', 'str', 'float', 'bool', 'datetime', 'date', 'decimal', 'uuid', 'none', 'time'])
    g.make_defs()
    alts = []
    for _ in range(g.i(2, 4)):
        a = g.type(1)
        if a not in alts:
            alts.append(a)
    assume(len(alts) > 1)
    ops = []
    world.reset()
    w = World(g.defs)
    idx = list(range(len(alts)))
    for _ in range(g.i(2, 6)):
        of = g.pick(idx)
        v = g.value(alts[of])
        op = {'perm': draw(st.permutations(idx))[:g.i(2, len(idx))], 'how': g.pick(['load', 'load', 'dump']),
              'of': of, 'value': v, 'pep': g.chance(3), 'embed': g.pick(['no', 'list', 'data', 'nt', 'late', 'init'])}
        if op['how'] == 'load':
            j = plain(w.model(alts[of], v))
            op['json'] = mutate(draw, j, 1) if g.chance(3) else j
        ops.append(op)
    return {'defs': g.defs, 'alts': alts, 'ops': ops}


PROP = Prop(
    'C13',
    'load: a generated union of 2-6 types (atoms, containers, classes, enums, NewTypes, Any; nested and Optional), JSON '
    'of one alternative, mutated, or arbitrary, also with the union as element, value, attribute, argument or field; '
    'dump: values of one alternative or of another type; orders: the same alternatives in changing order and '
    'selection within one process. The expected result is the first success of the single alternatives. Non-trivial: '
    'at least two different alternatives (orders: at least two orders).',
    [
        Facet('load', s_load, check_load, 5000, 100000, 4),
        Facet('dump', s_dump, check_dump, 4000, 80000, 3),
        Facet('orders', s_orders, check_orders, 2500, 50000, 4),
    ],
    ['typing itself returns the same object for List[Union[A, B]] and List[Union[B, A]]; only one order of each such '
     'type occurs in a case, and typing\'s memory is cleared between cases.',
     'dump: Any and NewTypes as alternatives (of which nothing is an instance) are outside the domain.'])
