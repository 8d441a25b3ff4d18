"""C07: the result is of the requested type; None only where admitted."""
import json

from hypothesis import strategies as st

import jsons
from jv.common import Raised, attempt
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, STYLES, json_for
from jv.world import World, conforms

ATOMS = ['int', 'str', 'float', 'bool', 'datetime', 'date', 'time', 'timedelta', 'timezone',
         'zoneinfo', 'decimal', 'uuid', 'complex', 'path', 'winpath', 'none']


def check_conforms(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    res = attempt(jsons.load, case['json'], T, strict=case['strict'])
    if isinstance(res, Raised):
        ctx.label('raised')
        require(isinstance(res.err, jsons.JsonsError), 'load raised %s', res)
        return
    ctx.label('returned')
    ctx.interesting(isinstance(case['json'], (list, dict)) and bool(case['json']))
    e = conforms(w, case['type'], res)
    if e:
        raise Violation('the result of load is not of the type: %s\n  type: %s\n  json: %s'
                        % (e, w.src(case['type']), short(case['json'], 600)))


@st.composite
def s_conforms(draw):
    case = draw(json_for(text=False, hashed=True))
    case['strict'] = draw(st.booleans())
    return case


def admits(w, t):
    """Whether None is a value of the type."""
    if isinstance(t, str):
        return t in ('none', 'any')
    if t[0] == 'opt':
        return True
    if t[0] == 'union':
        return any(admits(w, a) for a in t[1])
    return False


POSITIONS = ['top', 'text', 'list', 'dict', 'tuple', 'vtuple', 'deque', 'nested', 'attr', 'attr_late',
             'dataclass', 'mapping', 'opt', 'union_rest', 'newtype']


def check_none(case, ctx):
    w = World(case['defs'])
    t = case['type']
    ok = admits(w, t)
    pos = case['pos']
    others = [w.value(t, v) for v in case['others']]
    jothers = [jsons.dump(o) for o in others]
    n = case['at'] % (len(jothers) + 1)
    jl = jothers[:n] + [None] + jothers[n:]
    outer, get = t, (lambda r: r)
    j = None
    if pos in ('list', 'vtuple', 'deque'):
        outer, j, get = [pos, t], jl, (lambda r: r[n])
    elif pos in ('dict', 'mapping'):
        outer, j, get = [pos, 'str', t], {'k%d' % i: x for i, x in enumerate(jl)}, (lambda r: r['k%d' % n])
    elif pos == 'tuple':
        outer, j, get = ['tuple', ['int', t]], [1, None], (lambda r: r[1])
    elif pos == 'nested':
        outer, j, get = ['dict', 'str', ['list', ['dict', 'str', t]]], {'x': [{'y': None}]}, \
            (lambda r: r['x'][0]['y'])
    elif pos in ('attr', 'attr_late', 'dataclass'):
        style = {'attr': 'init', 'attr_late': 'late', 'dataclass': 'data'}[pos]
        w.defs.append({'k': 'cls', 'n': 'Holder', 'style': style, 'f': [['held', t]], 'opts': {}})
        w.objs.append(w._make(len(w.defs) - 1))
        outer, j, get = ['ref', len(w.defs) - 1], {'held': None}, (lambda r: r.held)
    elif pos == 'opt':
        outer, ok = ['opt', t], True
    elif pos == 'union_rest':
        outer, ok = ['union', [t, 'none']], True
    elif pos == 'newtype':
        if ok:
            return
        w.defs.append({'k': 'newtype', 'n': 'Fresh', 't': t})
        w.objs.append(w._make(len(w.defs) - 1))
        outer = ['ref', len(w.defs) - 1]
    ctx.label('pos:' + pos, 'admits' if ok else 'rejects')
    ctx.interesting()
    T = w.type(outer)
    # (A dump may hold more than a strict load accepts, e.g. class variables.)
    strict = case['strict'] and pos != 'attr_late' and not any(
        isinstance(attempt(jsons.load, x, w.type(t), strict=True), Raised) for x in jothers)
    res = attempt(jsons.loads, json.dumps(j), T) if pos == 'text' else attempt(jsons.load, j, T, strict=strict)
    info = '\n  type: %s, json: %s' % (w.src(outer), short(j))
    if ok:
        if isinstance(res, Raised):
            raise Violation('null is rejected where %s admits it: %s%s' % (w.src(t), res, info))
        require(get(res) is None, 'null became %s%s', short(get(res)), info)
    else:
        require(isinstance(res, Raised), 'null is accepted for %s: %s%s', w.src(t), short(res), info)
        require(isinstance(res.err, jsons.DeserializationError), 'null for %s raised %s%s', w.src(t), res, info)


@st.composite
def s_none(draw):
    g = G(draw, max_depth=2, styles=[s for s in STYLES], cvars=True)
    g.make_defs()
    t = ['ref', len(g.defs) - 1] if g.defs and g.chance(3) else g.type()
    others = [g.value(t) for _ in range(g.i(0, 2))] if not (isinstance(t, str) and t == 'any') else []
    return {'defs': g.defs, 'type': t, 'pos': g.pick(POSITIONS), 'others': others, 'at': g.i(0, 2),
            'strict': g.chance(4)}


PROP = Prop(
    'C07',
    'conforms: JSON of a value of a generated type with 0-3 mutations (replace by any JSON, null, drop, add, wrap, swap '
    'sub-values), loaded strictly or not; if load returns, the result is checked recursively against the type. none: '
    'null for a generated type in one of 15 positions. Non-trivial: the JSON is a non-empty list/dict; every none case.',
    [
        Facet('conforms', s_conforms, check_conforms, 9000, 200000, 5),
        Facet('none', s_none, check_none, 4000, 80000, 3),
    ],
    ['bool counts as int (as in Python); the number of elements of a Tuple[A, B] is not part of this property.',
     'None passed for a NewType of an optional type is outside the domain.'])
