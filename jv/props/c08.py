"""C08: binding of constructor arguments."""
from hypothesis import strategies as st

import jsons
from jsons.exceptions import SignatureMismatchError, UnfulfilledArgumentError
from jv import world
from jv.common import Raised, attempt
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, S_SMALL_JSON
from jv.props.c07 import admits
from jv.world import World, differ, plain, same

NAMES = ['a', 'b', 'name', 'value', 'key', 'some_thing', 'x1', 'load', 'dump', 'cls', 'obj', 'strict', 'sig', 'sig_key',
         'orig_cls', 'meta_hints', 'args', 'kwargs', 'attr_getters', 'fork_inst', 'key_transformer', '_p', 'été', 'hints',
         'json', 'type']
EXTRA = ['extra', 'zz', 'other_one', 'a b', '', '1', 'é', 'self', 'with-dash', '_x', 'Name']


def build(w, case):
    """Define the class; returns it."""
    ns = world._module.__dict__
    params = case['params']
    recv = case['recv']
    sig = [recv]
    starred = False
    for k, p in enumerate(params):
        if k == case['npos'] and k:
            sig.append('/')
        if p['kw'] and not starred:
            sig.append('*' + (case['var'] or ''))
            starred = True
        s = p['n']
        if p['t'] is not None:
            s += ': ' + (repr(w.src(p['t'])) if case['str'] else w.src(p['t']))
        if p['d'] is not None:
            dk = '_dflt%d' % k
            ns[dk] = w.value(p['t'] or 'any', p['d'][0]) if p['d'] != ['NONE'] else None
            s += ' = ' + dk
        sig.append(s)
    if params and case['npos'] == len(params):
        sig.append('/')
    if case['var'] and not starred:
        sig.append('*' + case['var'])
    if case['varkw']:
        sig.append('**' + case['varkw'])
    lines = ['class Bound%s:' % ('(_Base)' if case['inherit'] else '')]
    if case['inherit']:
        ns['_Base'] = type('_Base', (), {'__module__': world.MODULE})
    for n, t in case['ann']:
        lines.append('    %s: %s' % (n, w.src(t)))
    init = ['    def __init__(%s):' % ', '.join(sig),
            '        %s.zz_got = {%s}' % (recv, ', '.join('%r: %s' % (p['n'], p['n']) for p in params))]
    if case['var']:
        init.append('        %s.zz_got["*"] = %s' % (recv, case['var']))
    if case['varkw']:
        init.append('        %s.zz_got["**"] = %s' % (recv, case['varkw']))
    lines += init
    lines += ['    @property', '    def read_only(self):', '        return 1',
              '    @property', '    def settable(self):', '        return self.zz_set',
              '    @settable.setter', '    def settable(self, v):', '        self.zz_set = v']
    if case['inherit']:
        lines += ['class Bound2(Bound):', '    pass']
    exec('\n'.join(lines), ns)
    return ns['Bound2' if case['inherit'] else 'Bound']


def expect(w, case, cls, calls):
    """(ctor arguments, attributes, permitted errors)."""
    j, getters, strict = case['json'], case['getters'], case['strict']
    names = [p['n'] for p in case['params']]
    got, errors = {}, []
    ns = world._module.__dict__
    expected_calls = {n: 0 for n in getters}
    for k, p in enumerate(case['params']):
        n, t = p['n'], p['t']
        if n in j:
            r = attempt(jsons.load, j[n], w.type(t) if t is not None else None, strict=strict)
            if isinstance(r, Raised):
                errors.append(('load', r))
            got[n] = r
        elif n in getters:
            got[n] = getters[n]
            expected_calls[n] = 1
        elif p['d'] is not None:
            got[n] = ns['_dflt%d' % k]
        elif t is None or admits(w, t):
            got[n] = None
        else:
            errors.append(('missing', n))
    if case['var']:
        got['*'] = ()
    if case['varkw']:
        got['**'] = {}
    attrs = {}
    ann = dict(case['ann'])
    extras = [n for n in j if n not in names]
    if strict and extras:
        errors.append(('extra', extras))
    for n in extras:
        if n == 'read_only':
            continue
        r = j[n]
        if n in ann:
            r = attempt(jsons.load, j[n], w.type(ann[n]), strict=strict)
            if isinstance(r, Raised):
                errors.append(('load', r))
        attrs['zz_set' if n == 'settable' else n] = r
    for n in getters:
        if n not in names:
            attrs['zz_set' if n == 'settable' else n] = getters[n]
            expected_calls[n] = 1
    return got, attrs, errors, expected_calls


def check_bind(case, ctx):
    w = World(case['defs'])
    cls = build(w, case)
    j = case['json']
    count = {n: 0 for n in case['getters']}

    def getter(n):
        def fn():
            count[n] += 1
            return case['getters'][n]
        return fn

    kwargs = {'strict': case['strict']}
    if case['getters'] or case['give']:
        kwargs['attr_getters'] = {n: getter(n) for n in case['getters']}
    got, attrs, errors, calls = expect(w, case, cls, count)
    import typing
    pos = case['pos']
    if pos == 'list':
        res = attempt(jsons.load, [j], typing.List[cls], **kwargs)
        res = res if isinstance(res, Raised) else res[0]
    elif pos == 'dict':
        res = attempt(jsons.load, {'k': j}, typing.Dict[str, cls], **kwargs)
        res = res if isinstance(res, Raised) else res['k']
    elif pos == 'opt':
        res = attempt(jsons.load, j, typing.Optional[cls], **kwargs)
    else:
        res = attempt(jsons.load, j, cls, **kwargs)
    info = 'params: %s\n  json: %s\n  getters: %s, strict: %s' % (
        case['params'], short(j, 500), case['getters'], case['strict'])
    ctx.interesting(len(case['params']) > 1)
    ctx.label('errors' if errors else 'fine', 'strict' if case['strict'] else 'lenient', 'pos:' + pos)
    if errors:
        require(isinstance(res, Raised), 'no error, though %s\n  %s', errors, info)
        require(isinstance(res.err, jsons.DeserializationError), 'raised %s\n  %s', res, info)
        if pos in ('opt', 'list') or (pos == 'dict' and errors[0][0] == 'load'):
            # The position may change the error.
            return
        for kind, what in errors:
            if kind == 'missing' and isinstance(res.err, UnfulfilledArgumentError):
                if res.err.argument == what and res.err.target is cls and what in str(res.err):
                    ctx.label('missing')
                    return
            if kind == 'extra' and isinstance(res.err, SignatureMismatchError):
                if res.err.argument in what and res.err.target is cls:
                    ctx.label('extra')
                    return
            if kind == 'load' and res.cls is what.cls and res.msg == what.msg:
                ctx.label('load')
                return
        raise Violation('raised %s (argument %r), expected one of %s\n  %s' % (
            res, getattr(res.err, 'argument', None), errors, info))
    require(not isinstance(res, Raised), 'raised %s\n  %s', res, info)
    require(type(res) is cls, 'got a %s\n  %s', type(res), info)
    same(got, res.zz_got, 'constructor arguments', info)
    actual = {n: v for n, v in res.__dict__.items() if n != 'zz_got'}
    same(attrs, actual, 'attributes set afterwards', info)
    for n, c in calls.items():
        require(count[n] == c, 'the getter of %s was called %d times, expected %d\n  %s', n, count[n], c, info)


@st.composite
def s_bind(draw):
    g = G(draw, max_defs=2, max_depth=1, text=True)
    g.make_defs()
    n = g.i(0, 5)
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    var = g.pick([None, None, None, 'args', 'rest'])
    varkw = g.pick([None, None, None, 'kwargs', 'more'])
    recv = g.pick(['self'] * 5 + ['this', '_', 'instance', 'cls', 'obj'])
    names = [x for x in names if x not in (var, varkw, recv)]
    if recv != 'self' and g.chance(2) and 'self' not in names:
        names.insert(g.i(0, len(names)), 'self')
    nkw = g.i(0, len(names)) if g.chance(2) else 0
    params, seen = [], False
    w = None
    for k, name in enumerate(names):
        kw = k >= len(names) - nkw
        t = None if g.chance(5) else (['ref', len(g.defs) - 1] if g.defs and g.chance(2) else g.type(1))
        if t is not None and g.chance(4):
            t = ['opt', t] if t not in ('any', 'none') else t
        d = None
        if g.chance(3) or (seen and not kw):
            d = ['NONE'] if g.chance(4) else [draw(simple) if t is None else g.value(t)]
            seen = True
        params.append({'n': name, 'kw': kw, 't': t, 'd': d})
    npos = g.i(0, len(names) - nkw) if g.chance(3) else 0
    ann = []
    for name in draw(st.lists(st.sampled_from(['extra', 'zz', 'other_one', '_x', 'args', 'kwargs', 'settable']),
                              max_size=2, unique=True)):
        if name not in names and name not in (var, varkw):
            ann.append([name, g.type(1)])
    ann = [a for a in ann if a[0] != 'settable']
    world.reset()
    w = World(g.defs)
    j = {}
    hints = {p['n']: p['t'] for p in params}
    hints.update(dict(ann))
    keys = [p['n'] for p in params]
    keys = [k for k in keys if not g.chance(4)]
    keys += draw(st.lists(st.sampled_from(EXTRA + ['read_only', 'settable', 'args', 'kwargs', 'rest', 'more']
                                          + [a[0] for a in ann]), max_size=3)) if g.chance(2) else []
    keys = draw(st.permutations(keys)) if g.chance(2) else keys
    for k in keys:
        t = hints.get(k)
        r = g.i(0, 9)
        if r == 0:
            j[k] = None
        elif r == 1 and t is not None:
            j[k] = draw(simple)
        elif t is None:
            j[k] = draw(simple)
        else:
            j[k] = plain(w.model(t, g.value(t)))
    getters = {}
    if g.chance(2):
        pool = [p['n'] for p in params] + ['zz', 'extra', 'settable', 'got_it']
        getters = draw(st.dictionaries(st.sampled_from(pool), simple, max_size=3))
    return {'defs': g.defs, 'params': params, 'var': var, 'varkw': varkw, 'ann': ann, 'json': j,
            'getters': getters, 'strict': g.chance(3), 'str': g.chance(4), 'inherit': g.chance(4),
            'give': g.chance(5), 'recv': recv, 'npos': npos, 'pos': g.pick(['top', 'top', 'list', 'dict', 'opt'])}


simple = st.one_of(st.integers(-5, 5), st.sampled_from(['', 'x', 'abc', 'None']), st.booleans(), st.none(),
                   st.floats(0.5, 2.5), st.lists(st.integers(0, 3), max_size=2),
                   st.dictionaries(st.sampled_from(['p', 'q']), st.integers(0, 3), max_size=2))


# -- dataclasses, attrs, NamedTuples: the same rule ------------------------------------

def check_fields(case, ctx):
    w = World(case['defs'])
    i = len(w.defs) - 1
    d, cls = w.defs[i], w.objs[i]
    j = case['json']
    strict = case['strict']
    is_nt = d['k'] == 'nt'
    strip = d.get('style') == 'attrs'
    ctx.label('nt' if is_nt else d['style'], 'strict' if strict else 'lenient')
    got, errors = {}, []
    fields = w.fields(i)
    for n, t, df in fields:
        k = n.lstrip('_') if strip else n
        if k in j:
            r = attempt(jsons.load, j[k], w.type(t), strict=strict)
            if isinstance(r, Raised):
                errors.append(k)
            got[n] = r
        elif df:
            got[n] = w.value(t, df[0])
        elif admits(w, t):
            got[n] = None
        else:
            errors.append(k)
    known = [(n.lstrip('_') if strip else n) for n, _, _ in fields]
    if strict and not is_nt and any(k not in known for k in j):
        errors.append('extra')
    res = attempt(jsons.load, j, cls, strict=strict)
    ctx.interesting(len(fields) > 0 and set(j) != set(known))
    info = 'class: %s\n  json: %s' % (d, short(j, 500))
    if errors:
        ctx.label('errors')
        require(isinstance(res, Raised), 'no error, though %s are wrong: %s\n  %s', errors, short(res), info)
        if isinstance(res.err, UnfulfilledArgumentError) and res.err.target is cls:
            require(res.err.argument in errors, 'the error names %r, expected %s\n  %s', res.err.argument, errors, info)
        return
    ctx.label('fine')
    require(not isinstance(res, Raised), 'raised %s\n  %s', res, info)
    require(type(res) is cls, 'got %s', type(res))
    for n in got:
        e = differ(got[n], getattr(res, n))
        require(e is None, 'field %s: %s\n  %s', n, e, info)


@st.composite
def s_fields(draw):
    g = G(draw, max_defs=2, max_depth=2, text=True, recursive=False)
    g.make_defs()
    if g.chance(3):
        i = g._def_nt(g.new_name())
    else:
        i = g._def_cls(g.new_name(), style=g.pick(['data', 'attrs', 'ser', 'init', 'kwonly']))
    world.reset()
    w = World(g.defs)
    strip = g.defs[i].get('style') == 'attrs'
    frozen = g.defs[i].get('opts', {}).get('frozen') or g.defs[i].get('opts', {}).get('slots') \
        or g.defs[i]['k'] == 'nt'
    j = {}
    for n, t, _ in w.fields(i):
        if not g.chance(3):
            j[n.lstrip('_') if strip else n] = None if g.chance(8) else plain(w.model(t, g.value(t)))
    if g.chance(4) and not frozen:
        j['unknown'] = 5
    if g.defs[i]['k'] == 'nt' and g.chance(4):
        j['unknown'] = 5
    if g.chance(2):
        j = {k: j[k] for k in draw(st.permutations(list(j)))}
    return {'defs': g.defs, 'json': j, 'strict': g.chance(3)}


PROP = Prop(
    'C08',
    'bind: a generated class (0-6 parameters, positional(-only)/keyword-only, with any name of the receiver, with/without hint and default, *args/**kwargs, '
    'annotated attributes, properties with and without setter, inherited constructor), a random subset of keys, extras, '
    'getters, loaded at four positions; compared with a reference binder. fields: dataclasses, attrs classes, '
    'NamedTuples with missing keys. Non-trivial: at least two parameters (bind); keys differ from the fields (fields).',
    [
        Facet('bind', s_bind, check_bind, 6000, 120000, 5),
        Facet('fields', s_fields, check_fields, 4000, 80000, 3),
    ],
    ['Strict mode does not apply to NamedTuples.'])
