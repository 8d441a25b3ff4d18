"""C17: Decorated functions receive and return converted values."""
import __future__
import asyncio
import functools
import inspect
import json
import warnings

from hypothesis import assume, strategies as st

import jsons
from jsons.decorators import dumped, loaded
from jv import world
from jv.common import S_DUMP_OPTS, S_LOAD_OPTS, Raised, attempt, jcompare, options
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import G, S_SMALL_JSON, mutate
from jv.world import World, differ, plain


class Default:
    """Defaults must arrive as they are."""


class Awaitable:
    """As the result of a coroutine, it is a result like any other."""

    def __await__(self):
        yield from ()
        return 'awaited'


class Recorder:
    def __init__(self):
        self.calls = []
        self.result = None

    def __call__(self, *args):
        self.calls.append(args)
        return self.result


def source(case, w):
    ns = world._module.__dict__
    parts = []

    def hint(t):
        return repr(w.src(t)) if case.get('text') == 2 else w.src(t)
    last = None
    for n, (kind, name, t, default) in enumerate(case['params']):
        if last == 'po' and kind != 'po':
            parts.append('/')
        if kind == 'ko' and last not in ('ko', 'vp'):
            parts.append('*')
        p = {'vp': '*', 'vk': '**'}.get(kind, '') + name
        if t is not None:
            p += ': ' + hint(t)
        if default:
            key = '_dflt_%d' % n
            ns.setdefault(key, Default())
            p += ' = ' + key
        parts.append(p)
        last = kind
    if last == 'po':
        parts.append('/')
    names = [p[1] for p in case['params']]
    ret = ' -> ' + hint(case['ret']) if case['ret'] is not None else ''
    first = {'method': ['self'], 'classmethod': ['cls']}.get(case['form'], [])
    body = 'return _rec(%s)' % ', '.join(first + names)
    if case['async']:
        body = 'await _asyncio.sleep(0)\n        ' + body
    src = '%sdef %s(%s)%s:\n        %s\n' % ('async ' if case['async'] else '', case['name'],
                                           ', '.join(first + parts), ret, body)
    return src


def build(case, w, deco, rec):
    """(undecorated function, how to call the decorated one, self or cls)"""
    ns = world._module.__dict__
    ns.update(_rec=rec, _asyncio=asyncio, _deco=deco)
    src = source(case, w)
    form = case['form']
    if case.get('text') == 1:
        def run(code):
            exec(compile(code, 'generated', 'exec', __future__.annotations.compiler_flag, True), ns)
    else:
        def run(code):
            exec(code, ns)
    if form == 'function':
        run('if True:\n    @_deco\n    ' + src)
        call, me = ns[case['name']], None
    else:
        outer = {'static': '    @staticmethod\n', 'classmethod': '    @classmethod\n'}.get(form, '')
        run('class Owner_:\n    def __init__(self):\n        self.attr_ = 1\n%s    @_deco\n    %s' % (outer, src))
        owner = ns['Owner_']
        inst = owner()
        name = case['name']
        if name.startswith('__'):
            name = '_Owner' + '_' + name if False else '_Owner_' + name
        on = inst if form == 'method' or case['on_inst'] else owner
        call = getattr(on, name)
        me = {'method': inst, 'classmethod': owner}.get(form)
    return call, me


def stacked(deco, how, is_async):
    """The decorator on top of (inner) or below (outer) another decorator that does nothing."""
    if not how:
        return deco
    where, which = how

    def nothing(f):
        if is_async:
            async def wrapper(*args, **kwargs):
                return await f(*args, **kwargs)
        else:
            def wrapper(*args, **kwargs):
                return f(*args, **kwargs)
        return functools.wraps(f)(wrapper)

    other = {'loaded': loaded(parameters=False, returnvalue=False),
             'dumped': dumped(parameters=False, returnvalue=False), 'wraps': nothing}[which]
    return (lambda f: deco(other(f))) if where == 'inner' else (lambda f: other(deco(f)))


def check_call(case, ctx):
    w = World(case['defs'])
    fork = jsons.JsonSerializable
    if case['fork']:
        fork = jsons.fork()

        def tagged(obj, *args, **kwargs):
            return 'T:' + str(obj)
        jsons.set_serializer(tagged, str, fork_inst=fork)
        jsons.set_deserializer(lambda obj, *args, **kwargs: 12345, int, fork_inst=fork)
    opts = options(case['opts'])
    fn = {'load': jsons.load, 'loads': jsons.loads, 'loadb': jsons.loadb,
          'dump': jsons.dump, 'dumps': jsons.dumps, 'dumpb': jsons.dumpb}[case['fn']]
    loading = case['fn'].startswith('load')
    kw = dict(opts)
    if case['fork'] or case['flags'][2]:
        kw['fork_inst'] = fork
    if not (case['flags'][0] and case['flags'][3]):
        kw['parameters'] = case['flags'][0]
    if not (case['flags'][1] and case['flags'][3]):
        kw['returnvalue'] = case['flags'][1]
    if case['fn'] not in ('load', 'dump') or case['flags'][4]:
        kw['loader' if loading else 'dumper'] = fn
    deco = stacked((loaded if loading else dumped)(**kw), case['stack'], case['async'])
    rec = Recorder()
    call, me = build(case, w, deco, rec)

    def conv(x, t):
        return attempt(fn, x, cls=None if t is None else w.type(t), fork_inst=fork, **opts)

    def material(t, v):
        if not loading:
            return w.value(t if t is not None else 'any', v) if t is not None else v
        if case['fn'] == 'loads':
            return json.dumps(v)
        if case['fn'] == 'loadb':
            return json.dumps(v).encode()
        return v

    # The arguments of the call.
    args, kwargs = [], {}
    for how, key, t, v in case['args']:
        x = material(t, v)
        if how == 'pos':
            args.append(x)
        else:
            kwargs[key] = x
    rec.result = material(case['ret'], case['retval'])
    if case.get('awaitable') and not case['flags'][1]:
        rec.result = Awaitable()

    # What must arrive. (Signature.bind of Python 3.12 refuses **kwargs with the name of a positional-only parameter.)
    ns = world._module.__dict__
    exec('def _probe_' + source({**case, 'form': 'function', 'async': False, 'name': '', 'text': 0, 'ret': None}, w)[4:]
         .split('\n')[0] + ' return locals()', ns)
    try:
        bound = ns['_probe_'](*args, **kwargs)
    except TypeError:
        bound = None
    expected, bad = [], None
    if bound is not None:
        for i, (k, n, t, d) in enumerate(case['params']):
            x = bound[n]
            if d and x is ns['_dflt_%d' % i]:
                expected.append(x)
            elif not case['flags'][0]:
                expected.append(x)
            elif k == 'vp':
                expected.append(tuple(conv(e, t) for e in x))
                bad = bad or any(isinstance(e, Raised) for e in expected[-1])
            elif k == 'vk':
                expected.append({a: conv(e, t) for a, e in x.items()})
                bad = bad or any(isinstance(e, Raised) for e in expected[-1].values())
            else:
                expected.append(conv(x, t))
                bad = bad or isinstance(expected[-1], Raised)
    expected_result = conv(rec.result, case['ret']) if case['flags'][1] else rec.result

    def go():
        r = call(*args, **kwargs)
        if case['async']:
            require(inspect.iscoroutine(r), '%s is no coroutine', short(r))
            r = asyncio.run(r)
        return r
    ctx.label(case['form'], case['fn'], *(['stacked'] if case['stack'] else []))
    got = attempt(go)
    if isinstance(got, Raised) and isinstance(got.err, Violation):
        raise got.err
    what = '%s%s called with %s, %s' % (source(case, w).split('\n')[0], case['flags'], short(args), short(kwargs))
    compare = differ if loading else jcompare
    if bound is None:
        require(isinstance(got, Raised) and not rec.calls, '%s: returned %s', what, short(got))
        require(isinstance(got.err, (TypeError, jsons.exceptions.JsonsError)), '%s: raised %s', what, got)
        ctx.label('does not bind')
        return
    if bad:
        require(isinstance(got, Raised) and isinstance(got.err, jsons.exceptions.JsonsError), '%s: %s', what, short(got))
        require(not rec.calls, '%s: the function was called', what)
        ctx.label('argument fails')
        return
    require(len(rec.calls) == 1, '%s: the function was called %d times; %s', what, len(rec.calls), short(got))
    received = list(rec.calls[0])
    if me is not None:
        first = received.pop(0)
        require(first is me, '%s: self/cls became %s', what, short(first))
    require(len(received) == len(expected), '%s: received %s', what, short(received))
    for (k, n, t, d), e, r in zip(case['params'], expected, received):
        if not case['flags'][0] and k not in ('vp', 'vk') or isinstance(e, Default):
            require(r is e, '%s: %s arrived as %s', what, n, short(r))
        elif k == 'vp':
            require(type(r) is tuple and len(r) == len(e), '%s: *%s is %s', what, n, short(r))
            for a, b in zip(e, r):
                diff(compare if case['flags'][0] else identical, a, b, what, n)
        elif k == 'vk':
            require(list(r) == list(e), '%s: **%s is %s', what, n, short(r))
            for a in e:
                diff(compare if case['flags'][0] else identical, e[a], r[a], what, n)
        else:
            diff(compare, e, r, what, n)
    ctx.interesting(bool(args or kwargs))
    if isinstance(expected_result, Raised):
        require(isinstance(got, Raised) and isinstance(got.err, jsons.exceptions.JsonsError),
                '%s returning %s: %s', what, short(rec.result), short(got))
        ctx.label('return value fails')
    else:
        require(not isinstance(got, Raised), '%s returning %s: %s', what, short(rec.result), got)
        diff(compare if case['flags'][1] else identical, expected_result, got, what, 'the result')


def identical(a, b):
    return None if a is b else '%s is not that object' % short(b)


def diff(compare, a, b, what, name):
    if not isinstance(a, (str, bytes)) or type(a) is not type(b):
        d = compare(a, b)
    else:
        d = None if a == b else 'expected %s, got %s' % (short(a), short(b))
    if d:
        raise Violation('%s: %s: %s' % (what, name, d))


NAMES = ['a', 'b', 'c', 'obj', 'json_obj', 'fork_inst', 'strict', 'args', 'kwargs', 'func', 'parameters', 'result',
         'mapper', 'self_', 'key', 'cls_', 'decorated']


@st.composite
def s_call(draw):
    loading = draw(st.booleans())
    g = G(draw, max_defs=2, max_depth=1, text=True, hashed=not loading, unions=loading, recursive=False,
          max_len=2, max_fields=3, styles=['data', 'init', 'attrs', 'late', 'slots'])
    g.make_defs()
    params = []
    names = draw(st.lists(st.sampled_from(NAMES), max_size=6, unique=True))
    stage, defaulted = 0, False
    order = ['po', 'pk', 'vp', 'ko', 'vk']
    for n in names:
        stage = g.i(stage, 4)
        if stage == 0 and not g.chance(2):
            stage = 1
        kind = order[stage]
        t = None if g.chance(5) else g.type(1)
        if kind in ('po', 'pk'):
            d = defaulted = defaulted or g.chance(4)
        else:
            d = kind == 'ko' and g.chance(3)
        params.append([kind, n, t, d])
        if kind in ('vp', 'vk'):
            stage += 1
        if stage > 4:
            break

    world.reset()
    w = World(g.defs)

    def value(t, sub=True):
        if t is None:
            return draw(S_SMALL_JSON) if loading else draw(st.one_of(st.integers(-5, 5), st.text(max_size=3), st.just([1, 'a'])))
        v = g.value(t)
        if not loading:
            return v
        try:
            j = plain(w.model(t, v))
        except RecursionError:
            j = None
        return mutate(draw, j, 1) if g.chance(20) else j

    args, keywords = [], False
    for kind, n, t, d in params:
        how = g.i(0, 9)
        if kind == 'vp':
            if not keywords:
                for _ in range(g.i(0, 3)):
                    args.append(['pos', None, t, value(t)])
        elif kind == 'vk':
            # The name of *args, of a positional-only parameter or of **kwargs itself is a name like any other here.
            taken = [p[1] for p in params if p[0] in ('po', 'vp', 'vk')]
            for k in draw(st.lists(st.sampled_from(['x1', 'x2', 'self_x', 'zz', 'cls2', 'args'] + 2 * taken
                                                   if 'args' not in [p[1] for p in params] else ['x1', 'x2', 'cls2'] + 2 * taken),
                                   max_size=2, unique=True)):
                args.append(['kw', k, t, value(t)])
        elif d and how < 3 or how == 0 and g.chance(4):
            keywords = True       # left out
        elif kind == 'ko' or (kind == 'pk' and (keywords or how < 6)):
            args.append(['kw', n, t, value(t)])
            keywords = True
        elif not keywords:
            args.append(['pos', None, t, value(t)])
    if g.chance(12):
        args.append(g.pick([['kw', 'extra', None, 1], ['pos', None, None, 1]]))
    ret = None if g.chance(4) else g.type(1)
    opts = draw(S_LOAD_OPTS if loading else S_DUMP_OPTS) if g.chance(2) else {}
    form = g.pick(['function', 'function', 'method', 'method', 'classmethod', 'static'])
    return {'defs': g.defs, 'params': params, 'args': args, 'ret': ret, 'retval': value(ret),
            'fn': g.pick(['load', 'load', 'load', 'loads', 'loadb'] if loading else ['dump', 'dump', 'dump', 'dumps', 'dumpb']),
            'form': form, 'async': g.chance(5), 'awaitable': g.chance(3), 'name': g.pick(['func', 'func', 'dump', 'f_', 'items', '__priv']),
            'text': g.pick([0, 0, 0, 1, 2]), 'on_inst': g.chance(2),
            'stack': [g.pick(['inner', 'outer']), g.pick(['loaded', 'dumped', 'wraps'])] if g.chance(4) else None, 'fork': g.chance(3), 'opts': opts,
            'flags': [not g.chance(4), not g.chance(4), g.chance(2), g.chance(2), g.chance(2)]}


# -- what cannot be decorated ----------------------------------------------------------

def check_invalid(case, ctx):
    ns = {}
    exec('class K:\n    def m(self, a: int) -> int:\n        return a\n    def s(a: int) -> int:\n        return a\n', ns)
    K = ns['K']
    what = {'class': K, 'builtin class': int, 'static': staticmethod(K.s), 'class method': classmethod(K.m)}[case['what']]
    fork = jsons.fork()
    if case['quiet']:
        jsons.suppress_warnings(True, fork)
    deco = loaded if case['loading'] else dumped
    kw = {'fork_inst': fork}
    if case['flags']:
        kw.update(parameters=False)
    if case['what2'] is not None:
        # Something else than the functions of jsons.
        kw['loader' if case['loading'] else 'dumper'] = {
            'json': json.loads if case['loading'] else json.dumps, 'none': None, 'str': 'load',
            'other': jsons.dump if case['loading'] else jsons.load, 'lambda': lambda *a, **k: 1}[case['what2']]
        r = attempt(lambda: deco(**kw))
        require(isinstance(r, Raised) and isinstance(r.err, jsons.InvalidDecorationError), '%s(%s) gives %s',
                deco.__name__, kw, short(r))
        ctx.interesting()
        return
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        r = attempt(lambda: deco(**kw)(what))
    require(isinstance(r, Raised) and isinstance(r.err, jsons.InvalidDecorationError), '%s()(%s) gives %s',
            deco.__name__, case['what'], short(r))
    ctx.interesting()
    ctx.label(case['what'])


def s_invalid():
    return st.fixed_dictionaries({
        'what': st.sampled_from(['class', 'builtin class', 'static', 'class method']), 'loading': st.booleans(),
        'flags': st.booleans(), 'quiet': st.booleans(),
        'what2': st.one_of(st.none(), st.sampled_from(['json', 'none', 'str', 'other', 'lambda']))})


PROP = Prop(
    'C17',
    'Generated signatures (all parameter kinds, annotations of generated types or none, defaults, parameter names equal '
    'to those used inside jsons) of functions, methods, class and static methods, plain or coroutines, called in '
    'generated shapes, decorated with loaded or dumped in the object, text or bytes variant, with generated options, '
    'forks and switches; arguments and results sometimes not convertible. Non-trivial: the call has arguments.',
    [
        Facet('call', s_call, check_call, 5000, 100000, 7),
        Facet('invalid', s_invalid, check_invalid, 100, 300, 1),
    ],
    ['Annotations given as text refer to names that are known when the function is called.', 'Arguments that are not given keep their defaults, as they are.'])
