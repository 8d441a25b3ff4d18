"""C12: verbose dumps."""
import copy
import datetime as dt
import enum
import itertools
import sys

from hypothesis import assume, strategies as st

import jsons
from jsons.exceptions import UnknownClassError
from jv.common import attempt, Raised
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import ATOMS_ALL, G
from jv.props.c01 import note
from jv.world import MODULE, World, attrs_of, dynamic, forget, same, strict_eq

V = jsons.Verbosity
VERBOSITY = {
    'class': (V.WITH_CLASS_INFO, True, False), 'time': (V.WITH_DUMP_TIME, False, True),
    'all': (V.WITH_EVERYTHING, True, True), 'both': (V.WITH_CLASS_INFO | V.WITH_DUMP_TIME, True, True),
    'true': (True, True, True), 'nothing': (V.WITH_NOTHING, False, False), 'false': (False, False, False),
    'none': (None, False, False), 'one': (1, True, True), 'zero': (0, False, False),
}


def strip(j):
    if isinstance(j, dict):
        return {k: strip(v) for k, v in j.items() if k != '-meta'}
    if isinstance(j, list):
        return [strip(x) for x in j]
    return j


def is_object(o):
    return (dynamic(type(o)) and not isinstance(o, (enum.Enum, tuple)))


def qualname(o):
    return '%s.%s' % (type(o).__module__, type(o).__name__)


def check_time(text, before, after, path):
    require(isinstance(text, str) and text.endswith('Z') and len(text) == 20, '%s: dump_time is %r', path, text)
    t = dt.datetime.strptime(text, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=dt.timezone.utc)
    require(before.replace(microsecond=0) <= t <= after, '%s: dump_time is %s, dumped between %s and %s',
            path, text, before, after)


def walk(o, d, own, path, opts, count):
    """own: the object carries its own -meta; otherwise own is (classes, path) of the
    object above it."""
    classes, times, before, after = opts
    if is_object(o):
        require(isinstance(d, dict), '%s: %s', path, short(d))
        if own is None:
            count[0] += 1
            require('-meta' in d or not (classes or times), '%s: no -meta: %s', path, short(d))
            meta = d.get('-meta')
            if not (classes or times):
                require(meta is None, '%s: unexpected -meta: %s', path, short(d))
            else:
                want = ['classes'] * classes + ['dump_time'] * times
                require(isinstance(meta, dict) and sorted(meta) == want, '%s: -meta is %s, not of %s', path,
                        short(meta), want)
            if times:
                check_time(meta['dump_time'], before, after, path)
            if classes:
                require(isinstance(meta['classes'], dict) and meta['classes'].get('/') == qualname(o),
                        '%s: class is %s: %s', path, qualname(o), meta)
            own = (meta['classes'], '') if classes else None
        elif own:
            count[1] += 1
            require('-meta' not in d, '%s: -meta in the dump of an attribute: %s', path, short(d))
            require(own[0].get(own[1]) == qualname(o), '%s: class of attribute %s is %s, not %s: %s', path, own[1],
                    qualname(o), own[0].get(own[1]), own[0])
        public = hasattr(type(o), '__attrs_attrs__')
        for n in attrs_of(o):
            key = n.lstrip('_') if public else n
            require(key in d, '%s: no %s in %s', path, key, short(d))
            value = getattr(o, n)
            if is_object(value):
                walk(value, d[key], (own[0], own[1] + '/' + key) if own else False, '%s.%s' % (path, n), opts, count)
            else:
                walk(value, d[key], None, '%s.%s' % (path, n), opts, count)
        return
    if isinstance(o, tuple) and hasattr(o, '_fields'):
        for n in o._fields:
            walk(getattr(o, n), d[n], None, '%s.%s' % (path, n), opts, count)
    elif isinstance(o, dict):
        for k, x in o.items():
            if type(k) is str:
                walk(x, d[k], None, '%s[%r]' % (path, k), opts, count)
    elif isinstance(o, (list, tuple)):
        for i, (x, y) in enumerate(zip(o, d)):
            walk(x, y, None, '%s[%d]' % (path, i), opts, count)


def check_meta(case, ctx):
    w = World(case['defs'])
    v = w.value(case['type'], case['value'])
    arg, classes, times = VERBOSITY[case['verbose']]
    opts = case['opts']
    plain = jsons.dump(v, **opts)
    before = dt.datetime.now(dt.timezone.utc)
    d = jsons.dump(v, verbose=arg, **opts)
    after = dt.datetime.now(dt.timezone.utc)
    require(strict_eq(plain, strip(d)), 'verbose dump without -meta is not the plain dump:\n  %s\n  %s',
            short(d, 800), short(plain, 800))
    count = [0, 0]
    walk(v, d, None, '$', (classes, times, before, after), count)
    ctx.label(case['verbose'])
    ctx.interesting(count[0] > 1 or count[1] > 0)


FEATURES = dict(max_defs=4, text=True, subs=True,
                atoms=[a for a in ATOMS_ALL if a != 'any'],
                containers=['list', 'list', 'dict', 'dict', 'opt', 'opt', 'tuple', 'vtuple', 'set', 'frozenset',
                            'deque', 'seq', 'iter', 'mapping', 'odict', 'ddict', 'blist', 'bdict', 'btuple', 'bset',
                            'mmapping', 'union'])
STYLES = ['data', 'data', 'data', 'init', 'init', 'both', 'attrs', 'slots', 'ser', 'kwonly', 'late']


def draw_case(draw, top=('obj', 'obj', 'obj', 'list', 'dict'), **features):
    g = G(draw, **dict(FEATURES, styles=STYLES, cvars=True, **features))
    g.make_defs(g.i(0, 2))
    i = g._def_cls(g.new_name())
    if g.chance(2):
        g._def_cls(g.new_name(), base=i)
    if g.chance(2):
        g._def_cls(g.new_name())
    i = len(g.defs) - 1
    t = ['ref', i]
    kind = g.pick(list(top))
    if kind == 'list':
        t = ['list', t]
    elif kind == 'dict':
        t = ['dict', 'str', t]
    return {'defs': g.defs, 'type': t, 'value': g.value(t)}


@st.composite
def s_meta(draw):
    case = draw_case(draw)
    case['verbose'] = draw(st.sampled_from(list(VERBOSITY)))
    case['opts'] = {'use_enum_name': False} if draw(st.integers(0, 4)) == 0 else {}
    return case


def has_sub(v):
    if isinstance(v, dict):
        return 'sub' in v or any(has_sub(x) for x in v.values())
    return isinstance(v, list) and any(has_sub(x) for x in v)


def check_round(case, ctx):
    w = World(case['defs'])
    ctx.interesting(len(case['defs']) > 1 or has_sub(case['value']))
    ctx.label(case['how'], 'subclass' if has_sub(case['value']) else 'no subclass')
    for d in case['defs']:
        ctx.label('def:' + d['k'] + (':' + d['style'] if d['k'] == 'cls' else ''))
    v = w.value(case['type'], case['value'])
    expected = w.back(case['type'], case['value'])
    verbose = VERBOSITY[case['verbose']][0]
    how = case['how']
    if how == 'memory':
        d = jsons.dump(v, verbose=verbose)
        if case['fresh']:
            forget()
        back = jsons.load(d)
    elif how == 'text':
        d = jsons.dumps(v, verbose=verbose, jdkwargs={'indent': 1})
        if case['fresh']:
            forget()
        back = jsons.loads(d)
    elif how == 'bytes':
        d = jsons.dumpb(v, verbose=verbose)
        back = jsons.loadb(d)
    elif how == 'strict':
        d = jsons.dump(v, verbose=verbose)
        back = jsons.load(d, strict=True)
    else:
        d = jsons.dump(v, verbose=verbose)
        T = w.type(case['type'])
        back = jsons.load(d, T)
    same(expected, back, 'load of the verbose dump (%s)' % how, case['defs'], d)


@st.composite
def s_round(draw):
    case = draw_case(draw)
    case['verbose'] = draw(st.sampled_from(['class', 'class', 'all', 'true', 'both']))
    case['fresh'] = draw(st.booleans())
    case['how'] = draw(st.sampled_from(['memory', 'memory', 'text', 'bytes', 'typed']))
    return case


def check_local(case, ctx):
    """Classes that cannot be imported, but are announced."""
    w = World(case['defs'])
    ctx.interesting(len(case['defs']) > 1 or has_sub(case['value']))
    ctx.label(case['how'])
    v = w.value(case['type'], case['value'])
    expected = w.back(case['type'], case['value'])
    classes = [w.type(['ref', i]) for i in range(len(case['defs']))]
    ns = sys.modules[MODULE].__dict__
    hidden = {d['n']: ns.pop(d['n']) for d in case['defs']}
    try:
        text = case['how'] == 'text'
        d = jsons.dumps(v, verbose=VERBOSITY[case['verbose']][0]) if text else \
            jsons.dump(v, verbose=VERBOSITY[case['verbose']][0])
        load = jsons.loads if text else jsons.load
        if case['forget']:
            forget()
            r = attempt(load, d)
            root = '%s.%s' % (MODULE, case['defs'][case['type'][1]]['n'])
            require(isinstance(r, Raised) and isinstance(r.err, UnknownClassError) and root in str(r.err),
                    'the class %s cannot be known, but load gives %s', root, short(r))
        for T in classes:
            jsons.announce_class(T)
        back = load(d)
    finally:
        ns.update(hidden)
    same(expected, back, 'load of the verbose dump (local classes)', case['defs'], d)


@st.composite
def s_local(draw):
    case = draw_case(draw, top=('obj',), recursive=False)
    for d in case['defs']:
        d.get('opts', {}).pop('str', None)    # (hints as text could not be resolved)
        d.get('opts', {}).pop('mod', None)
    case['verbose'] = draw(st.sampled_from(['class', 'all', 'true']))
    case['forget'] = draw(st.booleans())
    case['how'] = draw(st.sampled_from(['memory', 'text']))
    return case


def check_typed(case, ctx):
    """With a type, a dump of any verbosity can be loaded (no subclasses here)."""
    w = World(case['defs'])
    note(case, ctx)
    v = w.value(case['type'], case['value'])
    T = w.type(case['type'])
    expected = w.back(case['type'], case['value'])
    d = jsons.dump(v, verbose=VERBOSITY[case['verbose']][0])
    ctx.label(case['verbose'])
    same(expected, jsons.load(d, T), 'load(dump(v, verbose=%s), T)' % case['verbose'], w.src(case['type']), d)


@st.composite
def s_typed(draw):
    g = G(draw, max_defs=3, atoms=FEATURES['atoms'])
    g.make_defs()
    t = ['ref', len(g.defs) - 1] if g.defs and g.i(0, 3) else g.type()
    return {'defs': g.defs, 'type': t, 'value': g.value(t),
            'verbose': draw(st.sampled_from(list(VERBOSITY)))}


# -- announced and unknown classes ---------------------------------------------------

COUNTER = itertools.count(1)
NAMES = ['custom', 'custom.Name', 'no.such.module.Cls', 'jv_dyn.Missing', 'Foo', 'x y', 'Été', 'a-b', 'typing.Nope',
         'jsons.NoSuch', 'v1/thing', '1', 'jv_dyn.Foo.Bar', 'Strange!']


def check_announced(case, ctx):
    w = World(case['defs'])
    fork = jsons.JsonSerializable.fork()
    jsons.JsonSerializable.fork()
    T = w.type(case['type'])
    v = w.value(case['type'], case['value'])
    expected = w.back(case['type'], case['value'])
    d = jsons.dump(v, fork_inst=fork)
    require(isinstance(d, dict), 'dump is %s', short(d))
    ctx.label(case['where'], case['name'])
    # Announcements are shared by all forks: use a name once.
    name = '%s%d' % (case['name'], next(COUNTER))
    meta = {'-meta': {'classes': {'/': name}}}
    root = {**d, **meta}
    where = case['where']
    if where == 'root':
        j, pick = root, lambda r: r
    elif where == 'list':
        j, pick = [5, root], lambda r: r[1]
    elif where == 'dict':
        j, pick = {'k': {'z': root}}, lambda r: r['k']['z']
    else:
        holder_name = '%s.%s' % (w.objs[-1].__module__, case['defs'][-1]['n'])
        if where == 'attr':
            j = {'a': d, 'b': [], '-meta': {'classes': {'/': holder_name, '/a': name}}}
            pick = lambda r: r.a
        else:
            # attribute b has no hint in its elements' type
            j = {'a': None, 'b': [root, root], '-meta': {'classes': {'/': holder_name}}}
            pick = lambda r: r.b[1]
    got = attempt(jsons.load, j, fork_inst=fork)
    unknown = case['unknown']
    if not isinstance(got, Raised):
        raise Violation('%r is unknown, but load(%s) returned %s' % (name, short(j, 600), short(got)))
    err = got.err
    if where == 'list':
        # The list reports the index, caused by the actual error.
        require(isinstance(err, jsons.DeserializationError) and name in str(err), 'unknown class %r: %s', name, got)
        err = err.__cause__
    require(isinstance(err, UnknownClassError), 'load with unknown class %r raised %s', name, got)
    require(err.target_name == name, 'unknown class %r, but the error names %r', name, err.target_name)
    require(name in str(err), 'unknown class %r, but the error is %s', name, err)
    if unknown:
        return
    jsons.announce_class(T, name, fork)
    ctx.interesting()
    same(expected, pick(jsons.load(j, fork_inst=fork)), 'load of announced class %r (%s)' % (name, where), j)


@st.composite
def s_announced(draw):
    g = G(draw, max_defs=1, max_depth=2, text=True, atoms=FEATURES['atoms'])
    g.make_defs()
    i = g._def_cls(g.new_name(), style=g.pick(['data', 'init', 'both', 'attrs', 'slots']))
    t = ['ref', i]
    g._add({'k': 'cls', 'n': g.new_name(), 'style': 'data', 'opts': {},
            'f': [['a', 'any'], ['b', ['list', 'any']]]}, False)
    names = [n for n in NAMES if n.split('.')[-1].lower() not in [d['n'].lower() for d in g.defs]]
    return {'defs': g.defs, 'type': t, 'value': g.value(t), 'name': g.pick(names),
            'where': g.pick(['root', 'list', 'dict', 'attr']), 'unknown': g.chance(4)}


# -- a given type ------------------------------------------------------------------

def check_given(case, ctx):
    """The type that is given prevails over the one that -meta names."""
    w = World(case['defs'])
    ctx.interesting(case['twin'] or case['as'] != 'class')
    t = case['type']
    T = w.type(t)
    ctx.label('as:' + case['as'], 'twin' if case['twin'] else 'same class')
    v = w.value(t, case['value'])
    if case['verbose'] == 'plain':
        d = jsons.dump(v)
    else:
        d = jsons.dump(v, verbose=VERBOSITY[case['verbose']][0])
    if case['twin']:
        t = ['ref', len(case['defs']) - 1]
        T = w.type(t)
    expected = w.back(t, case['value'])
    name = '%s.%s' % (T.__module__, T.__qualname__)
    if case['as'] == 'announced':
        name = 'given name %d' % next(COUNTER)
        jsons.announce_class(T, name)
    what = 'load(d, %s)' % (T if case['as'] == 'class' else repr(name))
    arg = T if case['as'] == 'class' else name
    if case['text']:
        back = jsons.loads(__import__('json').dumps(d), arg)
    else:
        back = jsons.load(d, arg)
    same(expected, back, what, case['defs'], d)
    if case['as'] != 'class':
        r = attempt(jsons.load, d, name + 'X')
        require(isinstance(r, Raised) and isinstance(r.err, UnknownClassError) and r.err.target_name == name + 'X',
                'load(d, %r) gives %s', name + 'X', short(r))


@st.composite
def s_given(draw):
    case = draw_case(draw, top=('obj',))
    case['verbose'] = draw(st.sampled_from(['class', 'class', 'all', 'time', 'plain']))
    if case['verbose'] in ('time', 'plain'):
        assume(not has_sub(case['value']) and not has_sub([d.get('opts', {}).get('cvars') for d in case['defs']]))
    case['twin'] = draw(st.booleans())
    if case['twin']:
        d = copy.deepcopy(case['defs'][case['type'][1]])
        d['n'] = 'Twin' + d['n']
        case['defs'].append(d)
    case['as'] = draw(st.sampled_from(['class', 'class', 'name', 'announced']))
    case['text'] = draw(st.booleans())
    return case


PROP = Prop(
    'C12',
    'meta/round: graphs of generated importable classes (all styles, inheritance, containers, instances of '
    'subclasses at hinted positions) at the top level, in lists and in dicts; every verbosity value; -meta is '
    'compared with the actual classes by a parallel walk over graph and dump; loaded without type in memory, through '
    'text and bytes. local: the same with classes that cannot be imported, but are announced. '
    'typed: any value with any verbosity, loaded with its type. announced: announced and unknown '
    'names at the root, in lists, dicts and attributes. given: a type that is given (or its name) prevails over -meta. Non-trivial: more than one object or a subclass instance '
    '(announced: the class was announced and loaded).',
    [
        Facet('meta', s_meta, check_meta, 3000, 60000, 3),
        Facet('round', s_round, check_round, 5000, 100000, 6),
        Facet('local', s_local, check_local, 1500, 30000, 2),
        Facet('typed', s_typed, check_typed, 2500, 50000, 3),
        Facet('announced', s_announced, check_announced, 1200, 20000, 2),
        Facet('given', s_given, check_given, 2000, 40000, 2),
    ],
    ['Attributes hinted with bare list, dict or Any that hold a collection are returned as raw JSON (documented '
     'shortcut) and are outside the domain; so are NamedTuples at positions without hint.',
     'Entries of -meta for positions that hold no object of a class (dicts, complex numbers) are not judged.'])
