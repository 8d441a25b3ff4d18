"""C06: every failure is a documented error that tells what failed."""
import collections
import dataclasses
import datetime as dt
import decimal
import json
import signal
import uuid
import warnings
from threading import Thread

from hypothesis import strategies as st

import jsons
from jv.common import TRANSFORMERS, Raised, S_DUMP_OPTS, attempt, options
from jv.core import Facet, Prop, Violation, require, short
from jv.gen import FIELDS, G, S_JSON, S_SMALL_JSON, S_TEXT, json_for, typed
from jv.props.c16 import Quiet
from jv.world import World, strict_eq, subvalues


def judge(res, sources, what, info, target=True):
    """res must be a value or a proper DeserializationError."""
    if not isinstance(res, Raised):
        return
    err = res.err
    if not isinstance(err, jsons.DeserializationError):
        raise Violation('%s raised %s: %s\n  %s' % (what, res.cls.__name__, res.msg[:300], info))
    require(isinstance(err.message, str) and err.message and str(err) == err.message,
            '%s: message is %r, str() is %r', what, err.message, str(err))
    # The elements of a str are its characters.
    chars = {c for s in sources if isinstance(s, str) for c in s}
    if not any(strict_eq(err.source, s) for s in sources) and not (
            isinstance(err.source, str) and err.source in chars):
        raise Violation('%s: the source of the error is no part of the input: %s\n  %s: %s\n  %s' % (
            what, short(err.source), res.cls.__name__, res.msg[:300], info))
    if target:
        require(err.target is not None, '%s: the error has no target: %s\n  %s', what, res, info)
    if isinstance(err, jsons.exceptions.ArgumentError):
        require(isinstance(err.argument, str) and err.argument in err.message,
                '%s: argument %r is not named in %r', what, err.argument, err.message)


def check_load(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    j = case['json']
    res = attempt(jsons.load, j, T, strict=case['strict'])
    ctx.label('raised' if isinstance(res, Raised) else 'returned')
    if isinstance(res, Raised):
        ctx.label(res.cls.__name__)
        ctx.interesting()
    text = json.dumps(j)
    has_meta = '"-meta"' in text
    info = 'type: %s, json: %s' % (w.src(case['type']), short(j, 600))
    judge(res, list(subvalues(j)), 'load', info, target=not has_meta)
    if isinstance(res, Raised) and isinstance(res.err, jsons.exceptions.SignatureMismatchError):
        require(isinstance(res.err.source, dict) and res.err.argument in res.err.source,
                'the unexpected argument %r is not in the source\n  %s', res.err.argument, info)
    if isinstance(res, Raised) and isinstance(res.err, jsons.exceptions.UnfulfilledArgumentError) \
            and isinstance(res.err.source, dict):
        require(res.err.source.get(res.err.argument) is None,
                'the missing argument %r is in the source\n  %s', res.err.argument, info)
    res = attempt(jsons.loads, text, T, strict=case['strict'])
    judge(res, list(subvalues(json.loads(text))), 'loads', info, target=not has_meta)
    res = attempt(jsons.load, j)
    judge(res, list(subvalues(j)), 'load without a type', info, target=False)


@st.composite
def s_load(draw):
    case = draw(json_for(text=False))
    case['strict'] = draw(st.booleans())
    return case


TYPES = {'none': None, 'dict': dict, 'int': int, 'str': str, 'list': list, 'any': __import__('typing').Any,
         'date': dt.datetime}


def check_text(case, ctx):
    text = case['text']
    T = TYPES[case['type']]
    try:
        json.loads(text)
        err = None
    except json.JSONDecodeError as e:
        err = e
    ctx.label('malformed' if err else 'wellformed')
    ctx.interesting(err is not None)
    res = attempt(jsons.loads, text, T)
    if err is None:
        judge(res, list(subvalues(json.loads(text))), 'loads', short(text), target=False)
        require(not (isinstance(res, Raised) and isinstance(res.err, jsons.DecodeError)),
                'DecodeError for %s', short(text))
    else:
        decode_error(res, err, text, T, 'loads')
    try:
        data = text.encode(case['enc'])
    except UnicodeError:
        return
    if data.decode(case['enc']) != text:
        return
    res = attempt(jsons.loadb, data, T, encoding=case['enc'])
    if err is None:
        judge(res, list(subvalues(json.loads(text))), 'loadb', short(text), target=False)
    else:
        decode_error(res, err, text, T, 'loadb')


def decode_error(res, err, text, T, what):
    require(isinstance(res, Raised), '%s accepts %s: %s', what, short(text), short(res))
    e = res.err
    require(isinstance(e, jsons.DecodeError) and isinstance(e, jsons.DeserializationError)
            and isinstance(e, json.JSONDecodeError), '%s of malformed %s raised %s', what, short(text), res)
    require((e.doc, e.pos, e.lineno, e.colno) == (err.doc, err.pos, err.lineno, err.colno),
            '%s: wrong position of %s: %s', what, short(text), short((e.msg, e.doc, e.pos, e.lineno, e.colno)))
    require(e.source == text and e.target is T, '%s: wrong source/target: %s %s', what, short(e.source), e.target)
    require(isinstance(e.message, str) and e.message, '%s: no message', what)


@st.composite
def s_text(draw):
    how = draw(st.integers(0, 5))
    if how == 0:
        t = draw(st.text(max_size=12))
    elif how == 1:
        t = draw(st.text('{}[]":,0123456789.eE+-tfn \n\\ulrasN', max_size=14))
    else:
        t = json.dumps(draw(S_JSON), indent=draw(st.sampled_from([None, 1])),
                       ensure_ascii=draw(st.booleans()))
        if how > 2 and t:
            i = draw(st.integers(0, len(t) - 1))
            op = draw(st.sampled_from(['del', 'ins', 'cut', 'dup', 'rep']))
            c = draw(st.sampled_from(list('{}[]":,0-.e \n\\x') + ['\ufeff', 'NaN', '//', "'"]))
            t = {'del': t[:i] + t[i + 1:], 'ins': t[:i] + c + t[i:], 'cut': t[:i],
                 'dup': t + t, 'rep': t[:i] + c + t[i + 1:]}[op]
    return {'text': t, 'type': draw(st.sampled_from(list(TYPES))),
            'enc': draw(st.sampled_from(['utf-8', 'utf-16', 'latin-1']))}


def invalid(kind, x):
    """A Python object that is no JSON."""
    return {
        'bytes': lambda: b'x', 'bytearray': lambda: bytearray(b'{}'), 'complex': lambda: 1j,
        'object': object, 'type': lambda: int, 'func': lambda: len, 'datetime': lambda: dt.datetime(2020, 1, 1),
        'date': lambda: dt.date(2020, 1, 1), 'decimal': lambda: decimal.Decimal(1), 'uuid': lambda: uuid.UUID(int=1),
        'frozenset': lambda: frozenset([1]), 'odict': lambda: collections.OrderedDict(a=1),
        'deque': lambda: collections.deque([1]), 'range': lambda: range(3), 'gen': lambda: iter(()),
        'memoryview': lambda: memoryview(b'1'),
    }[kind]()


INVALID = ['bytes', 'bytearray', 'complex', 'object', 'type', 'func', 'datetime', 'date', 'decimal', 'uuid',
           'frozenset', 'odict', 'deque', 'range', 'gen', 'memoryview']


def check_invalid(case, ctx):
    w = World(case['defs'])
    t = case['type']
    o = invalid(case['kind'], None)
    T = w.type(t)
    ctx.interesting()
    ctx.label('kind:' + case['kind'], 'pos:' + case['pos'])
    rt = w.runtime_type(t)
    if T is type(o) or rt is type(o):
        return
    pos = case['pos']
    j, outer = o, T
    import typing
    if pos == 'list':
        j, outer = [o], typing.List[T]
    elif pos == 'dict':
        j, outer = {'a': o}, typing.Dict[str, T]
    elif pos == 'tuple':
        j, outer = [o], typing.Tuple[T]
    elif pos == 'untyped':
        j, outer = [{'a': o}], None
    elif pos == 'opt':
        j, outer = o, typing.Optional[T]
        if t == 'any':
            return
    if t == 'any' and pos != 'untyped':
        # Any accepts whatever it gets.
        return
    res = attempt(jsons.load, j, outer, strict=case['strict'])
    if contains(w, t, type(o)):
        return
    require(isinstance(res, Raised), 'load accepts %s for %s: %s', short(o), outer, short(res))
    require(isinstance(res.err, jsons.DeserializationError), 'load of %s for %s raised %s', short(o), outer, res)
    if pos != 'opt':
        require(res.err.source is o, 'the error does not name %s but %s', short(o), short(res.err.source))
    if case['kind'] != 'bytes':
        res = attempt(jsons.loadb, o, T)
        require(isinstance(res, Raised) and isinstance(res.err, jsons.DeserializationError),
                'loadb of %s gives %s', short(o), short(res))
        require(res.err.source is o and res.err.target is T, 'loadb: wrong source or target')
    for s in ('{}', '', 'x', None, 1, []):
        res = attempt(jsons.loadb, s, T)
        require(isinstance(res, Raised) and isinstance(res.err, jsons.DeserializationError),
                'loadb of %s gives %s', short(s), short(res))


def contains(w, t, typ):
    """An alternative of t that takes typ as it is."""
    if isinstance(t, str):
        return t == 'any' or w.runtime_type(t) is typ
    if t[0] in ('opt',):
        return contains(w, t[1], typ)
    if t[0] == 'union':
        return any(contains(w, a, typ) for a in t[1])
    return w.runtime_type(t) is typ


@st.composite
def s_invalid(draw):
    g = G(draw, max_depth=2, max_defs=2)
    g.make_defs()
    t = ['ref', len(g.defs) - 1] if g.defs and g.chance(2) else g.type()
    return {'defs': g.defs, 'type': t, 'kind': g.pick(INVALID), 'strict': g.chance(2),
            'pos': g.pick(['top', 'top', 'list', 'dict', 'tuple', 'untyped', 'opt'])}


def check_bytes(case, ctx):
    data = bytes.fromhex(case['data'])
    T = TYPES[case['type']]
    try:
        text = data.decode(case['enc'])
    except UnicodeError:
        text = None
    ctx.label('decodable' if text is not None else 'undecodable')
    ctx.interesting(text is None)
    res = attempt(jsons.loadb, data, T, encoding=case['enc'])
    if text is None:
        require(isinstance(res, Raised) and isinstance(res.err, jsons.DeserializationError),
                'loadb of undecodable bytes gives %s', short(res))
        require(res.err.source == data and res.err.target is T, 'loadb of undecodable bytes: wrong source or target')
    elif isinstance(res, Raised):
        require(isinstance(res.err, jsons.DeserializationError), 'loadb raised %s', res)


S_BYTES = st.fixed_dictionaries({
    'data': st.one_of(st.binary(max_size=10), st.binary(max_size=4).map(lambda b: b'"' + b + b'"'),
                      S_JSON.map(lambda j: json.dumps(j, ensure_ascii=False).encode('utf-16', 'surrogatepass'))
                      ).map(bytes.hex),
    'type': st.sampled_from(list(TYPES)), 'enc': st.sampled_from(['utf-8', 'utf-16', 'ascii', 'utf-32'])})


class Boom:
    def __init__(self, err):
        self.err = err

    @property
    def value(self):
        raise self.err


ERRORS = [ValueError('x'), ValueError(), KeyError('k'), TypeError('t'), RuntimeError(1, 2), StopIteration(),
          AttributeError('a'), IndexError(), jsons.JsonsError('j'), jsons.DeserializationError('d', 1, int),
          ZeroDivisionError(), UnicodeError('u'), OSError(2, 'no'), AssertionError(), NotImplementedError(None),
          jsons.ValidationError('v')]


class Bad:
    pass


def check_dump(case, ctx):
    """Dumping as another type, and failing serializers."""
    w = World(case['defs'])
    v = w.value(case['type'], case['value'])
    opts = options(case['opts'])
    ctx.interesting()
    if case['how'] == 'as':
        T = w.type(case['as'])
        res = attempt(jsons.dump, v, T, strict=case['strict'], **opts)
        ctx.label('as', 'raised' if isinstance(res, Raised) else 'returned')
        only_serialization_error(res, 'dump(%s, %s)' % (short(v), w.src(case['as'])))
        return
    err = ERRORS[case['err']]
    ctx.label('error:' + type(err).__name__)
    fork = jsons.fork()

    def ser(o, **kwargs):
        raise err

    jsons.set_serializer(ser, Bad, fork_inst=fork)
    x = Bad()
    o = {'top': x, 'list': [v, x], 'dict': {'a': v, 'b': [x]}, 'tuple': (v, (x,)), 'deque': collections.deque([x]),
         'set': {x}, 'key': {x: [v]}, 'strict': x, 'union': x}[case['pos']]
    import typing
    kw = dict(opts)
    if case['pos'] == 'strict':
        @dataclasses.dataclass
        class Holder:
            held_one: Bad
        o, kw['strict'] = Holder(x), True
    if case['pos'] == 'union':
        kw['cls'] = typing.Union[Bad, int]
    for fn in (jsons.dump, jsons.dumps, jsons.dumpb):
        res = attempt(fn, o, fork_inst=fork, **kw)
        require(isinstance(res, Raised), 'no error for a failing serializer at %s: %s', case['pos'], short(res))
        only_serialization_error(res, 'a serializer raising %r at %s' % (err, case['pos']))


def only_serialization_error(res, what):
    if isinstance(res, Raised):
        require(isinstance(res.err, jsons.SerializationError) and isinstance(res.err, jsons.JsonsError),
                '%s raised %s', what, res)
        require(isinstance(res.err.message, str) and str(res.err) == res.err.message,
                '%s: message %r', what, res.err.message)


@st.composite
def s_dump(draw):
    g = G(draw, max_defs=2, max_depth=2)
    g.make_defs()
    t = g.type()
    return {'defs': g.defs, 'type': t, 'value': g.value(t), 'as': g.type(), 'how': g.pick(['as', 'as', 'fail']),
            'strict': g.chance(2), 'opts': draw(S_DUMP_OPTS), 'err': g.i(0, len(ERRORS) - 1),
            'pos': g.pick(['top', 'list', 'dict', 'tuple', 'deque', 'set', 'key', 'strict', 'union'])}


# -- meta info of any content --------------------------------------------------------

NAMES = ['int', 'str', 'dict', 'list', 'object', 'type', 'builtins.int', 'datetime.datetime', 'decimal.Decimal', 'uuid.UUID',
         'enum.Enum', 'collections.abc.Mapping', 'typing.List', 'typing.List[int]', 'typing.List[]', 'typing.List[x]',
         'typing.Dict[str, int]', 'typing.Dict[str]', 'typing.Tuple[int, str]', 'typing.Union', 'typing.Union[int, str]',
         'typing.Union[int, typing.List[str]]', 'typing.Union[dict, list]', 'typing.Any', 'typing.Optional', 'typing.T',
         'list[', 'list[int', 'int[str]', '[x]', ']', '[', '[]', 'a[b[c]', ',', '.', '..', '..x', 'x.', '.x', '', ' ', '/',
         'None', 'NoneType', 'True', 'len', 'print', '__name__', '__spec__', '__doc__', 'Ellipsis', 'NotImplemented',
         'sys.path', 'os.environ', 'os.path', 'os.path.join', 'math.pi', 'os', 'no.such.Class', 'int.real', 'string.digits',
         'jsons.load', 'jsons.JsonSerializable', 'typing.TypeVar', 'typing.Generic', 'x y', 'é']


class Hang(BaseException):
    pass


def timed(f, *args, **kwargs):
    def ring(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        return attempt(f, *args, **kwargs)
    except Hang:
        raise Violation('%s(%s) does not come to an end' % (f.__name__, ', '.join(short(a, 1500) for a in args))) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def check_metas(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    d = jsons.dump(w.value(case['type'], case['value']), verbose=True)
    own = ['%s.%s' % (o.__module__, o.__name__) for o in w.objs if isinstance(o, type)]
    dicts = [x for x in subvalues(d) if isinstance(x, dict)]
    metas = [x for x in dicts if '-meta' in x]
    for at, what, key, name in case['changes']:
        if isinstance(name, int):
            name = own[name % len(own)] if own else 'str'
        if isinstance(name, list):
            name = name[0]
        if metas and what == 'class':
            m = metas[at % len(metas)]['-meta']
            if isinstance(m, dict) and isinstance(m.get('classes'), dict):
                keys = ['/'] + ['/%s' % k for k in metas[at % len(metas)]] + list(m['classes'])
                m['classes'][keys[key % len(keys)]] = name
        elif metas and what == 'classes':
            m = metas[at % len(metas)]['-meta']
            if isinstance(m, dict):
                m['classes'] = name
        elif dicts and what == 'meta':
            dicts[at % len(dicts)]['-meta'] = name
        elif dicts and what == 'new':
            x = dicts[at % len(dicts)]
            keys = ['/'] + ['/%s' % k for k in x]
            x['-meta'] = {'classes': {keys[key % len(keys)]: name}}
    ctx.interesting(bool(case['changes']) and bool(dicts))
    info = 'json: %s' % short(d, 1500)
    text = json.dumps(d)
    sources = list(subvalues(d))
    for args in ((), (T,)):
        res = timed(jsons.load, d, *args, strict=case['strict'])
        ctx.label(res.cls.__name__ if isinstance(res, Raised) else 'returned')
        more = []
        if isinstance(res, Raised) and isinstance(getattr(res.err, 'source', None), dict):
            # The object without its -meta or without its constructor arguments.
            src = res.err.source
            more = [src for x in dicts if all(k in x and x[k] is v for k, v in src.items())]
        judge(res, sources + more, 'load%s' % (args,), info, target=False)
    require(json.dumps(d) == text, 'load changed its argument: %s', text)


@st.composite
def s_metas(draw):
    g = G(draw, max_defs=3, max_depth=2, text=True)
    g.make_defs()
    i = g._def_cls(g.new_name(), style=g.pick(['data', 'init', 'both', 'ser']))
    t = g.pick([['ref', i], ['ref', i], ['list', ['ref', i]], ['dict', 'str', ['ref', i]]])
    value = g.value(t)
    name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.integers(0, 5),
                     st.one_of(S_SMALL_JSON).map(lambda x: [x]))
    changes = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(['class', 'class', 'new', 'classes', 'meta']),
                                      st.integers(0, 9), name).map(list), min_size=1, max_size=3))
    return {'defs': g.defs, 'type': t, 'value': value, 'changes': changes, 'strict': g.chance(3)}


def check_options(case, ctx):
    w = World(case['defs'])
    T = w.type(case['type'])
    j = case['json']
    opts = dict(case['opts'])
    if 'key_transformer' in opts:
        opts['key_transformer'] = TRANSFORMERS[opts['key_transformer']]
    if 'tasks' in opts:
        opts['task_type'] = Thread
    if 'attr_getters' in opts:
        opts['attr_getters'] = {k: (lambda: 1) for k in opts['attr_getters']}
    for k in case['opts']:
        ctx.label(k)
    info = 'type: %s, options: %s, json: %s' % (w.src(case['type']), case['opts'], short(j, 600))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for args in ((T,), ()):
            with Quiet():
                res = attempt(jsons.load, j, *args, **opts)
            if not isinstance(res, Raised):
                continue
            ctx.label('raised')
            ctx.interesting(bool(opts))
            if isinstance(res.err, jsons.DeserializationError):
                require(isinstance(res.err.message, str) and res.err.message and str(res.err) == res.err.message,
                        'load(%s): message is %r, str() is %r\n  %s', args, res.err.message, str(res.err), info)
            elif not ('tasks' in opts and isinstance(res.err, jsons.exceptions.JsonsError)):
                raise Violation('load%s raised %s: %s\n  %s' % (args, res.cls.__name__, res.msg[:300], info))


@st.composite
def s_options(draw):
    case = draw(json_for(text=False))
    case['opts'] = draw(st.fixed_dictionaries({}, optional={
        'strict': st.booleans(), 'use_enum_name': st.booleans(), 'warn_on_fail': st.booleans(),
        'key_transformer': st.sampled_from(list(TRANSFORMERS)), 'tasks': st.integers(-1, 3),
        'attr_getters': st.lists(st.sampled_from(FIELDS), max_size=2, unique=True)}))
    return case


PROP = Prop(
    'C06',
    'load: JSON of a generated type with 0-3 mutations, or any JSON, into the type (strict or not), and without a type '
    '(facet options: with key transformers, attribute getters, warn_on_fail and any number of tasks); '
    'non-trivial when it raises. text/bytes: mutated JSON texts and arbitrary bytes; non-trivial when malformed or '
    'undecodable. invalid: Python objects that are no JSON at generated positions. dump: values dumped as unrelated '
    'types and serializers raising 16 kinds of errors at 9 positions.',
    [
        Facet('load', s_load, check_load, 7000, 150000, 5),
        Facet('text', s_text, check_text, 4000, 80000, 2),
        Facet('bytes', lambda: S_BYTES, check_bytes, 1500, 20000, 1, 2),
        Facet('invalid', s_invalid, check_invalid, 2500, 40000, 2),
        Facet('dump', s_dump, check_dump, 3000, 60000, 2),
        Facet('options', s_options, check_options, 2500, 50000, 2),
        Facet('metas', s_metas, check_metas, 2500, 50000, 2),
    ],
    ['Inputs that exceed the recursion limit of the interpreter are outside the domain.'])
