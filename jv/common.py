"""Helpers shared by several properties."""
import collections
import datetime as dt
import enum
import json
import os
import pickle
import re
import traceback

import jsons
from hypothesis import strategies as st

from jv.core import HarnessError, Violation, short
from jv.world import attrs_of, differ, dynamic, strict_eq

TRANSFORMERS = {
    'camel': jsons.KEY_TRANSFORMER_CAMELCASE, 'snake': jsons.KEY_TRANSFORMER_SNAKECASE,
    'pascal': jsons.KEY_TRANSFORMER_PASCALCASE, 'lisp': jsons.KEY_TRANSFORMER_LISPCASE,
}


def snap(o):
    """Types, contents, order and identity of everything in o."""
    return _snap(o, ())


def _snap(o, seen):
    if id(o) in seen:
        return ('rec', id(o))
    seen = seen + (id(o),)
    if isinstance(o, (str, bytes, int, float, complex, type(None), enum.Enum, dt.date, dt.time,
                      dt.timedelta, dt.tzinfo, type)):
        return (type(o), repr(o))
    if isinstance(o, dict):
        return (type(o), id(o), tuple((_snap(k, seen), _snap(v, seen)) for k, v in o.items()))
    if isinstance(o, (list, tuple, collections.deque)):
        return (type(o), id(o), tuple(_snap(x, seen) for x in o))
    if isinstance(o, (set, frozenset)):
        return (type(o), id(o), tuple(sorted((_snap(x, seen) for x in o), key=repr)))
    if dynamic(type(o)):
        return (type(o), id(o), tuple((n, _snap(getattr(o, n), seen)) for n in attrs_of(o)))
    if callable(o):
        return (type(o), id(o))
    return (type(o), id(o), repr(o))


class Raised:
    def __init__(self, err):
        self.err = err
        self.cls = type(err)
        self.msg = re.sub(r'0x[0-9a-f]{6,}', '0x', str(err))

    def __repr__(self):
        return '%s(%s)' % (self.cls.__name__, short(self.msg, 200))


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except Exception as err:
        return Raised(err)


def same_outcome(a, b, what, *info, message=True, compare=differ):
    """Both raised the same error, or both returned the same."""
    if isinstance(a, Raised) or isinstance(b, Raised):
        ok = (isinstance(a, Raised) and isinstance(b, Raised) and a.cls is b.cls
              and (not message or a.msg == b.msg))
        d = None if ok else 'expected %s, got %s' % (short(a, 600), short(b, 600))
    else:
        d = compare(a, b)
    if d:
        raise Violation('%s: %s%s' % (what, d, ''.join('\n  ' + short(i, 800) for i in info)))


def jcompare(a, b):
    return None if strict_eq(a, b) else 'expected %s, got %s' % (short(a, 600), short(b, 600))


# -- options: JSON-able specs and what they stand for ------------------------------

S_DUMP_OPTS = st.fixed_dictionaries({}, optional={
    'strip_nulls': st.booleans(), 'strip_privates': st.booleans(),
    'strip_properties': st.booleans(), 'strip_class_variables': st.booleans(),
    'strip_attr': st.one_of(st.sampled_from(['a', 'name', 'nope']),
                            st.lists(st.sampled_from(['a', 'b', 'name', 'value', '_priv']), max_size=3)),
    'use_enum_name': st.booleans(), 'strip_microseconds': st.booleans(),
    'key_transformer': st.sampled_from(list(TRANSFORMERS)),
})
S_LOAD_OPTS = st.fixed_dictionaries({}, optional={
    'strict': st.booleans(), 'use_enum_name': st.booleans(), 'warn_on_fail': st.booleans(),
})


def options(spec):
    res = dict(spec)
    if 'key_transformer' in res:
        res['key_transformer'] = TRANSFORMERS[res['key_transformer']]
    return {k: (list(v) if isinstance(v, list) else v) for k, v in res.items()}


def text(j):
    return json.dumps(j)


def in_child(fn):
    """What fn() returns (or raises) in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = (None, fn())
            except Violation as err:
                res = (str(err), None)
            except BaseException as err:
                res = ('unexpected %s: %s\n%s' % (type(err).__name__, err, traceback.format_exc(limit=-6)), None)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise HarnessError('the child process died')
    err, res = pickle.loads(data)
    if err:
        raise Violation(err)
    return res
