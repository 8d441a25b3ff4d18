"""C24: Loading without a type recognises values and loses nothing."""
import datetime as dt
import json
import math
import re
import typing

from hypothesis import strategies as st

import jsons
from jv.common import Raised, attempt
from jv.core import Facet, Prop, require, short

RE = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?'
                r'(?:Z|([+-])(\d\d):(\d\d))', re.A)
# Everything that Python's parser could take for a timestamp.
NEAR = re.compile(r'\s*\d{1,4}\s*-\s*\d{1,2}\s*-\s*\d{1,2}\s*[Tt\s].*:.*', re.S)


def stamp(s):
    """(wall clock, offset in minutes) of a strict RFC 3339 timestamp, or None."""
    m = RE.fullmatch(s)
    if not m:
        return None
    try:
        wall = dt.datetime(*(int(x) for x in m.group(1, 2, 3, 4, 5, 6)),
                           int((m.group(7) or '').ljust(6, '0')[:6]))
    except ValueError:
        return None
    off = 0
    if m.group(8):
        hh, mm = int(m.group(9)), int(m.group(10))
        if hh > 23 or mm > 59:
            return None
        off = (hh * 60 + mm) * (1 if m.group(8) == '+' else -1)
    return wall, off


def same_json(a, b):
    """b is a: the same types, values and order of keys."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (list(a) == list(b) and all(type(x) is type(y) for x, y in zip(a, b))
                and all(same_json(a[k], b[k]) for k in a))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_json, a, b))
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (
            a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


def judge(src, out, path, ctx):
    where = '$' + ''.join('[%r]' % p for p in path)
    if isinstance(src, dict):
        require(type(out) is dict, '%s: a dict became %s', where, short(out))
        require(list(src) == list(out), '%s: the keys %s became %s', where, short(list(src)),
                short(list(out)))
        require(all(type(k) is str for k in out), '%s: key types in %s', where, short(out))
        for k in src:
            judge(src[k], out[k], path + [k], ctx)
    elif isinstance(src, list):
        require(type(out) is list and len(out) == len(src), '%s: %s became %s', where,
                short(src), short(out))
        for i, x in enumerate(src):
            judge(x, out[i], path + [i], ctx)
    elif isinstance(src, str):
        want = stamp(src)
        if want is None:
            if type(out) is dt.datetime:
                ctx.label('lenient')
                require(NEAR.fullmatch(src), '%s: %r became %r', where, src, out)
            else:
                ctx.label('string')
                require(type(out) is str and out == src, '%s: %r became %r', where, src, out)
        else:
            ctx.label('stamp')
            ctx.interesting(len(path) > 0)
            require(type(out) is dt.datetime and out.replace(tzinfo=None) == want[0]
                    and out.utcoffset() == dt.timedelta(minutes=want[1]),
                    '%s: the timestamp %r became %r', where, src, out)
    else:
        require(same_json(src, out), '%s: %s became %s', where, short(src), short(out))


FORMS = {
    'load': lambda j, kw: jsons.load(j, **kw),
    'loads': lambda j, kw: jsons.loads(json.dumps(j), **kw),
    'loads-indent': lambda j, kw: jsons.loads(json.dumps(j, indent=1, ensure_ascii=False), **kw),
    'loadb': lambda j, kw: jsons.loadb(json.dumps(j).encode(), **kw),
    'loadb16': lambda j, kw: jsons.loadb(json.dumps(j).encode('utf-16'), encoding='utf-16', **kw),
    'fork': lambda j, kw: jsons.load(j, fork_inst=jsons.fork(), **kw),
    'noneTypeHints': lambda j, kw: jsons.load(j, None, **kw),
}


def check_json(case, ctx):
    j = case['json']
    kw = {k: True for k in case['flags']}
    ctx.label('form:' + case['form'], *('flag:' + f for f in case['flags']))
    before = json.dumps(j)
    out = FORMS[case['form']](j, kw)
    judge(j, out, [], ctx)
    require(json.dumps(j) == before, 'the input was changed: %s became %s', before, short(j))
    n = before.count('{') + before.count('[')
    ctx.interesting(n >= 2)
    # The result is dumped to the JSON again; timestamps keep their instant.
    again = jsons.load(jsons.dump(out))
    judge(j, again, [], ctx)


class Holder:
    def __init__(self, a: typing.Any, b: typing.List[typing.Any], c: typing.Dict[str, typing.Any]):
        self.a = a
        self.b = b
        self.c = c


def check_any(case, ctx):
    j = case['json']
    shape = case['shape']
    ctx.label('shape:' + shape)
    ctx.interesting(isinstance(j, (list, dict)) and len(j) > 0)
    kw = {'strict': True} if case['strict'] else {}
    before = json.dumps(j)
    if shape == 'any':
        out = jsons.load(j, typing.Any, **kw)
    elif shape == 'list':
        out = jsons.load([j, 1, j], typing.List[typing.Any], **kw)
        require(type(out) is list and len(out) == 3 and same_json(out[1], 1)
                and same_json(out[0], out[2]), '%s became %s', short([j, 1, j]), short(out))
        out = out[0]
    elif shape == 'dict':
        out = jsons.load({'k': j}, typing.Dict[str, typing.Any], **kw)
        require(type(out) is dict and list(out) == ['k'], 'not the dict: %s', short(out))
        out = out['k']
    elif shape == 'tuple':
        out = jsons.load([1, j], typing.Tuple[int, typing.Any], **kw)
        require(type(out) is tuple and len(out) == 2, 'not the tuple: %s', short(out))
        out = out[1]
    elif shape == 'opt':
        out = jsons.load([j], typing.List[typing.Optional[typing.Any]], **kw)[0]
    else:
        o = jsons.load({'a': j, 'b': [j], 'c': {'k': j}}, Holder, **kw)
        require(type(o) is Holder and same_json(o.a, j) and same_json(o.b, [j])
                and same_json(o.c, {'k': j}), '%s was loaded as %s', short(j), short(vars(o)))
        out = o.a
    require(same_json(j, out), '%s became %s', short(j), short(out))
    require(json.dumps(j) == before, 'the input was changed: %s became %s', before, short(j))


def check_one(case, ctx):
    """One string, in every position and form."""
    s = case['s']
    want = stamp(s)
    ctx.interesting(want is not None or NEAR.fullmatch(s) is not None)
    ctx.label('stamp' if want else 'no stamp')
    alone = jsons.load(s)
    judge(s, alone, [], ctx)
    for out in (jsons.load([s])[0], jsons.load({'k': s})['k'], jsons.load([{'k': [s]}])[0]['k'][0],
                jsons.loads(json.dumps(s)), jsons.load(s, strict=True)):
        require(type(out) is type(alone) and out == alone, '%r is loaded as %r, elsewhere as %r',
                s, alone, out)
    require(jsons.load(s, str) == s and type(jsons.load(s, str)) is str,
            '%r as str is %s', s, short(jsons.load(s, str)))
    out = attempt(lambda: jsons.load(s, dt.datetime))
    if want is not None:
        require(not isinstance(out, Raised) and out == alone and out.utcoffset() ==
                alone.utcoffset(), '%r as datetime is %s', s, short(out))
    elif isinstance(out, Raised):
        require(type(alone) is str, '%r is no datetime but was loaded as %r', s, alone)
    else:
        require(type(alone) is dt.datetime, '%r is a datetime (%r) but loaded as %r', s, out, alone)


# -- generators ---------------------------------------------------------------------

@st.composite
def s_stamp(draw):
    y = draw(st.one_of(st.integers(1, 9999), st.sampled_from([1, 1969, 1970, 2000, 2024, 9999])))
    mo = draw(st.integers(1, 12))
    d = draw(st.integers(1, 31))
    h = draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 23])))
    mi, se = draw(st.integers(0, 59)), draw(st.integers(0, 59))
    frac = draw(st.one_of(st.just(''), st.integers(1, 9).flatmap(
        lambda n: st.text('0123456789', min_size=n, max_size=n)).map(lambda x: '.' + x)))
    off = draw(st.one_of(st.just('Z'), st.builds(
        '{}{:02d}:{:02d}'.format, st.sampled_from('+-'),
        st.one_of(st.integers(0, 23), st.integers(0, 14)), st.integers(0, 59))))
    return '%04d-%02d-%02dT%02d:%02d:%02d%s%s' % (y, mo, d, h, mi, se, frac, off)


@st.composite
def s_near(draw):
    s = draw(s_stamp())
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(st.integers(0, 3))
        i = draw(st.integers(0, len(s)))
        c = draw(st.one_of(st.sampled_from(list('0123456789-+:.TZtz /%')), st.characters()))
        if kind == 0:
            s = s[:i] + s[i + 1:]
        elif kind == 1:
            s = s[:i] + c + s[i:]
        elif kind == 2:
            s = s[:i] + c + s[i + 1:]
        else:
            s = s[:i] if draw(st.booleans()) else s[i:]
    return s


WORDS = ['', 'Z', 'T', 'null', 'None', 'true', 'True', '1', '1.0', '-1', '2020-01-01', '12:30:00',
         '2020-01-01T00:00:00', '2020-01-01 00:00:00Z', '2020-02-30T00:00:00Z',
         '2020-13-01T00:00:00Z', '2020-01-01T24:00:00Z', '2020-01-01T00:60:00Z',
         '2021-02-29T00:00:00Z', '2020-02-29T23:59:59Z', '1900-02-29T00:00:00Z',
         '2020-01-01T00:00:00.Z', '2020-01-01T00:00:00,5Z', '20200101T000000Z', 'P1D', 'inf',
         '2020-01-01T00:00:00+0100', '2020-01-01T00:00:00+01', '2020-01-01T00:00:00+01:00:00',
         '0000-01-01T00:00:00Z', '10000-01-01T00:00:00Z', '{"a": 1}', '[1]', '"x"', '1e5', 'nan',
         '2020-01-01T00:00:00+24:00', '2020-01-01T00:00:00-23:59', '...', 'a.b', '.Z', '-', '+', ':',
         'a T b', 'T:Z', '-T+:', 'dGVzdA==', '\x00', '\ud7ff', '\U0001f600', 'jsons.Foo',
         '12345678-1234-5678-1234-567812345678', '3.5', ' 2020-01-01T00:00:00Z', '/tmp/x', '0x10',
         '2020-01-01T00:00:00Z\n', '2020-01-01T00:00:00.1234567890123Z']
S_STR = st.one_of(s_stamp(), s_near(), st.sampled_from(WORDS), st.text(max_size=12),
                  st.text('0123456789-+:.TZ ', max_size=26))
S_KEY = st.one_of(s_stamp(), st.sampled_from(['a', 'b', '', '1', 'null', 'A', 'self', 'cls', 'strict']),
                  st.text(max_size=5)).filter(lambda k: k not in ('-meta', '-keys', '-cls'))
S_LEAF = st.one_of(
    S_STR, S_STR, st.integers(-5, 5), st.integers(), st.integers(-10 ** 40, 10 ** 40), st.booleans(),
    st.none(), st.floats(allow_nan=False), st.sampled_from([0, 0.0, -0.0, 1, 1.0, True, False]))
S_JSON = st.recursive(S_LEAF, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(S_KEY, c, max_size=4)), max_leaves=14)


def s_json():
    return st.fixed_dictionaries({
        'json': S_JSON, 'form': st.sampled_from(sorted(FORMS)),
        'flags': st.sampled_from([[], [], ['strict'], ['_unknown'], ['strict', 'warn_on_fail']])})


def s_any():
    return st.fixed_dictionaries({
        'json': S_JSON, 'strict': st.booleans(),
        'shape': st.sampled_from(['any', 'list', 'dict', 'tuple', 'opt', 'attr'])})


def s_one():
    return st.fixed_dictionaries({'s': st.one_of(s_stamp(), s_near(), S_STR)})


PROP = Prop(
    'C24',
    'json: at least two containers, or a timestamp inside a container; any: a container that is '
    'not empty; one: a timestamp or a string that Python\'s parser might take for one.',
    [Facet('json', s_json, check_json, 4000, 60000, shards=3),
     Facet('any', s_any, check_any, 2500, 30000, shards=2),
     Facet('one', s_one, check_one, 4000, 60000, shards=3)])
