"""C03: temporal values keep their instant and follow RFC 3339."""
import datetime as dt
import os
import re
import time
import zoneinfo

from hypothesis import strategies as st

import jsons
from jv.core import Facet, Prop, require, short
from jv.gen import S_DATE, S_DATE_MID, S_OFFMIN, S_TIME, S_TIMEDELTA, S_US, ZONES, s_date
from jv.world import build_dt, same

RE = re.compile(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|([+-])(\d\d):(\d\d))$', re.A)


def parse(s):
    """Independent RFC 3339 parser: naive datetime and offset in minutes."""
    require(type(s) is str, 'a datetime was dumped as %s', short(s))
    m = RE.match(s)
    require(m is not None, 'no RFC 3339 timestamp: %r', s)
    y, mo, d, h, mi, se = (int(x) for x in m.group(1, 2, 3, 4, 5, 6))
    us = int((m.group(7) or '0').ljust(6, '0')[:6])
    off = 0
    if m.group(8) != 'Z':
        require(int(m.group(11)) < 60, 'invalid offset in %r', s)
        off = (int(m.group(10)) * 60 + int(m.group(11))) * (-1 if m.group(9) == '-' else 1)
        # (-00:00 says that the offset is not known.)
        require(off or m.group(9) == '+', 'a zero offset is dumped as %r', s)
    return dt.datetime(y, mo, d, h, mi, se, us), off, m.group(7)


def minutes(delta):
    return delta.days * 1440 + delta.seconds // 60


class Holder:
    def __init__(self, when: dt.datetime):
        self.when = when


def place(case, o, T=dt.datetime):
    """Put the value somewhere; return (object, type, how to get it out)."""
    import typing
    p = case.get('place', 'top')
    if p == 'list':
        return [o], typing.List[T], lambda x: x[0]
    if p == 'dict':
        return {'k': o}, typing.Dict[str, T], lambda x: x['k']
    if p == 'attr' and T is dt.datetime:
        return Holder(o), Holder, lambda x: x['when'] if isinstance(x, dict) else x.when
    if p == 'opt':
        return o, typing.Optional[T], lambda x: x
    if p == 'tuple':
        return (1, o), typing.Tuple[int, T], lambda x: x[1]
    return o, T, lambda x: x


S_PLACE = st.sampled_from(['top', 'top', 'list', 'dict', 'attr', 'opt', 'tuple'])


def check_aware(case, ctx):
    o = build_dt(case['dt'])
    obj, T, get = place(case, o)
    ctx.label('tz:' + type(o.tzinfo).__name__, 'place:' + case['place'])
    ctx.interesting(o.utcoffset() != dt.timedelta(0) or o.microsecond != 0 or o.year < 1000)
    off = o.utcoffset()
    assert off.seconds % 60 == 0
    s = get(jsons.dump(obj, strip_microseconds=case['strip']))
    wall, offset, frac = parse(s)
    want = o.replace(tzinfo=None, fold=0)
    if case['strip']:
        want = want.replace(microsecond=0)
        require(frac is None, 'strip_microseconds left the fraction in %r', s)
    require(wall == want, '%r was dumped as %r: another wall clock', o, s)
    require(offset == minutes(off), '%r was dumped as %r: another offset', o, s)
    back = get(jsons.load(jsons.dump(obj, strip_microseconds=case['strip']), T))
    require(type(back) is dt.datetime and back.utcoffset() == off
            and back.replace(tzinfo=None) == want, '%r came back as %r from %r', o, back, s)


def _aligned(spec):
    off = build_dt(spec).utcoffset()
    return off is not None and off.seconds % 60 == 0 and off.microseconds == 0


@st.composite
def s_aware(draw):
    kind = draw(st.integers(0, 4))
    if kind == 0:
        tz = 'UTC'
    elif kind in (1, 2):
        tz = draw(S_OFFMIN)
    elif kind == 3:
        tz = [draw(S_OFFMIN), draw(st.sampled_from(['UTC', 'Z', 'CET', '', 'UTC+00:00', 'UTC+01:00']))]
    else:
        tz = draw(st.sampled_from(ZONES))
    date = draw(s_date(1980, 2037) if isinstance(tz, str) and tz != 'UTC' else S_DATE)
    spec = date + draw(S_TIME) + [tz]
    if kind == 4:
        spec.append(draw(st.integers(0, 1)))
    return {'dt': spec, 'strip': draw(st.booleans()), 'place': draw(S_PLACE)}


# -- naive --------------------------------------------------------------------------

POSIX = {  # POSIX sign is the other way round
    'XXX-5:30': 330, 'XXX+3:30': -210, 'XXX0': 0, 'XXX-14': 840, 'XXX+11': -660, 'XXX-0:45': 45,
    'XXX+0:30': -30, 'UTC': 0, 'UTC-2': 120, 'XXX+9:15': -555}
NAMED = ['Europe/Amsterdam', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata',
         'America/St_Johns', 'America/Sao_Paulo', 'Pacific/Auckland', 'Europe/London']


class local_zone:
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.tz
        time.tzset()

    def __exit__(self, *_):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()


def check_naive(case, ctx):
    o = build_dt(case['dt'])
    for tz in case['zones']:
        if tz in POSIX:
            off = POSIX[tz]
        else:
            zone = zoneinfo.ZoneInfo(tz)
            aware = o.replace(tzinfo=zone)
            again = aware.astimezone(dt.timezone.utc).astimezone(zone)
            if again.replace(tzinfo=None, fold=0) != o.replace(fold=0):
                ctx.label('gap')
                continue   # a wall clock that does not exist in this zone
            off = minutes(aware.utcoffset())
        ctx.label('zone:' + tz)
        ctx.interesting(off != 0)
        obj, T, get = place(case, o)
        with local_zone(tz):
            d = jsons.dump(obj)
            s = get(d)
            back = get(jsons.load(d, T))
        wall, offset, _ = parse(s)
        require(wall == o.replace(fold=0), 'with TZ=%s, %r was dumped as %r', tz, o, s)
        require(offset == off, 'with TZ=%s, %r was dumped as %r, expected an offset of %d minutes',
                tz, o, s, off)
        require(back.utcoffset() == dt.timedelta(minutes=off) and back.replace(tzinfo=None) == wall,
                'with TZ=%s, %r came back as %r', tz, o, back)


@st.composite
def s_naive(draw):
    # The local time of the far past and future is only known for zones with one offset.
    far = draw(st.integers(0, 3)) == 0
    date = draw(st.one_of(s_date(1, 9999), st.sampled_from([[1, 1, 1], [9999, 12, 31], [1, 1, 2]]))
                if far else s_date(1972, 2036))
    spec = list(date) + draw(S_TIME) + [None, draw(st.integers(0, 1))]
    return {'dt': spec, 'place': draw(S_PLACE),
            'zones': draw(st.lists(st.sampled_from(sorted(POSIX) + ([] if far else NAMED)), min_size=1, max_size=3,
                                   unique=True))}


# -- loading text ----------------------------------------------------------------------

def check_load(case, ctx):
    y, mo, d, h, mi, s = case['f']
    text = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, mo, d, h, mi, s)
    if case['frac']:
        text += '.' + case['frac']
    us = int(case['frac'].ljust(6, '0')[:6]) if case['frac'] else 0
    off = case['off']
    if off is None:
        text += 'Z'
    else:
        text += ('-' if off < 0 or case['neg0'] and off == 0 else '+') + '%02d:%02d' % divmod(abs(off), 60)
    ctx.interesting(bool(case['frac']) or bool(off))
    ctx.label('frac:%d' % len(case['frac']))
    obj, T, get = place(case, text)
    if isinstance(obj, tuple):
        obj = list(obj)
    if isinstance(obj, Holder):
        obj = {'when': text}
    for strict in (False, True):
        r = get(jsons.load(obj, T, strict=strict))
        require(type(r) is dt.datetime and r.replace(tzinfo=None) == dt.datetime(y, mo, d, h, mi, s, us)
                and r.utcoffset() == dt.timedelta(minutes=off or 0),
                '%r was loaded as %r', text, r)
    r = jsons.load(text)
    require(type(r) is dt.datetime and r.replace(tzinfo=None) == dt.datetime(y, mo, d, h, mi, s, us)
            and r.utcoffset() == dt.timedelta(minutes=off or 0), '%r was loaded (without type) as %r', text, r)


S_LOAD = st.builds(
    lambda d, t, frac, off, neg0, place: {'f': d + t[:3], 'frac': frac, 'off': off, 'neg0': neg0, 'place': place},
    S_DATE, S_TIME, st.one_of(st.just(''), st.text('0123456789', min_size=1, max_size=9),
                              st.text('0123456789', min_size=7, max_size=20),
                              st.sampled_from(['000001', '999999', '5', '05', '9999999', '0', '9999999999', '0000000001', '1' * 30])),
    st.one_of(st.none(), S_OFFMIN), st.booleans(), S_PLACE)


# -- date, time, timedelta -----------------------------------------------------------------

def check_parts(case, ctx):
    kind, v = case['kind'], case['v']
    ctx.label(kind)
    if kind == 'date':
        o, T = dt.date(*v), dt.date
        want = '%04d-%02d-%02d' % tuple(v)
        ctx.interesting(v[0] < 1900 or v[1:] != [1, 1])
    elif kind == 'time':
        o, T = dt.time(*v), dt.time
        want = '%02d:%02d:%02d' % tuple(v[:3]) + ('.%06d' % v[3] if v[3] else '')
        ctx.interesting(any(v))
    else:
        o, T = dt.timedelta(days=v[0], seconds=v[1], microseconds=v[2]), dt.timedelta
        want = None
        ctx.interesting(v[0] < 0 or v[2] != 0)
    obj, TT, get = place(case, o, T)
    d = get(jsons.dump(obj))
    if want is None:
        us = (o.days * 86400 + o.seconds) * 10**6 + o.microseconds
        require(type(d) is float and round(d * 10**6) == us, '%r was dumped as %r seconds', o, d)
    else:
        require(type(d) is str and d == want, '%r was dumped as %r', o, d)
    same(o, get(jsons.load(jsons.dump(obj), TT)), 'round trip of a %s' % kind, d)
    if kind == 'timedelta' and case.get('whole') is not None:
        same(dt.timedelta(seconds=case['whole']), jsons.load(case['whole'], dt.timedelta), 'whole seconds')


S_PARTS = st.one_of(
    st.builds(lambda v, p: {'kind': 'date', 'v': v, 'place': p}, S_DATE, S_PLACE),
    st.builds(lambda v, p: {'kind': 'time', 'v': v, 'place': p}, S_TIME, S_PLACE),
    st.builds(lambda v, p, w: {'kind': 'timedelta', 'v': v, 'place': p, 'whole': w}, S_TIMEDELTA, S_PLACE,
              st.one_of(st.none(), st.integers(-10**9, 10**9))))

PROP = Prop(
    'C03',
    'Datetimes over all years with UTC, minute offsets, named timezones and zones; naive ones under 1-3 local '
    'timezones each; RFC 3339 texts with 0-30 fraction digits; dates, times, timedeltas; at top level and inside '
    'lists, dicts, tuples, attributes, Optionals. Non-trivial: an offset, a fraction or an early year is involved.',
    [
        Facet('aware', s_aware, check_aware, 4000, 80000, 3),
        Facet('naive', s_naive, check_naive, 1500, 30000, 2),
        Facet('load', lambda: S_LOAD, check_load, 4000, 80000, 2),
        Facet('parts', lambda: S_PARTS, check_parts, 3000, 60000, 2),
    ],
    ['Offsets of whole minutes (RFC 3339 has no others); times without tzinfo; timedeltas below 2**31 seconds, '
     'beyond which a float of seconds cannot hold microseconds.',
     'Naive datetimes between 1972 and 2036 and wall clocks that exist; the system tz database and zoneinfo agree.'])
