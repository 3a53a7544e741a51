"""C23: every day of 1900-2999, every second of chosen days, every digit string up to a
length, every part of longer ones - against independent calendar arithmetic."""
import itertools
import os
import time

from mc.core import Out, Violation, require, same

ID = 'C23'
LEVEL = 'exploration'
RULE = ('every day of 1900-2999 x times of day x representations; every second of chosen days; every digit string up to length 6; every value of every pair of '
        'digits of longer ones; every prefix length; time zones of the process and of the datetime; non-trivial: all')
ASSUMPTIONS = ['Leap seconds do not exist (second 60 of an HTTP date is not judged).', 'HTTP dates are in GMT.']
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
DAY = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONGDAY = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-14']
OFFSETS = [0, 60, -300, 330, 840, -720, 1]
TIMES = [(0, 0, 0), (23, 59, 59), (12, 34, 56), (9, 5, 7)]
DAYS = [(1999, 12, 31), (2000, 2, 29), (2024, 3, 10), (1900, 1, 1), (2999, 12, 31), (2016, 12, 31)]
MICROS = sorted(set([0, 1, 9, 10, 99, 100, 999, 1000, 123456, 500000, 999999, 100000, 10000, 900000, 120, 12000] + list(range(0, 1000000, 9973))))


def BOUNDS(tier):
    T = tier == 'thorough'
    return dict(days='every day 1900-01-01..2999-12-31', times_per_day=len(TIMES) if T else 2, process_zones=ZONES if T else ZONES[1:2],
                seconds='every second of %d days' % (len(DAYS) if T else 2), digit_strings='every one up to length 6', pairs='every value of each two-digit part',
                microseconds='every one' if T else len(MICROS))


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def days(y, m, d):
    """days since 1970-01-01"""
    return FIRST[y] + sum(mdays(y, k) for k in range(1, m)) + d - 1


FIRST = {1970: 0}
for _y in range(1971, 3001):
    FIRST[_y] = FIRST[_y - 1] + (366 if leap(_y - 1) else 365)
for _y in range(1969, 1898, -1):
    FIRST[_y] = FIRST[_y + 1] - (366 if leap(_y) else 365)


def units(tier):
    T = tier == 'thorough'
    out = []
    for y in range(1900, 3000, 5):
        out.append(dict(t='days', lo=y, hi=y + 5, times=len(TIMES) if T else 2, zones=[0, 1, 2] if T else [1]))
    for d in DAYS if T else DAYS[:2]:
        for h in range(24):
            out.append(dict(t='secs', d=d, h=h))
    for p in range(10):
        for q in range(10):
            out.append(dict(t='digits', p='%d%d' % (p, q)))
    for part in range(5):
        for base in ('20140630120000', '19000229000000', '29991231235959', '00000000000000', '99999999999999', '20000231245960')[:6 if T else 3]:
            out.append(dict(t='pairs', part=part, base=base))
    for base in ('20160229115958', '19010131010101', '30001332256161'):
        out.append(dict(t='years', base=base))
    if T:
        for lo in range(0, 1000000, 5000):
            out.append(dict(t='micro', lo=lo, hi=lo + 5000))
    else:
        out.append(dict(t='micro', lo=0, hi=0))
    out.append(dict(t='offsets'))
    out.append(dict(t='forms'))
    return out


def explore(u, run):
    t = u['t']
    if t == 'days':
        for zi in u['zones']:
            setzone(zi)
            for y in range(u['lo'], u['hi']):
                for m in range(1, 13):
                    for d in range(1, mdays(y, m) + 1):
                        run(('day', zi, y, m, d, u['times']))
        setzone(0)
    elif t == 'secs':
        for mi in range(60):
            run(('minute', tuple(u['d']), u['h'], mi))
    elif t == 'digits':
        for n in range(0, 5):
            for rest in itertools.product('0123456789', repeat=n):
                run(('ts', u['p'] + ''.join(rest)))
        if u['p'] == '00':
            for s in [''] + list('0123456789'):
                run(('ts', s))
    elif t == 'pairs':
        b = u['base']
        i = 4 + 2 * u['part']
        for v in range(100):
            for n in range(4, 15):
                s = b[:i] + '%02d' % v + b[i + 2:]
                run(('ts', s[:n]))
            run(('ts', s + '99'))
            run(('ts', s + '0'))
            for w in range(100):
                run(('ts', s[:4] + '%02d' % w + s[6:]))
                run(('ts', s[:6] + '%02d' % w + s[8:]))
    elif t == 'years':
        for y in range(10000):
            for n in (4, 6, 7, 8, 14):
                run(('ts', ('%04d' % y + u['base'][4:])[:n]))
    elif t == 'micro':
        for us in range(u['lo'], u['hi']) if u['hi'] else MICROS:
            run(('micro', us))
    elif t == 'offsets':
        for o in OFFSETS:
            for y in (1900, 1969, 1970, 2000, 2038, 2999):
                for m, d in ((1, 1), (2, 28), (12, 31), (7, 4)):
                    for zi in range(len(ZONES)):
                        run(('offset', o, y, m, d, zi))
    else:
        for y in (1970, 1999, 2000, 2024, 2068):
            for m in range(1, 13):
                for d in range(1, mdays(y, m) + 1):
                    run(('forms', y, m, d))
        run(('now',))


_zone = [None]


def setzone(zi):
    if _zone[0] != zi:
        os.environ['TZ'] = ZONES[zi]
        time.tzset()
        _zone[0] = zi


def strings(y, m, d, H, M, S, us=None):
    wd = (days(y, m, d) + 3) % 7
    ts = '%04d%02d%02d%02d%02d%02d' % (y, m, d, H, M, S)
    iso = '%04d-%02d-%02dT%02d:%02d:%02dZ' % (y, m, d, H, M, S)
    http = '%s, %02d %s %04d %02d:%02d:%02d GMT' % (DAY[wd], d, MON[m - 1], y, H, M, S)
    return ts, iso, http, wd


def check(y, m, d, H, M, S, sec):
    from datetime import datetime, timezone
    from warcio import timeutils as T
    ts, iso, http, wd = strings(y, m, d, H, M, S)
    naive = datetime(y, m, d, H, M, S)
    aware = datetime(y, m, d, H, M, S, tzinfo=timezone.utc)
    a = 'of ' + iso
    for tz, dt in ((False, naive), (True, aware)):
        for fn, arg in (('iso_date_to_datetime', iso), ('http_date_to_datetime', http), ('timestamp_to_datetime', ts)):
            got = getattr(T, fn)(arg, tz_aware=tz)
            if got != dt or got.tzinfo != dt.tzinfo:
                raise Violation('%s(%r, tz_aware=%s): %r' % (fn, arg, tz, got))
        for got, want, w in ((T.datetime_to_iso_date(dt), iso, 'datetime_to_iso_date'), (T.datetime_to_http_date(dt), http, 'datetime_to_http_date'),
                             (T.datetime_to_timestamp(dt), ts, 'datetime_to_timestamp')):
            if got != want:
                raise Violation('%s(%r): %r' % (w, dt, got))
    for got, want, w in ((T.iso_date_to_timestamp(iso), ts, 'iso_date_to_timestamp'), (T.timestamp_to_iso_date(ts), iso, 'timestamp_to_iso_date'),
                         (T.http_date_to_timestamp(http), ts, 'http_date_to_timestamp'), (T.timestamp_to_http_date(ts), http, 'timestamp_to_http_date'),
                         (T.timestamp_to_sec(ts), sec, 'timestamp_to_sec'), (T.sec_to_timestamp(sec), ts, 'sec_to_timestamp')):
        if got != want:
            raise Violation('%s for %s: got %r, expected %r' % (w, iso, got, want))


def resolve(s):
    """the moment a string of digits stands for; an incomplete part is not given"""
    n = len(s)
    if n >= 4:
        year = int(s[:4])
    else:
        year = int(s + '2999'[n:]) if n else 2999
    year = min(max(year, 1900), 2999)

    def part(i, lo, hi):
        return min(max(int(s[i:i + 2]), lo), hi) if n >= i + 2 else hi
    m = part(4, 1, 12)
    return (year, m, part(6, 1, mdays(year, m)), part(8, 0, 23), part(10, 0, 59), part(12, 0, 59))


def run_case(case):
    from datetime import datetime, timezone, timedelta
    from warcio import timeutils as T
    t = case[0]
    if t == 'day':
        _, zi, y, m, d, n = case
        setzone(zi)
        base = days(y, m, d) * 86400
        for H, M, S in TIMES[:n]:
            check(y, m, d, H, M, S, base + H * 3600 + M * 60 + S)
        return Out(('day', (y, m)), transitions=18 * n)
    if t == 'minute':
        _, (y, m, d), h, mi = case
        for s in range(60):
            check(y, m, d, h, mi, s, days(y, m, d) * 86400 + h * 3600 + mi * 60 + s)
        return Out(('minute', h, mi), transitions=18 * 60)
    if t == 'ts':
        s = case[1]
        want = resolve(s)
        got = T.timestamp_to_datetime(s)
        require(isinstance(got, datetime) and got == datetime(*want) and got.tzinfo is None, 'timestamp_to_datetime(%s): %s, expected %s', s, got, want)
        got = T.timestamp_to_datetime(s, tz_aware=True)
        require(got == datetime(*want, tzinfo=timezone.utc), 'timestamp_to_datetime(%s, tz_aware=True): %s, expected %s', s, got, want)
        same(T.timestamp_to_sec(s), days(*want[:3]) * 86400 + want[3] * 3600 + want[4] * 60 + want[5], 'timestamp_to_sec(%s)' % s)
        ts, iso, http, _ = strings(*want)
        same((T.timestamp_to_iso_date(s), T.timestamp_to_http_date(s)), (iso, http), 'dates of timestamp %s' % s)
        return Out(want[:3])
    if t == 'micro':
        us = case[1]
        for y, m, d, H, M, S in ((2013, 12, 26, 10, 11, 12), (1900, 1, 1, 0, 0, 0), (2999, 12, 31, 23, 59, 59)):
            for tz in (None, timezone.utc):
                dt = datetime(y, m, d, H, M, S, us, tzinfo=tz)
                ts, iso, _, _ = strings(y, m, d, H, M, S)
                same(T.datetime_to_iso_date(dt), iso, 'datetime_to_iso_date(%r)' % dt)
                same(T.datetime_to_timestamp(dt), ts, 'datetime_to_timestamp(%r)' % dt)
                got = T.datetime_to_iso_date(dt, use_micros=True)
                require(got in ([iso, iso[:-1] + '.000000Z'] if us == 0 else [iso[:-1] + '.%06dZ' % us]), 'datetime_to_iso_date(%r, use_micros=True): %s', dt, got)
                same(T.iso_date_to_datetime(got, tz_aware=bool(tz)), dt, 'datetime of %s' % got)
        frac = '%06d' % us
        for n in range(1, 7):
            got = T.iso_date_to_datetime('2013-12-26T10:11:12.%sZ' % frac[:n])
            same(got, datetime(2013, 12, 26, 10, 11, 12, int((frac[:n] + '000000')[:6])), 'fraction .%s' % frac[:n])
        for more in ('0', '9', '499999'):
            got = T.iso_date_to_datetime('2013-12-26T10:11:12.%s%sZ' % (frac, more))
            same(got, datetime(2013, 12, 26, 10, 11, 12, us), 'fraction .%s%s' % (frac, more))
            same(T.iso_date_to_timestamp('2013-12-26T10:11:12.%s%sZ' % (frac, more)), '20131226101112', 'timestamp of a fraction')
        return Out(('micro', us % 1000))
    if t == 'offset':
        _, o, y, m, d, zi = case
        setzone(zi)
        base = datetime(y, m, d, 11, 30, 15)
        utc = base - timedelta(minutes=o) if not (y == 2999 and o < 0 and (m, d) == (12, 31)) else None
        if utc is None or utc.year < 1900:
            return Out('outside', nontrivial=False)
        dt = base.replace(tzinfo=timezone(timedelta(minutes=o)))
        ts, iso, http, _ = strings(utc.year, utc.month, utc.day, utc.hour, utc.minute, utc.second)
        same((T.datetime_to_timestamp(dt), T.datetime_to_iso_date(dt), T.datetime_to_http_date(dt)), (ts, iso, http), 'dates of %r' % dt)
        got = T.datetime_to_iso_date(dt.replace(microsecond=5), use_micros=True)
        same(got, iso[:-1] + '.000005Z', 'ISO date of %r with microseconds' % dt)
        return Out(('offset', o))
    if t == 'forms':
        _, y, m, d = case
        ts, iso, http, wd = strings(y, m, d, 9, 50, 10)
        want = datetime(y, m, d, 9, 50, 10)
        for s in ('%s %s %2d 09:50:10 %04d' % (DAY[wd], MON[m - 1], d, y), '%s, %02d-%s-%02d 09:50:10 GMT' % (LONGDAY[wd], d, MON[m - 1], y % 100)):
            same(T.http_date_to_datetime(s), want, 'HTTP date %s' % s)
            same(T.http_date_to_timestamp(s), ts, 'timestamp of HTTP date %s' % s)
        for s in (iso[:-1], iso.replace('T', ' ')):
            same(T.iso_date_to_datetime(s), want, 'ISO date %s' % s)
            same(T.iso_date_to_timestamp(s), ts, 'timestamp of %s' % s)
        same(T.iso_date_to_datetime(iso[:10]), datetime(y, m, d), 'ISO date %s' % iso[:10])
        return Out(('forms', m))
    for zi in (0, 1, 2):
        setzone(zi)
        a = time.gmtime()
        x, z = T.timestamp_now(), T.timestamp20_now()
        b = time.gmtime()
        lo, hi = time.strftime('%Y%m%d%H%M%S', a), time.strftime('%Y%m%d%H%M%S', b)
        require(lo <= x <= hi and len(x) == 14, 'timestamp_now(): %s at %s', x, lo)
        require(lo <= z[:14] <= hi and len(z) == 20 and z.isdigit(), 'timestamp20_now(): %s at %s', z, lo)
    setzone(0)
    return Out('now')
