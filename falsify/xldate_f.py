"""Executable contracts of the date functions, run on the real code."""
import datetime
import math
from fractions import Fraction
from xlrd import xldate as X

BASE = (datetime.date(1900, 3, 1).toordinal() - 61, datetime.date(1904, 1, 2).toordinal() - 1)
MAXS = tuple(datetime.date(9999, 12, 31).toordinal() - b for b in BASE)


def days_in(y, m):
    if m == 2:
        return 29 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def call(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', type(e).__name__


def want_tuple(x, mode):
    """set of acceptable outcomes"""
    if mode not in (0, 1):
        return [('exc', 'XLDateBadDatemode')]
    fx = Fraction(x)
    if fx < 0:
        return [('exc', 'XLDateNegative')]
    day = math.floor(fx)
    fr = (fx - day) * 86400
    r = math.floor(fr + Fraction(1, 2))
    alts = {r}
    if abs((fr + Fraction(1, 2)) - r) < Fraction(1, 10 ** 6):
        alts.add(r - 1)
        alts.add(r)
    if abs((fr + Fraction(1, 2)) - (r + 1)) < Fraction(1, 10 ** 6):
        alts.add(r + 1)
    out = []
    for s in alts:
        d = day
        if s < 0:
            continue
        if s >= 86400:
            d, s = d + 1, s - 86400
        h, m, sec = s // 3600, s // 60 % 60, s % 60
        if d > MAXS[mode]:
            out.append(('exc', 'XLDateTooLarge'))
        elif d == 0:
            out.append(('ok', (0, 0, 0, h, m, sec)))
        elif d < 61 and mode == 0:
            out.append(('exc', 'XLDateAmbiguous'))
        else:
            dt = datetime.date.fromordinal(d + BASE[mode])
            out.append(('ok', (dt.year, dt.month, dt.day, h, m, sec)))
    return out


def want_date(y, m, d, mode):
    if mode not in (0, 1):
        return ('exc', 'XLDateBadDatemode')
    if y == m == d == 0:
        return ('ok', 0.0)
    if not (1900 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= days_in(y, m)):
        return ('exc', 'XLDateBadTuple')
    n = datetime.date(y, m, d).toordinal() - BASE[mode]
    if n <= 0:
        return ('exc', 'XLDateBadTuple')
    if n < 61 and mode == 0:
        return ('exc', 'XLDateAmbiguous')
    return ('ok', float(n))


def test(case):
    k = case['op']
    if k == 'date':
        y, m, d, mode = case['args']
        got = call(X.xldate_from_date_tuple, (y, m, d), mode)
        w = want_date(y, m, d, mode)
        if got != w or (got[0] == 'ok' and type(got[1]) is not float):
            return 'xldate_from_date_tuple(%r, %r) -> %r, want %r' % ((y, m, d), mode, got, w)
    elif k == 'time':
        h, m, s = case['args']
        got = call(X.xldate_from_time_tuple, (h, m, s))
        if 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60:
            if got[0] != 'ok' or abs(Fraction(got[1]) - Fraction(3600 * h + 60 * m + s, 86400)) > Fraction(1, 10 ** 13):
                return 'xldate_from_time_tuple(%r) -> %r' % ((h, m, s), got)
        elif got != ('exc', 'XLDateBadTuple'):
            return 'xldate_from_time_tuple(%r) -> %r, want XLDateBadTuple' % ((h, m, s), got)
    elif k == 'tuple':
        x, mode = case['args']
        got = call(X.xldate_as_tuple, x, mode)
        w = want_tuple(x, mode)
        if got not in w or (got[0] == 'ok' and any(type(v) is not int for v in got[1])):
            return 'xldate_as_tuple(%r, %r) -> %r, want %r' % (x, mode, got, w)
    elif k == 'round':
        t, mode = tuple(case['args'][0]), case['args'][1]
        f = call(X.xldate_from_datetime_tuple, t, mode)
        wd = want_date(t[0], t[1], t[2], mode)
        okt = 0 <= t[3] < 24 and 0 <= t[4] < 60 and 0 <= t[5] < 60
        if wd[0] == 'exc' or not okt:
            if f[0] != 'exc' or f[1] not in (wd[1], 'XLDateBadTuple'):
                return 'xldate_from_datetime_tuple(%r, %r) -> %r' % (t, mode, f)
            return None
        if f[0] != 'ok':
            return 'xldate_from_datetime_tuple(%r, %r) -> %r' % (t, mode, f)
        g = call(X.xldate_as_tuple, f[1], mode)
        if g != ('ok', t):
            return 'round trip of %r mode %r: serial %r -> %r' % (t, mode, f[1], g)
    elif k == 'datetime':
        x, mode = case['args']
        got = call(X.xldate_as_datetime, x, mode)
        if mode:
            ep = datetime.datetime(1904, 1, 1)
        else:
            ep = datetime.datetime(1899, 12, 31) if x < 60 else datetime.datetime(1899, 12, 30)
        if got[0] != 'ok':
            return 'xldate_as_datetime(%r, %r) -> %r' % (x, mode, got)
        if got[1].tzinfo is not None or got[1].microsecond % 1000:
            return 'xldate_as_datetime(%r, %r) -> %r not whole milliseconds' % (x, mode, got[1])
        dlt = got[1] - ep
        ms = dlt.days * 86400000 + dlt.seconds * 1000 + dlt.microseconds // 1000
        if abs(ms - Fraction(x) * 86400000) > Fraction(1, 2) + Fraction(1, 1000):
            return 'xldate_as_datetime(%r, %r) -> %r, off by more than half a millisecond' % (x, mode, got[1])
    elif k == 'days':
        lo, hi, mode = case['args']
        for n in range(lo, hi):
            dt = datetime.date.fromordinal(n + BASE[mode])
            if X.xldate_as_tuple(n, mode) != (dt.year, dt.month, dt.day, 0, 0, 0):
                return 'xldate_as_tuple(%d, %d) -> %r' % (n, mode, X.xldate_as_tuple(n, mode))
            if X.xldate_from_date_tuple((dt.year, dt.month, dt.day), mode) != float(n):
                return 'xldate_from_date_tuple(%r, %d) -> %r' % (dt, mode, X.xldate_from_date_tuple((dt.year, dt.month, dt.day), mode))
    elif k == 'secs':
        day, lo, hi, mode = case['args']
        dt = datetime.date.fromordinal(day + BASE[mode])
        for s in range(lo, hi):
            t = (dt.year, dt.month, dt.day, s // 3600, s // 60 % 60, s % 60)
            if X.xldate_as_tuple(X.xldate_from_datetime_tuple(t, mode), mode) != t:
                return 'round trip of %r mode %d -> %r' % (t, mode, X.xldate_as_tuple(X.xldate_from_datetime_tuple(t, mode), mode))
            t0 = (0, 0, 0) + t[3:]
            if X.xldate_as_tuple(X.xldate_from_datetime_tuple(t0, mode), mode) != t0:
                return 'round trip of %r mode %d' % (t0, mode)
    return None


class Base(object):
    test = staticmethod(test)

    @staticmethod
    def from_model(h):
        out = []
        m = h.get('datemode', 0)
        if 'year' in h:
            t = [h.get(k, 0) for k in ('year', 'month', 'day')]
            out.append({'op': 'date', 'args': t + [m]})
            if 'hour' in h:
                out.append({'op': 'round', 'args': [t + [h.get(k, 0) for k in ('hour', 'minute', 'second')], m]})
        elif 'hour' in h:
            out.append({'op': 'time', 'args': [h[k] for k in ('hour', 'minute', 'second')]})
        if 'xldate' in h and isinstance(h['xldate'], (int, float)):
            out.append({'op': 'tuple', 'args': [h['xldate'], m]})
            if 0 <= h['xldate'] < MAXS[1]:
                out.append({'op': 'datetime', 'args': [h['xldate'], m]})
        return out


def edge_serials(mode):
    for n in list(range(-3, 70)) + [MAXS[mode] + k for k in range(-3, 4)] + [MAXS[0] + k for k in range(-2, 3)]:
        for f in (0.0, 1e-9, 0.25, 0.5, 0.999988, 0.99999, 0.999994, 0.9999943, 0.999995, 0.999999, 0.9999999999):
            yield n + f
    for x in (1e-300, -1e-300, -0.0, 0.0, 1e10, 1e17, 1e300, -1e300, 5e-324):
        yield x


class C01(Base):
    @staticmethod
    def cases(rng, deep):
        for mode in (0, 1, 2, -1):
            for y in (1899, 1900, 1901, 1903, 1904, 1905, 1999, 2000, 2001, 2100, 2400, 9999, 10000, 0, -1):
                for m in range(-1, 15):
                    for d in (-1, 0, 1, 2, 27, 28, 29, 30, 31, 32):
                        yield {'op': 'date', 'args': [y, m, d, mode]}
        for t in [(h, m, s) for h in (-1, 0, 1, 12, 23, 24) for m in (-1, 0, 1, 30, 59, 60) for s in (-1, 0, 1, 30, 59, 60)]:
            yield {'op': 'time', 'args': list(t)}
            yield {'op': 'round', 'args': [[2004, 2, 29] + list(t), 0]}
            yield {'op': 'round', 'args': [[0, 0, 0] + list(t), 1]}
        lo = [61, 1]
        for mode in (0, 1):
            for day in (61, 400, 36526, MAXS[mode] - 1, MAXS[mode]):
                for s in range(0, 86400, 4000):
                    yield {'op': 'secs', 'args': [day, s, min(s + 4000, 86400), mode]}
        step = 20000
        for mode in (0, 1):
            ch = list(range(lo[mode], MAXS[mode] + 1, step))
            for a in ch:
                yield {'op': 'days', 'args': [a, min(a + step, MAXS[mode] + 1), mode]}
        while True:
            mode = rng.randrange(2)
            n = rng.randrange(lo[mode], MAXS[mode] + 1)
            dt = datetime.date.fromordinal(n + BASE[mode])
            s = rng.randrange(86400)
            yield {'op': 'round', 'args': [[dt.year, dt.month, dt.day, s // 3600, s // 60 % 60, s % 60], mode]}


class C02(Base):
    @staticmethod
    def cases(rng, deep):
        for mode in (0, 1, 2, -1, 5):
            for x in edge_serials(mode if mode in (0, 1) else 0):
                yield {'op': 'tuple', 'args': [x, mode]}
                if x == int(x) and abs(x) < 1e9:
                    yield {'op': 'tuple', 'args': [int(x), mode]}
        for i in range(20000):
            mode = rng.randrange(2)
            x = rng.choice([rng.uniform(0, 100), rng.uniform(0, MAXS[mode] + 1), rng.uniform(30000, 50000),
                            rng.randrange(MAXS[mode]) + rng.randrange(86400) / 86400.0,
                            rng.randrange(MAXS[mode]) + (rng.randrange(86400) + rng.choice([0.49, 0.51])) / 86400.0])
            yield {'op': 'tuple', 'args': [x, mode]}
        step = 20000
        for mode in (0, 1):
            for a in range([61, 1][mode], MAXS[mode] + 1, step):
                yield {'op': 'days', 'args': [a, min(a + step, MAXS[mode] + 1), mode]}
        while True:
            mode = rng.randrange(2)
            yield {'op': 'tuple', 'args': [rng.uniform(0, MAXS[mode] + 1), mode]}


class C03(Base):
    @staticmethod
    def cases(rng, deep):
        for mode in (0, 1):
            for x in edge_serials(mode):
                if 0 <= x < MAXS[mode] + 0.5:
                    yield {'op': 'datetime', 'args': [x, mode]}
                    if x == int(x):
                        yield {'op': 'datetime', 'args': [int(x), mode]}
        for i in range(60000 if not deep else 1000000):
            mode = rng.randrange(2)
            x = rng.choice([rng.uniform(0, 100), rng.uniform(0, MAXS[mode]), rng.uniform(30000, 50000),
                            rng.randrange(MAXS[mode]) + rng.randrange(86400000) / 86400000.0,
                            rng.randrange(MAXS[mode]) + (rng.randrange(86400000) + rng.choice([0.47, 0.53])) / 86400000.0])
            yield {'op': 'datetime', 'args': [x, mode]}
