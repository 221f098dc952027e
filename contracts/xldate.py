"""Contracts on xlrd/xldate.py (properties C01, C02, C03)."""
import z3
from fractions import Fraction
from pyvc.values import *
from pyvc.interp import Interp, LoopSpec
from pyvc.models import SDateTime, SDelta
from pyvc.engine import PathEnd

M = 'xlrd.xldate.'
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
MLEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def ordinal(y, m, d):
    """proleptic Gregorian ordinal, 0001-01-01 -> 1 (spec function; cross-checked
    against datetime.date.toordinal by the self test)"""
    cum = z3.IntVal(CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, z3.IntVal(CUM[k]), cum)
    y1 = y - 1
    return 365 * y1 + y1 / 4 - y1 / 100 + y1 / 400 + cum + z3.If(z3.And(m > 2, leap(y)), 1, 0) + d


def mdays(y, m):
    n = z3.IntVal(31)
    for k in range(12):
        if MLEN[k] != 31:
            n = z3.If(m == k + 1, z3.IntVal(MLEN[k]), n)
    return z3.If(z3.And(m == 2, leap(y)), 29, n)


def valid(y, m, d):
    return z3.And(m >= 1, m <= 12, d >= 1, d <= mdays(y, m))


# serial day n denotes ordinal n + BASE[mode]   (Excel: day 61 of the 1900 system is
# 1900-03-01, day 1 of the 1904 system is 1904-01-02)
BASE = (693655 - 61 + 0, 694963 - 1)
import datetime as _dt
BASE = (_dt.date(1900, 3, 1).toordinal() - 61, _dt.date(1904, 1, 2).toordinal() - 1)
MAXSERIAL = tuple(_dt.date(9999, 12, 31).toordinal() - b for b in BASE)


def exc_is(out, name):
    return out[0] == 'exc' and out[1].cls.__name__ == name


def u_from_date(mode):
    def unit(e):
        """xldate_from_date_tuple: for every integer tuple and datemode 0/1"""
        it = Interp(e)
        it.float_mode = 'real'
        y, m, d = e.int('year', inp=True), e.int('month', inp=True), e.int('day', inp=True)
        e.inputs['datemode'] = mode
        out = it.outcome(M + 'xldate_from_date_tuple', (y, m, d), mode)
        Y, Mo, D = y.t, m.t, d.t
        zero = z3.And(Y == 0, Mo == 0, D == 0)
        ok_comp = z3.And(Y >= 1900, Y <= 9999, valid(Y, Mo, D))
        n = ordinal(Y, Mo, D) - BASE[mode]
        if out[0] == 'ok':
            r = it.to_sreal(out[1])
            e.cover('returns')
            e.prove('domain', z3.Or(zero, z3.And(ok_comp, n >= (61 if mode == 0 else 1))))
            e.prove('float', isinstance(out[1], (float, SReal)))
            e.prove('value', r.t == z3.If(zero, z3.RealVal(0), z3.ToReal(n)))
        elif exc_is(out, 'XLDateBadTuple'):
            e.cover('badtuple')
            e.prove('badtuple-only-if-invalid', z3.And(z3.Not(zero), z3.Or(z3.Not(ok_comp), n <= 0)))
        elif exc_is(out, 'XLDateAmbiguous'):
            e.cover('ambiguous')
            e.prove('ambiguous-only-if', z3.And(mode == 0, ok_comp, n >= 1, n < 61))
        else:
            e.unreachable('exceptions', 'raises %s' % out[1].cls.__name__)
        e.expect_covers('returns', 'badtuple', *(['ambiguous'] if mode == 0 else []))
    unit.__name__ = 'from_date_tuple[mode %d]' % mode
    return unit


def u_from_time(e):
    it = Interp(e)
    it.float_mode = 'real'
    h, m, s = e.int('hour', inp=True), e.int('minute', inp=True), e.int('second', inp=True)
    out = it.outcome(M + 'xldate_from_time_tuple', (h, m, s))
    rng = z3.And(h.t >= 0, h.t < 24, m.t >= 0, m.t < 60, s.t >= 0, s.t < 60)
    if out[0] == 'ok':
        e.cover('returns')
        e.prove('domain', rng)
        e.prove('float', isinstance(out[1], (float, SReal)))
        r = it.to_sreal(out[1]).t
        ex = z3.ToReal(h.t * 3600 + m.t * 60 + s.t) / 86400
        eps = z3.RealVal(Fraction(1, 10 ** 14))
        e.prove('value', z3.And(r - ex <= eps, ex - r <= eps))
        e.prove('range', z3.And(r >= 0, r < 1))
    elif exc_is(out, 'XLDateBadTuple'):
        e.cover('badtuple')
        e.prove('badtuple-only-if-invalid', z3.Not(rng))
    else:
        e.unreachable('exceptions', 'raises %s' % out[1].cls.__name__)
    e.expect_covers('returns', 'badtuple')


def u_from_datetime(mode):
    def unit(e):
        """xldate_from_datetime_tuple = date part + time part, under the contracts of the two"""
        it = Interp(e)
        it.float_mode = 'real'
        vals = [e.int(n, inp=True) for n in ('year', 'month', 'day', 'hour', 'minute', 'second')]
        e.inputs['datemode'] = mode
        Y, Mo, D, h, m, s = [v.t for v in vals]
        calls = []
        dd = e.real('datepart')
        tt = e.real('timepart')

        def date_c(it2, a, k):
            e.prove('pre:datemode', it2.equal(a[1], mode) is True)
            e.prove('pre:date components', z3.And(*[T(x) == y for x, y in zip(a[0], (Y, Mo, D))]) if len(a[0]) == 3 else False)
            calls.append('d')
            n = ordinal(Y, Mo, D) - BASE[mode]
            if e.choose('date raises') == 0:
                it2.throw(it.resolve(M + 'XLDateError'))
            e.assume(z3.And(dd.t >= 0, dd.t <= MAXSERIAL[mode]))
            return dd

        def time_c(it2, a, k):
            e.prove('pre:time components', z3.And(*[T(x) == y for x, y in zip(a[0], (h, m, s))]) if len(a[0]) == 3 else False)
            calls.append('t')
            if e.choose('time raises') == 0:
                it2.throw(it.resolve(M + 'XLDateError'))
            e.assume(z3.And(tt.t >= 0, tt.t < 1))
            return tt
        it.contracts[it.resolve(M + 'xldate_from_date_tuple')] = date_c
        it.contracts[it.resolve(M + 'xldate_from_time_tuple')] = time_c
        out = it.outcome(M + 'xldate_from_datetime_tuple', tuple(vals), mode)
        if out[0] == 'ok':
            e.cover('returns')
            e.prove('both parts used', sorted(calls) == ['d', 't'])
            r = it.to_sreal(out[1]).t
            eps = z3.RealVal(Fraction(1, 2 ** 31))
            ex = dd.t + tt.t
            e.prove('sum', z3.And(r - ex <= eps, ex - r <= eps))
        else:
            e.cover('raises')
            e.prove('only xldate errors', out[1].cls.__name__ == 'XLDateError')
        e.expect_covers('returns', 'raises')
    unit.__name__ = 'from_datetime_tuple[mode %d]' % mode
    return unit


RT = Fraction(1, 2 ** 53)


def as_tuple_spec(e, out, X, mode, lo=None, hi=None):
    """postcondition of xldate_as_tuple for a finite number X; mode concrete 0/1"""
    if out[0] == 'ok':
        e.cover('returns')
        v = out[1]
        if not (isinstance(v, tuple) and len(v) == 6 and all(isinstance(x, (int, SInt)) for x in v)):
            e.fail('shape', 'result %r' % (v,))
            return
        Y, Mo, D, h, m, s = [T(x) for x in v]
        e.prove('clock range', z3.And(h >= 0, h < 24, m >= 0, m < 60, s >= 0, s < 60))
        days = z3.Int(e.name('days'))
        secs = 3600 * h + 60 * m + s
        n = ordinal(Y, Mo, D) - BASE[mode]
        pure = z3.And(Y == 0, Mo == 0, D == 0)
        e.prove('non-negative', X >= 0)
        # whole-day part
        dayno = z3.If(pure, 0, n)
        okd = z3.Or(pure, z3.And(Y >= 1900, Y <= 9999, valid(Y, Mo, D), n >= (61 if mode == 0 else 1)))
        # the calendar part: the date is serial day K or K+1, K the whole part of X
        K = z3.Int(e.name('K'))
        e.assume(z3.And(z3.ToReal(K) <= X, X < z3.ToReal(K) + 1))
        DN = z3.Int(e.name('dayno'))
        qs = list(e.ghost.get('truncs', []))
        if qs:
            # the code computes a whole part: prove the calendar facts century by century
            q = qs[0]
            e.prove('whole part', q == K)
            l0, h0 = max(lo or 0, 61), min(hi or 10 ** 9, MAXSERIAL[0] + 2)
            cs = list(range(l0, h0, 36524))
            cases = [q < l0] + [z3.And(q >= c, q < c + 36524) for c in cs] + \
                [q >= (cs[-1] + 36524 if cs else l0)]
            if lo:
                e.prove('range', q >= l0)
                cases = cases[1:]
            if hi and cs:
                e.prove('range', q < cs[-1] + 36524)
                cases = cases[:-1]
            e.prove_cases('valid date or pure time', okd, cases)
            e.assume(DN == dayno)
            e.prove_any('calendar', [dayno == q, dayno == q + 1], cases)
        else:
            e.prove('valid date or pure time', okd)
        e.assume(DN == dayno)
        # nearest second: |86400*X - (86400*dayno + secs)| <= 0.5 (+ rounding of the product)
        tot = z3.ToReal(86400 * DN + secs)
        eps = z3.RealVal(Fraction(1, 10 ** 9))
        half = z3.RealVal(Fraction(1, 2))
        e.prove('nearest second', z3.And(86400 * X - tot <= half + eps, tot - 86400 * X <= half + eps))
    else:
        nm = out[1].cls.__name__
        eps = z3.RealVal(Fraction(1, 10 ** 14))
        if nm == 'XLDateNegative':
            e.cover('negative')
            e.prove('negative-only-if', X < 0)
        elif nm == 'XLDateAmbiguous':
            e.cover('ambiguous')
            e.prove('ambiguous-only-if', z3.And(mode == 0, X < 61, X >= 1 - z3.RealVal(Fraction(1, 172800)) - eps))
        elif nm == 'XLDateTooLarge':
            e.cover('toolarge')
            e.prove('toolarge-only-if', X >= MAXSERIAL[mode] + 1 - z3.RealVal(Fraction(1, 172800)) - eps)
        else:
            e.unreachable('exceptions', 'raises %s' % nm)


SPLITS = [(0, 730480), (730480, 1460960), (1460960, 2191440), (2191440, 2958467)]


def u_as_tuple(mode, lo, hi):
    """xldate_as_tuple for every finite double lo <= x < hi (None: unbounded)"""
    def unit(e):
        it = Interp(e)
        it.float_mode = 'real'
        x = e.real('xldate', inp=True)
        e.inputs['datemode'] = mode
        if lo is not None:
            e.assume(x.t >= lo)
        if hi is not None:
            e.assume(x.t < hi)
        out = it.outcome(M + 'xldate_as_tuple', x, mode)
        as_tuple_spec(e, out, x.t, mode, lo, hi)
        if lo is None:
            e.expect_covers('negative')
        elif hi is None:
            e.expect_covers('toolarge')
        else:
            e.expect_covers('returns')
    unit.__name__ = 'as_tuple[mode %d, %s..%s]' % (mode, lo, hi)
    return unit


def u_as_tuple_int(mode):
    """integer-typed serials: exact"""
    def unit(e):
        it = Interp(e)
        it.float_mode = 'real'
        x = e.int('xldate', inp=True)
        e.inputs['datemode'] = mode
        e.assume(z3.Or(x.t < 400, x.t >= 2956003))
        out = it.outcome(M + 'xldate_as_tuple', x, mode)
        as_tuple_spec(e, out, z3.ToReal(x.t), mode)
        e.expect_covers('negative', 'toolarge', 'returns')
    unit.__name__ = 'as_tuple-int[mode %d]' % mode
    return unit


def u_bad_mode(fn):
    def unit(e):
        it = Interp(e)
        it.float_mode = 'real'
        dm = e.int('datemode', inp=True)
        if fn == 'xldate_as_tuple':
            x = e.real('xldate', inp=True)
            out = it.outcome(M + fn, x, dm)
        else:
            y, m, d = e.int('year', inp=True), e.int('month', inp=True), e.int('day', inp=True)
            out = it.outcome(M + fn, (y, m, d), dm)
        bad = z3.And(dm.t != 0, dm.t != 1)
        if exc_is(out, 'XLDateBadDatemode'):
            e.cover('bad')
            e.prove('only-if', bad)
        else:
            e.cover('good')
            e.prove('if', z3.Not(bad))
        e.expect_covers('bad', 'good')
    unit.__name__ = 'datemode[%s]' % fn
    return unit


def u_as_datetime(mode):
    def unit(e):
        it = Interp(e)
        it.float_mode = 'real'
        x = e.real('xldate', inp=True)
        e.inputs['datemode'] = mode
        e.assume(z3.And(x.t >= 0, x.t < MAXSERIAL[mode] + 1))
        out = it.outcome(M + 'xldate_as_datetime', x, mode)
        if out[0] != 'ok':
            e.unreachable('exceptions', 'raises %s' % out[1].cls.__name__)
        v = out[1]
        if not isinstance(v, SDateTime):
            e.fail('shape', 'result %r' % (v,))
            return
        e.cover('returns')
        ep = v.epoch
        d = v.delta
        base_ms = ((ep.toordinal() * 24 + ep.hour) * 60 + ep.minute) * 60000 + ep.second * 1000
        e.prove('whole ms epoch', ep.microsecond == 0)
        e.prove('no microseconds', T(d.us) == 0)
        tot = base_ms + T(d.days) * 86400000 + T(d.secs) * 1000 + T(d.ms)
        # documented meaning: day 0 of the 1904 system is 1904-01-01; in the 1900 system
        # serials from 60 on are days after 1899-12-30, earlier ones after 1899-12-31
        o1904 = _dt.date(1904, 1, 1).toordinal()
        o1900 = _dt.date(1899, 12, 31).toordinal()
        if mode == 1:
            base = z3.RealVal(o1904)
        else:
            base = z3.If(x.t < 60, z3.RealVal(o1900), z3.RealVal(o1900 - 1))
        want = (base + x.t) * 86400000
        eps = z3.RealVal(Fraction(1, 2 ** 20))
        half = z3.RealVal(Fraction(1, 2))
        e.prove('nearest millisecond', z3.And(z3.ToReal(tot) - want <= half + eps, want - z3.ToReal(tot) <= half + eps))
        e.prove('timedelta fields small', z3.And(T(d.secs) >= 0, T(d.secs) <= 86400, T(d.ms) >= 0, T(d.ms) < 1000))
        e.expect_covers('returns')
    unit.__name__ = 'as_datetime[mode %d]' % mode
    return unit


def l_roundtrip(mode):
    """lemma over the contracts: as_tuple(from_datetime(t)) == t"""
    def unit(e):
        y, m, d, h, mi, s = [z3.Int(n) for n in 'y m d h mi s'.split()]
        y2, m2, d2, h2, mi2, s2 = [z3.Int(n + '2') for n in 'y m d h mi s'.split()]
        n1 = z3.Int('n1')
        n2 = z3.Int('n2')
        # contract of xldate_from_datetime_tuple (date part exact, time part within 1e-14, sum within 2^-31)
        X = z3.Real('X')
        t1 = 3600 * h + 60 * mi + s
        t2 = 3600 * h2 + 60 * mi2 + s2
        rng = lambda a, b, c: z3.And(a >= 0, a < 24, b >= 0, b < 60, c >= 0, c < 60)
        e.assume(rng(h, mi, s))
        e.assume(rng(h2, mi2, s2))
        eps = z3.RealVal(Fraction(1, 2 ** 30))
        ex = z3.ToReal(n1) + z3.ToReal(t1) / 86400
        e.assume(z3.And(X - ex <= eps, ex - X <= eps))
        # contract of xldate_as_tuple
        half = z3.RealVal(Fraction(1, 2)) + z3.RealVal(Fraction(1, 10 ** 9))
        tot = z3.ToReal(86400 * n2 + t2)
        e.assume(z3.And(86400 * X - tot <= half, tot - 86400 * X <= half))
        e.cover('consistent')
        e.prove('same day number and time', z3.And(n1 == n2, t1 == t2, h == h2, mi == mi2, s == s2))
        e.expect_covers('consistent')
    unit.__name__ = 'lemma:roundtrip[mode %d]' % mode
    return unit


def l_injective(e):
    """lemma: the ordinal determines the valid date"""
    y, m, d, y2, m2, d2 = [e.int(n).t for n in 'y m d y2 m2 d2'.split()]
    for a, b, c in ((y, m, d), (y2, m2, d2)):
        e.assume(z3.And(a >= 1900, a <= 9999, valid(a, b, c)))
    # year window: ordinal of Jan 1st, by decomposition of the century count
    jan = lambda q: 365 * (q - 1) + (q - 1) / 4 - (q - 1) / 100 + (q - 1) / 400
    q = e.int('q').t
    e.cover('consistent')
    e.prove('within year', z3.And(ordinal(y, m, d) > jan(y), ordinal(y, m, d) <= jan(y) + z3.If(leap(y), 366, 365)))
    e.prove('within year 2', z3.And(ordinal(y2, m2, d2) > jan(y2), ordinal(y2, m2, d2) <= jan(y2) + z3.If(leap(y2), 366, 365)))
    e.prove('year step', jan(y + 1) == jan(y) + z3.If(leap(y), 366, 365))
    e.prove('year step 2', jan(y2 + 1) == jan(y2) + z3.If(leap(y2), 366, 365))
    e.prove('year monotone', z3.Implies(y < y2, jan(y + 1) <= jan(y2)))
    e.prove('year monotone 2', z3.Implies(y2 < y, jan(y2 + 1) <= jan(y)))
    e.assume(ordinal(y, m, d) == ordinal(y2, m2, d2))
    e.prove('same year', y == y2)
    e.prove('same date', z3.And(m == m2, d == d2))
    e.expect_covers('consistent')


def from_date_bounds(e):
    pass


C01 = [u_from_date(0), u_from_date(1), u_from_time, u_from_datetime(0), u_from_datetime(1),
       l_roundtrip(0), l_roundtrip(1), l_injective]
C02 = [u_as_tuple(m, lo, hi) for m in (0, 1) for lo, hi in [(None, 0)] + SPLITS + [(2958467, None)]] + \
      [u_as_tuple_int(0), u_as_tuple_int(1), u_bad_mode('xldate_as_tuple')]
C01 = C01 + [u_bad_mode('xldate_from_date_tuple')] + C02
C03 = [u_as_datetime(0), u_as_datetime(1)]
