"""Contracts on the handlers of workbook-wide settings: date mode, countries, user name (C35)."""
from .common import *
from .basics import ustr_layout, cases8
from .walk import book, noexc, BK, text, dec_dyn, u_derive
from pyvc import models
import xlrd.book


def frame(e, b, before, allowed):
    bad = [k for k in set(b.attrs) | set(before) if k not in allowed and (k not in before or k not in b.attrs or b.attrs[k] is not before[k])]
    e.prove('nothing else is changed', not bad)


def u_datemode(e):
    """DATEMODE: 0 and 1 are taken over, anything else is refused"""
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 2)
    b = book(datemode=e.int('previous', lo=0, hi=1, inp=True), verbosity=e.choose('verbosity', 3))
    before = dict(b.attrs)
    out = it.outcome(BK + 'handle_datemode', b, d)
    v = u16(e, d, 0)
    if e.branch(z3.Or(v == 0, v == 1)):
        e.cover('ok')
        noexc(e, out)
        e.prove('date mode', T(b.attrs['datemode']) == v)
        frame(e, b, before, ('datemode',))
    else:
        e.cover('refused')
        e.prove('refused', out[0] == 'exc')
        frame(e, b, before, ())
    e.expect_covers('ok', 'refused')


named(u_datemode, 'handle_datemode')


def u_country(e):
    """COUNTRY: the pair of the record; records that disagree are refused"""
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 4)
    p = (e.int('previous user', lo=0, hi=65535, inp=True), e.int('previous system', lo=0, hi=65535, inp=True))
    b = book(countries=p, verbosity=e.choose('verbosity', 3))
    before = dict(b.attrs)
    out = it.outcome(BK + 'handle_country', b, d)
    v = (u16(e, d, 0), u16(e, d, 2))
    same = z3.Or(z3.And(p[0].t == 0, p[1].t == 0), z3.And(p[0].t == v[0], p[1].t == v[1]))
    if e.branch(same):
        e.cover('ok')
        noexc(e, out)
        c = b.attrs['countries']
        e.prove('a pair', isinstance(c, tuple) and len(c) == 2)
        e.prove('user interface country', T(c[0]) == v[0])
        e.prove('system country', T(c[1]) == v[1])
        frame(e, b, before, ('countries',))
    else:
        e.cover('refused')
        e.prove('refused', out[0] == 'exc')
        frame(e, b, before, ())
    e.expect_covers('ok', 'refused')


named(u_country, 'handle_country')


def rstripped(it, t):
    return text(it, models.call_builtin_method(it, SStr(t), 'rstrip', [], {}))


def u_user(bv):
    """WRITEACCESS: the name without trailing white space; before BIFF8 kept undecoded while the encoding is not known"""
    def unit(e):
        it = Interp(e)
        d = e.seq('record', inp=True)
        known = bv >= 80 or e.choose('encoding known')
        enc = e.str('encoding') if known else None
        if known and bv < 80:
            e.assume(text(it, enc) != strlit(''))
        b = book(biff_version=bv, encoding=enc, raw_user_name=False, user_name='', verbosity=0)
        before = dict(b.attrs)
        if bv >= 80:
            n = u16(e, d, 0)
            e.assume(d.ln >= 2)
            txt, end, info = ustr_layout(e, d, z3.IntVal(0), n, z3.IntVal(2))
            e.assume(z3.Or(n == 0, info['body'] + info['nbytes'] <= d.ln))
        else:
            n = u8(e, d, 0)
            e.assume(d.ln >= 1 + n)
        out = it.outcome(BK + 'handle_writeaccess', b, d)
        noexc(e, out)
        g = b.attrs['user_name']
        if not known:
            e.cover('pending')
            e.prove('kept as it is', g is d)
            e.prove('marked as undecoded', b.attrs['raw_user_name'] in (True, 1))
        elif bv < 80:
            e.cover('name')
            e.prove('name', text(it, g) == rstripped(it, dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + 1), z3.simplify(n))))
            e.prove('not pending', b.attrs['raw_user_name'] in (False, 0))
        else:
            e.cover('name')
            if e.branch(n == 0):
                e.prove('empty name', text(it, g) == strlit(''))
            else:
                wide = e.branch(info['wide'])
                t = decoded(e, 'utf_16_le', d, z3.simplify(info['body']), z3.simplify(2 * n)) if wide else decoded(e, 'latin_1', d, z3.simplify(info['body']), z3.simplify(n))
                e.prove_cases('name', text(it, g) == rstripped(it, t), cases8(info))
            e.prove('not pending', b.attrs['raw_user_name'] in (False, 0))
        frame(e, b, before, ('user_name', 'raw_user_name'))
        e.expect_covers('name', *(['pending'] if bv < 80 else []))
    return named(unit, 'handle_writeaccess[%s]' % ('BIFF8' if bv >= 80 else 'before BIFF8'))


def u_fmtcount(e):
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 2)
    b = book(builtinfmtcount=-1)
    before = dict(b.attrs)
    noexc(e, it.outcome(BK + 'handle_builtinfmtcount', b, d))
    e.prove('count', T(b.attrs['builtinfmtcount']) == u16(e, d, 0))
    frame(e, b, before, ('builtinfmtcount',))
    e.cover('ok')
    e.expect_covers('ok')


named(u_fmtcount, 'handle_builtinfmtcount')

C35 = [u_datemode, u_country, u_user(80), u_user(70), u_fmtcount, u_derive]
