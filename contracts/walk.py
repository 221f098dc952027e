"""Contracts on the record stream and the workbook globals: record framing and dispatch (C12), BOF (C13), encoding (C27),
sheet list (C33), encryption (C37)."""
from .common import *
import xlrd.book
import xlrd.sheet
import xlrd.biffh
import xlrd.formatting
import xlrd.timemachine

BOOK = xlrd.book.Book
BK = 'xlrd.book.Book.'
XERR = xlrd.biffh.XLRDError


def book(**kw):
    d = dict(verbosity=0, logfile=None)
    d.update(kw)
    return PObj(BOOK, d, name='book')


def noexc(e, out):
    if out[0] != 'ok':
        e.unreachable('noexc', 'raises %s%r at %s' % (out[1].cls.__name__, out[1].args, e.lastloc))
    return out[1]


def same_seq(e, name, got, src, off, ln):
    """got is exactly src[off:off+ln] (byte at an arbitrary index)"""
    e.prove(name + '/is bytes', isinstance(got, (bytes, Seq)))
    it_len = z3.IntVal(len(got)) if isinstance(got, bytes) else T(got.length)
    e.prove(name + '/length', it_len == T(ln))
    if e.feasible() and not (isinstance(got, bytes) and not got):
        j = e.int('j', lo=0)
        if e.branch(j.t < it_len):
            if isinstance(got, bytes):
                for i in range(len(got)):
                    e.prove(name + '/byte', u8(e, src, T(off) + i) == got[i])
            else:
                g = got
                if g.items is not None:
                    for i, x in enumerate(g.items):
                        e.prove(name + '/byte', u8(e, src, T(off) + i) == T(x))
                else:
                    e.prove(name + '/byte', z3.Select(g.arr, T(g.off) + j.t) == u8(e, src, T(off) + j.t))


def clip(n, hi):
    return z3.If(T(n) < T(hi), T(n), T(hi))


# ------------------------------------------------------------------ C12
def stream(e, extra=0):
    mem = e.seq('mem', inp=True)
    pos = e.int('pos', lo=0, inp=True)
    e.assume(pos.t + extra <= mem.ln)
    return mem, pos


def u_parts(cond):
    def unit(e):
        it = Interp(e)
        mem, pos = stream(e, 4)
        b = book(mem=mem, _position=pos)
        code, ln = u16(e, mem, pos.t), u16(e, mem, pos.t + 2)
        args = []
        if cond:
            rq = e.int('reqd', lo=0, hi=65535, inp=True)
            args = [rq]
        out = noexc(e, it.outcome(BK + ('get_record_parts_conditional' if cond else 'get_record_parts'), b, *args))
        e.prove('triple', isinstance(out, tuple) and len(out) == 3)
        if cond:
            if not e.branch(code == rq.t):
                e.cover('other record')
                e.prove('no record', out[0] is None and cint(out[1]) == 0 and out[2] == b'')
                e.prove('nothing consumed', T(b.attrs['_position']) == pos.t)
                e.expect_covers('record', 'other record')
                return
        e.cover('record')
        e.prove('type', out[0] is not None and T(out[0]) == code)
        e.prove('length', T(out[1]) == ln)
        same_seq(e, 'data', out[2], mem, pos.t + 4, clip(ln, mem.ln - pos.t - 4))
        e.prove('next record starts after the data', T(b.attrs['_position']) == pos.t + 4 + ln)
        e.prove('stream kept', b.attrs['mem'] is mem)
        e.expect_covers(*(['record', 'other record'] if cond else ['record']))
    return named(unit, 'get_record_parts_conditional' if cond else 'get_record_parts')


class Globals(object):
    """parse_globals in an arbitrary state, one scripted record"""
    HANDLERS = ('handle_sst', 'handle_font', 'handle_format', 'handle_xf', 'handle_boundsheet', 'handle_datemode', 'handle_codepage',
                'handle_country', 'handle_externname', 'handle_externsheet', 'handle_filepass', 'handle_writeaccess',
                'handle_sheetsoffset', 'handle_sheethdr', 'handle_supbook', 'handle_name', 'handle_palette', 'handle_style',
                'handle_efont', 'handle_obj', 'handle_builtinfmtcount', 'xf_epilogue', 'names_epilogue', 'palette_epilogue', 'derive_encoding')

    def __init__(self, e, bv, rec, enc='x'):
        self.e = e
        self.it = it = Interp(e)
        self.calls, self.n, self.rec, self.iters = [], 0, rec, 0
        self.o = book(biff_version=bv, encoding=enc, _position=e.int('pos', lo=0))
        for nm in self.HANDLERS:
            if BOOK.__dict__.get(nm) is not None:
                it.contracts[BOOK.__dict__[nm]] = self.log(nm)
            self.o.attrs[nm] = SpecFn(self.log(nm))
        it.contracts[it.resolve('xlrd.formatting.initialise_book')] = self.log('initialise_book')
        it.contracts[it.resolve(BK + 'get_record_parts')] = self.next
        sp = LoopSpec('globals', kind='while', modifies=lambda L: [(self.o, '*', 'keep')],
                      match=lambda it_, node, fr: fr.qual.endswith('parse_globals'))
        sp.body_hook = self.begin
        sp.end_hook = self.end
        it.loop_specs.append(sp)

    def log(self, nm):
        def f(it, a, k):
            a = [x for x in a if x is not self.o]
            self.calls.append((nm, a))
            if nm == 'handle_filepass':
                raise PyExc(ExcVal(XERR, ('Workbook is encrypted',)))
        return f

    def next(self, it, a, k):
        if self.n:
            raise PathEnd()
        self.n = 1
        return self.rec[0], mkint(self.rec[1].ln), self.rec[1]

    def begin(self, L):
        self.calls = []
        self.writes = []
        self.e.ghost['write_hook'] = lambda o, attr: self.writes.append((o, attr))

    def end(self, L):
        self.ended = True
        self.e.prove('one record consumed', self.n == 1)
        self.e.prove('nothing else changed', not [w for w in self.writes if w[0] is self.o and w[1] not in ('_position',)])
        self.e.cover('record')
        self.post(L)


GCODES = {0xFC: 'handle_sst', 0x31: 'handle_font', 0x231: 'handle_font', 0x41E: 'handle_format', 0xE0: 'handle_xf', 0x85: 'handle_boundsheet',
          0x22: 'handle_datemode', 0x42: 'handle_codepage', 0x8C: 'handle_country', 0x23: 'handle_externname', 0x17: 'handle_externsheet',
          0x5C: 'handle_writeaccess', 0x8E: 'handle_sheetsoffset', 0x8F: 'handle_sheethdr', 0x1AE: 'handle_supbook',
          0x18: 'handle_name', 0x92: 'handle_palette', 0x293: 'handle_style'}


def u_globals(e):
    codes = sorted(GCODES)
    code = codes[e.choose('record', len(codes))]
    bv = [80, 70, 45][e.choose('version', 3)]
    d = e.seq('record', inp=True)
    e.inputs.update(code=code)
    g = Globals(e, bv, (code, d))

    def post(L):
        e.prove('handed to the handler of its type, once', [n for n, a in g.calls] == [GCODES[code]])
        e.prove('with its data', len(g.calls[0][1]) >= 1 and g.calls[0][1][0] is d)
    g.post = post
    out = g.it.outcome(BK + 'parse_globals', g.o)
    e.unreachable('the record does not end the globals', repr(out))
    e.expect_covers('record')


named(u_globals, 'parse_globals[interpreted records]')


def u_globals_other(e):
    d = e.seq('record', inp=True)
    code = e.int('code', lo=0, hi=65535, inp=True)
    bv = [80, 70, 45][e.choose('version', 3)]
    e.assume(z3.And(*[code.t != c for c in list(GCODES) + [0x2F, 0x0A]]))
    g = Globals(e, bv, (code, d))
    g.o.attrs['verbosity'] = e.int('verbosity')
    g.post = lambda L: e.prove('skipped without effect', not g.calls)
    out = g.it.outcome(BK + 'parse_globals', g.o)
    e.unreachable('the record does not end the globals', repr(out))


named(u_globals_other, 'parse_globals[other records]')


def u_globals_eof(e):
    d = e.seq('record', inp=True)
    bv = [80, 70, 45][e.choose('version', 3)]
    known = e.choose('encoding known')
    g = Globals(e, bv, (0x0A, d), enc='cp1252' if known else None)
    g.post = lambda L: e.unreachable('EOF ends the globals')
    out = g.it.outcome(BK + 'parse_globals', g.o)
    noexc(e, out)
    e.cover('eof')
    want = ['xf_epilogue', 'names_epilogue', 'palette_epilogue'] + ([] if known else ['derive_encoding'])
    got = [n for n, a in g.calls]
    e.prove('epilogues run once', sorted(got) == sorted(want))
    e.prove('names resolved after formats', got.index('xf_epilogue') >= 0)
    e.expect_covers('eof')


named(u_globals_eof, 'parse_globals[EOF]')

C12 = [u_parts(0), u_parts(1), u_globals, u_globals_other, u_globals_eof]


# ------------------------------------------------------------------ C13
def bof_spec(e, mem, pos, rqd):
    """(accepted, version, end) over the mathematical stream; pos is a term"""
    avail = mem.ln - pos
    op, ln = u16(e, mem, pos), u16(e, mem, pos + 2)

    def at(i):
        return z3.If(i < ln, u8(e, mem, pos + 4 + i), 0)

    def w(i):
        return at(i) + 256 * at(i + 1)
    known = z3.Or(op == 0x809, op == 0x409, op == 0x209, op == 9)
    framed = z3.And(avail >= 4, known, ln >= 4, ln <= 20, avail >= 4 + ln)
    vers, kind = u16(e, mem, pos + 4), u16(e, mem, pos + 6)
    build, year = w(4), w(6)
    v8 = z3.If(vers == 0x600, 80,
               z3.If(vers == 0x500, z3.If(z3.Or(year < 1994, build == 2412, build == 3218, build == 3321), 50, 70),
                     z3.If(z3.Or(vers == 0, vers == 7, vers == 0x200), 21, z3.If(vers == 0x300, 30, z3.If(vers == 0x400, 40, 0)))))
    v = z3.If(op == 0x809, v8, z3.If(op == 0x409, 40, z3.If(op == 0x209, 30, 21)))
    v = z3.If(z3.And(v == 40, kind == 0x100), 45, v)
    ok = z3.Or(z3.And(rqd == 5, z3.Or(kind == 5, z3.And(v == 45, kind == 0x100))), kind == rqd, z3.And(v < 50, kind == 0x10))
    return z3.And(framed, ok), v, pos + 4 + ln


def u_getbof(e):
    it = Interp(e)
    mem = e.seq('mem', inp=True)
    pos = e.int('pos', lo=0, inp=True)
    rqd = [5, 0x10][e.choose('requested', 2)]
    e.inputs['rqd'] = rqd
    b = book(mem=mem, _position=pos)
    out = it.outcome(BK + 'getbof', b, rqd)
    ok, v, end = bof_spec(e, mem, pos.t, rqd)
    if out[0] == 'ok':
        e.cover('accepted')
        e.prove('accepted only a complete BOF of the right kind', ok)
        e.prove('version', T(out[1]) == v)
        e.prove('positioned after the BOF', T(b.attrs['_position']) == end)
    else:
        e.cover('rejected')
        e.prove('rejected with XLRDError', exc_is(out, 'XLRDError'))
        e.prove('rejected only what is not a complete BOF of the right kind', z3.Not(ok))
    e.expect_covers('accepted', 'rejected')


named(u_getbof, 'Book.getbof')


def opening(e, version, on_demand, fail=None, exc=None):
    """open_workbook_xls with its callees replaced by their contracts"""
    it = Interp(e)
    log = []
    st = {}

    def mk(nm, ret=None, raises=None):
        def f(it_, a, k):
            o = a[0]
            st['o'] = o
            log.append((nm, list(a[1:]), dict(k)))
            if fail == nm:
                raise PyExc(ExcVal(exc or XERR, ('broken',)))
            if nm == 'biff2_8_load':
                o.attrs.update(logfile=None, verbosity=0, on_demand=k.get('on_demand'))
            if nm == 'parse_globals':
                o.attrs['_sheet_names'] = PList(['A', 'B'])
                if version == 45:
                    o.attrs['_sheet_list'] = PList([7, 8])
            if nm == 'fake_globals_get_sheet':
                o.attrs['_sheet_names'] = PList(['Sheet 1'])
                o.attrs['_sheet_list'] = PList([7])
            if nm == 'get_sheets':
                st['list'] = o.attrs['_sheet_list']
            return version if nm == 'getbof' else None
        return f
    for nm in ('biff2_8_load', 'getbof', 'parse_globals', 'fake_globals_get_sheet', 'get_sheets', 'release_resources'):
        it.contracts[it.resolve(BK + nm)] = mk(nm)
    it.contracts[xlrd.book.perf_counter] = lambda it_, a, k: 0.0
    out = it.outcome('xlrd.book.open_workbook_xls', filename='f', on_demand=on_demand, verbosity=0, logfile=None)
    return out, log, st


def u_versions(e):
    """only supported versions are read"""
    vs = [0, 20, 21, 30, 40, 45, 50, 70, 80]
    v = vs[e.choose('version', len(vs))]
    out, log, st = opening(e, v, False)
    calls = [n for n, a, k in log]
    e.prove('globals BOF requested', [a for n, a, k in log if n == 'getbof'] == [[5]])
    if v == 0:
        e.cover('unsupported')
        e.prove('unknown version rejected', exc_is(out, 'XLRDError'))
        e.prove('nothing read', calls == ['biff2_8_load', 'getbof', 'release_resources'])
    else:
        e.cover('supported')
        o = noexc(e, out)
        e.prove('version recorded', o.attrs['biff_version'] == v)
        e.prove('read by the reader of the version',
                calls == ['biff2_8_load', 'getbof'] + (['fake_globals_get_sheet'] if v <= 40 else ['parse_globals'] if v == 45
                                                       else ['parse_globals', 'get_sheets']) + ['release_resources'])
    e.expect_covers('unsupported', 'supported')


named(u_versions, 'open_workbook_xls[versions]')

C13 = [u_getbof, u_versions]


# ------------------------------------------------------------------ C27
SPECIAL = {1200: 'utf_16_le', 10000: 'mac_roman', 10006: 'mac_greek', 10007: 'mac_cyrillic', 10029: 'mac_latin2', 10079: 'mac_iceland',
           10081: 'mac_turkish', 32768: 'mac_roman', 32769: 'cp1252'}


def u_derive(e):
    it = Interp(e)
    bvs = [80, 70, 50, 45, 40, 30, 21]
    bv = bvs[e.choose('version', len(bvs))]
    mode = ['override', 'none', 'codepage'][e.choose('source', 3)]
    e.inputs.update(bv=bv, mode=mode)
    raw = e.choose('user name pending')
    enc0 = e.str('previous encoding')
    ov = e.str('override') if mode == 'override' else [None, ''][e.choose('override')]
    if mode == 'override':
        e.assume(text(it, ov) != strlit(''))
    cp = None
    if mode == 'codepage' or (mode == 'override' and e.choose('has codepage')):
        cp = e.int('codepage', lo=0, hi=65535, inp=True)
    name = e.seq('user name', maxlen=256, inp=False)
    e.assume(name.ln >= 1 + u8(e, name, 0))
    b = book(encoding=enc0, encoding_override=ov, codepage=cp, biff_version=bv, raw_user_name=bool(raw), user_name=name)
    st = {'tried': [], 'fails': False}

    def uni(it_, a, k):
        if isinstance(a[0], bytes):
            st['tried'].append(a[1])
            if e.choose('codec unknown'):
                st['fails'] = True
                raise PyExc(ExcVal(LookupError, ('unknown encoding',)))
            return 'trial'
        st['decoded'] = (a[0], a[1])
        st['strg'] = e.str('user name text')
        return st['strg']
    it.contracts[xlrd.timemachine.unicode] = uni
    out = it.outcome(BK + 'derive_encoding', b)
    # ---- spec
    if mode == 'override':
        want = text(it, ov)
        cp_after = cp.t if cp is not None else None
    elif mode == 'none':
        want = strlit('iso-8859-1') if bv < 80 else text(it, enc0)
        cp_after = None if bv < 80 else z3.IntVal(1200)
    else:
        want = None
        for c, n in SPECIAL.items():
            if e.branch(cp.t == c):
                want = strlit(n)
                break
        cp_after = cp.t
        if want is None:
            if e.branch(z3.And(cp.t >= 300, cp.t <= 1999)):
                want = text(it, it.concat('cp', SStr(s_of_int(cp.t))))
            elif bv >= 80:
                want, cp_after = strlit('utf_16_le'), z3.IntVal(1200)
            else:
                want = text(it, it.concat('unknown_codepage_', SStr(s_of_int(cp.t))))
    checked = e.branch(cp_after != 1200) if cp_after is not None else True
    e.prove('codec checked unless UTF-16', len(st['tried']) == (1 if checked else 0))
    if checked:
        e.prove('the codec checked is the one used', text(it, st['tried'][0]) == want)
    if st['fails']:
        e.cover('unknown codec')
        e.prove('an unknown codec is reported', exc_is(out, 'LookupError'))
    else:
        e.cover('ok')
        r = noexc(e, out)
        e.prove('encoding set', text(it, b.attrs['encoding']) == want)
        e.prove('encoding returned', text(it, r) == want)
        got = b.attrs['codepage']
        e.prove('code page', (got is None) if cp_after is None else (got is not None and T(got) == cp_after))
        if raw:
            e.cover('user name')
            src, en = st['decoded']
            e.prove('user name decoded with it', text(it, en) == want)
            same_seq(e, 'user name', src, name, 1, u8(e, name, 0))
            from pyvc import models
            e.prove('user name', text(it, b.attrs['user_name']) == text(it, models.call_builtin_method(it, st['strg'], 'rstrip', [], {})))
            e.prove('user name pending no more', b.attrs['raw_user_name'] in (False, 0))
    e.expect_covers('ok', 'unknown codec', 'user name')


named(u_derive, 'derive_encoding')


def u_codepage(e):
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 2)
    b = book(codepage=[None, 1252][e.choose('previous')])
    seen = []
    it.contracts[it.resolve(BK + 'derive_encoding')] = lambda it_, a, k: seen.append(b.attrs['codepage'])
    noexc(e, it.outcome(BK + 'handle_codepage', b, d))
    e.prove('code page', T(b.attrs['codepage']) == u16(e, d, 0))
    e.prove('encoding derived from the new code page', len(seen) == 1 and seen[0] is b.attrs['codepage'])
    e.cover('ok')
    e.expect_covers('ok')


named(u_codepage, 'handle_codepage')

C27 = [u_derive, u_codepage]


# ------------------------------------------------------------------ C33
def u_boundsheet(bv):
    def unit(e):
        from .basics import ustr_layout, cases8
        it = Interp(e)
        d = e.seq('record', inp=True)
        base = e.int('base', lo=0, inp=True)
        # an arbitrary number of sheets known so far
        n0 = e.int('sheets so far', lo=0)
        a0 = e.int('all sheets so far', lo=0)
        names = SymList('str', [z3.Array(e.name('names'), IntS, Str)], n0.t, name='names')
        posns = SymList('int', [z3.Array(e.name('posns'), IntS, IntS)], n0.t, name='posns')
        vis = SymList('int', [z3.Array(e.name('vis'), IntS, IntS)], n0.t, name='vis')
        amap = SymList('int', [z3.Array(e.name('amap'), IntS, IntS)], a0.t, name='amap')
        num = PDict()
        enc = e.str('encoding')
        b = book(biff_version=bv, base=base, encoding=enc, _all_sheets_count=a0, _all_sheets_map=amap, _sheet_names=names,
                 _sh_abs_posn=posns, _sheet_visibility=vis, _sheet_num_from_name=num, verbosity=0)
        der = []
        it.contracts[it.resolve(BK + 'derive_encoding')] = lambda it_, a, k: der.append(1)
        if bv == 45:
            e.assume(d.ln >= 1 + u8(e, d, 0))
            b.attrs['_sheetsoffset'] = so = e.int('sheetsoffset')
            txt = dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + 1), z3.simplify(u8(e, d, 0)))
            typ, v = z3.IntVal(0), z3.IntVal(0)
            pos = z3.If(n0.t == 0, so.t + base.t, -1)
        else:
            e.assume(d.ln >= 7)
            n = u8(e, d, 6)
            typ, v, pos = u8(e, d, 5), u8(e, d, 4), i32(e, d, 0) + base.t
            if bv >= 80:
                txt, end, info = ustr_layout(e, d, z3.IntVal(6), n, z3.IntVal(7))
                e.assume(z3.Or(n == 0, info['body'] + info['nbytes'] <= d.ln))
                txt = z3.If(n == 0, strlit(''), txt)
            else:
                e.assume(d.ln >= 7 + n)
                txt = dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + 7), z3.simplify(n))
        old = [names.arrays[0], posns.arrays[0], vis.arrays[0], amap.arrays[0]]
        noexc(e, it.outcome(BK + 'handle_boundsheet', b, d))
        e.prove('encoding derived first', der == [1])
        cnt = T(b.attrs['_all_sheets_count'])
        e.prove('counted', cnt == a0.t + 1)
        e.prove('all-sheets map grows by one', T(amap.ln) == a0.t + 1)
        j = e.int('j', lo=0)
        if e.branch(typ == 0):
            e.cover('worksheet')
            for nm, L in (('names', names), ('positions', posns), ('visibilities', vis)):
                e.prove('one more of the ' + nm, T(L.ln) == n0.t + 1)
            got = z3.Select(names.arrays[0], n0.t)
            if bv >= 80:
                e.prove_cases('name', got == txt, [n == 0] + cases8(info))
            else:
                e.prove('name', got == txt)
            e.prove('position', z3.Select(posns.arrays[0], n0.t) == pos)
            e.prove('visibility', z3.Select(vis.arrays[0], n0.t) == v)
            e.prove('maps to the new worksheet', z3.Select(amap.arrays[0], a0.t) == n0.t)
            e.prove('name maps to the new worksheet', len(num.log) + len(num.d) == 1)
        else:
            e.cover('other sheet')
            for nm, L in (('names', names), ('positions', posns), ('visibilities', vis)):
                e.prove('no more of the ' + nm, T(L.ln) == n0.t)
            e.prove('maps to no worksheet', z3.Select(amap.arrays[0], a0.t) == -1)
            e.prove('no name', len(num.log) + len(num.d) == 0)
        for nm, L, o, n_ in (('names', names, old[0], n0), ('positions', posns, old[1], n0), ('visibilities', vis, old[2], n0), ('map', amap, old[3], a0)):
            e.prove('earlier %s kept' % nm, z3.Implies(j.t < n_.t, z3.Select(L.arrays[0], j.t) == z3.Select(o, j.t)))
        e.expect_covers(*(['worksheet'] if bv == 45 else ['worksheet', 'other sheet']))
    return named(unit, 'handle_boundsheet[BIFF%d]' % bv)


def u_get_sheet(e):
    """sheet k is read from the position stated for it, under its own name, into slot k"""
    it = Interp(e)
    n = e.int('nsheets', lo=0)
    k = e.int('k', lo=0, inp=True)
    e.assume(k.t < n.t)
    names = SymList('str', [z3.Array(e.name('names'), IntS, Str)], n.t, name='names')
    posns = SymList('int', [z3.Array(e.name('posns'), IntS, IntS)], n.t, name='posns')
    lst = SymList('val', [z3.Array(e.name('sheets'), IntS, Val)], n.t, name='sheets') if False else None
    upd = e.choose('update_pos')
    here = e.int('position', lo=0)
    log = []
    b = book(_resources_released=0, _sh_abs_posn=posns, _sheet_names=names, _position=here)
    store = PDict()
    b.attrs['_sheet_list'] = store

    def getbof(it_, a, kw):
        log.append(('getbof', a[1], b.attrs['_position']))
        b.attrs['_position'] = mkint(T(b.attrs['_position']) + 20)
        return 80
    it.contracts[it.resolve(BK + 'getbof')] = getbof

    def mk(it_, a, kw):
        log.append(('Sheet', list(a), kw, b.attrs['_position']))
        o = PObj(xlrd.sheet.Sheet, {}, name='new sheet')
        log.append(o)
        return o
    it.contracts[xlrd.sheet.Sheet] = mk
    it.contracts[it.resolve('xlrd.sheet.Sheet.read')] = lambda it_, a, kw: log.append(('read', a[0], a[1]))
    args = [] if upd else [False]
    r = noexc(e, it.outcome(BK + 'get_sheet', b, k, *args))
    e.prove('steps', len(log) == 4 and log[0][0] == 'getbof' and log[1][0] == 'Sheet' and log[3][0] == 'read')
    e.prove('worksheet BOF expected', cint(log[0][1]) == 0x10)
    e.prove('at the position of the sheet', T(log[0][2]) == (z3.Select(posns.arrays[0], k.t) if upd else here.t))
    a = log[1][1]
    e.prove('sheet of this book', a[0] is b and len(a) == 4)
    e.prove('sheet starts after its BOF', T(a[1]) == T(log[0][2]) + 20)
    e.prove('sheet name', text(it, a[2]) == z3.Select(names.arrays[0], k.t))
    e.prove('sheet number', T(a[3]) == k.t)
    e.prove('read with this book', log[3][1] is log[2] and log[3][2] is b)
    ok = [(kk, v) for kk, v in list(store.d.items() if isinstance(store.d, dict) else store.d) + list(store.log)]
    e.prove('stored in its slot', len(ok) == 1 and ok[0][1] is log[2])
    e.prove('stored in its slot/index', T(ok[0][0]) == k.t)
    e.prove('returned', r is log[2])
    e.cover('ok')
    e.expect_covers('ok')


named(u_get_sheet, 'get_sheet')


def u_get_sheet_released(e):
    it = Interp(e)
    b = book(_resources_released=1, _position=0)
    out = it.outcome(BK + 'get_sheet', b, e.int('k', lo=0))
    e.prove('refused', exc_is(out, 'XLRDError'))
    e.cover('refused')
    e.expect_covers('refused')


named(u_get_sheet_released, 'get_sheet[released]')


def u_get_sheets(e):
    """every sheet is loaded once, in order"""
    it = Interp(e)
    n = e.int('nsheets', lo=0)
    names = SymList('str', [z3.Array(e.name('names'), IntS, Str)], n.t, name='names')
    b = book(_sheet_names=names, _sh_abs_posn=PList([]))
    calls = []
    it.contracts[it.resolve(BK + 'get_sheet')] = lambda it_, a, k: calls.append(a[1] if len(a) > 1 else k['sh_number'])

    def end(L):
        e.prove('sheet loaded once', len(calls) == 1)
        e.prove('sheet number', T(calls[0]) == T(st[0]))
        e.cover('sheet')
    sp = LoopSpec('sheets', kind='for', modifies=lambda L: [(b, '*', 'keep')], match=lambda it_, node, fr: fr.qual.endswith('get_sheets'))
    st = []

    def begin(L):
        calls.clear()
        st[:] = [L.i]
    sp.body_hook = begin
    sp.end_hook = end
    sp.exit_hook = lambda L: e.prove('all sheets', T(L.n) == n.t)
    it.loop_specs.append(sp)
    noexc(e, it.outcome(BK + 'get_sheets', b))
    e.cover('done')
    e.expect_covers('sheet', 'done')


named(u_get_sheets, 'get_sheets')


def u_fake(e):
    """BIFF2-4: the whole stream is one visible worksheet"""
    it = Interp(e)
    b = book(_sheet_list=PList([]), _sheet_names=PList([]))
    log = []
    it.contracts[it.resolve('xlrd.formatting.initialise_book')] = lambda it_, a, k: log.append('init')
    it.contracts[it.resolve(BK + 'get_sheets')] = lambda it_, a, k: log.append(
        ([x for x in b.attrs['_sheet_names'].items], [x for x in b.attrs['_sh_abs_posn'].items],
         [x for x in b.attrs['_sheet_visibility'].items], len(b.attrs['_sheet_list'].items)))
    noexc(e, it.outcome(BK + 'fake_globals_get_sheet', b))
    e.prove('one visible sheet at the start of the stream', log == ['init', (['Sheet 1'], [0], [0], 1)])
    e.cover('ok')
    e.expect_covers('ok')


named(u_fake, 'fake_globals_get_sheet')


def u_sheethdr(e):
    """BIFF4W: the embedded sheets are read one after the other"""
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 5 + u8(e, d, 4))
    enc = e.str('encoding')
    nth = e.int('sheets read', lo=0)
    n = e.int('nsheets', lo=0)
    e.assume(nth.t < n.t)
    names = SymList('str', [z3.Array(e.name('names'), IntS, Str)], n.t, name='names')
    txt = dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + 5), z3.simplify(u8(e, d, 4)))
    e.assume(z3.Select(names.arrays[0], nth.t) == txt)
    here = e.int('position', lo=0)
    slots = SymList('int', [z3.Array(e.name('slots'), IntS, IntS)], nth.t, name='slots')
    b = book(biff_version=45, encoding=enc, _sheethdr_count=nth, _sheet_names=names, _position=here, _sheet_list=PList([]), _xf_epilogue_done=1)
    log = []
    it.contracts[it.resolve(BK + 'derive_encoding')] = lambda it_, a, k: log.append('enc')
    it.contracts[it.resolve(BK + 'initialise_format_info')] = lambda it_, a, k: log.append('formats')

    def gs(it_, a, k):
        log.append(('sheet', a[1], k.get('update_pos', a[2] if len(a) > 2 else True), b.attrs['_position'], len(b.attrs['_sheet_list'].items)))
        b.attrs['_position'] = e.int('after sheet')
    it.contracts[it.resolve(BK + 'get_sheet')] = gs
    noexc(e, it.outcome(BK + 'handle_sheethdr', b, d))
    e.prove('steps', log[:2] == ['enc', 'formats'] and len(log) == 3)
    e.prove('sheet number', T(log[2][1]) == nth.t)
    e.prove('read where it is', log[2][2] is False and T(log[2][3]) is not None)
    e.prove('read where it is/position', T(log[2][3]) == here.t)
    e.prove('a slot for the sheet', log[2][4] == 1)
    e.prove('counted', T(b.attrs['_sheethdr_count']) == nth.t + 1)
    e.prove('continues after the embedded sheet', T(b.attrs['_position']) == here.t + i32(e, d, 0))
    e.cover('ok')
    e.expect_covers('ok')


named(u_sheethdr, 'handle_sheethdr')


def u_sheetsoffset(e):
    it = Interp(e)
    d = e.seq('record', ln=4)
    b = book()
    noexc(e, it.outcome(BK + 'handle_sheetsoffset', b, d))
    e.prove('offset', T(b.attrs['_sheetsoffset']) == i32(e, d, 0))
    e.cover('ok')
    e.expect_covers('ok')


named(u_sheetsoffset, 'handle_sheetsoffset')

C33 = [u_boundsheet(80), u_boundsheet(70), u_boundsheet(50), u_boundsheet(45), u_get_sheet, u_get_sheet_released, u_get_sheets, u_fake, u_sheethdr, u_sheetsoffset]


# ------------------------------------------------------------------ C37
def u_filepass(e):
    it = Interp(e)
    bvs = [80, 70, 50, 45, 40, 30, 21]
    bv = bvs[e.choose('version', len(bvs))]
    d = e.seq('record', inp=True)
    e.inputs['bv'] = bv
    verb = e.int('verbosity', inp=True)
    b = book(biff_version=bv, verbosity=verb)
    it.contracts[it.resolve('xlrd.biffh.hex_char_dump')] = lambda it_, a, k: None
    if bv >= 80:
        kind = u16(e, d, 0)
        e.assume(z3.And(d.ln >= 2, z3.Implies(kind == 0, d.ln == 6), z3.Implies(kind == 1, d.ln >= 6)))
    out = it.outcome(BK + 'handle_filepass', b, d)
    e.prove('always refused', exc_is(out, 'XLRDError'))
    e.prove('with the documented message', out[0] == 'exc' and out[1].args == ('Workbook is encrypted',))
    e.cover('refused')
    e.expect_covers('refused')


named(u_filepass, 'handle_filepass')


def u_globals_filepass(e):
    d = e.seq('record', inp=True)
    bv = [80, 70, 45][e.choose('version', 3)]
    g = Globals(e, bv, (0x2F, d))
    g.post = lambda L: e.unreachable('reading goes on after FILEPASS')
    out = g.it.outcome(BK + 'parse_globals', g.o)
    e.prove('the refusal ends the reading', exc_is(out, 'XLRDError'))
    e.prove('only the encryption handler ran', [n for n, a in g.calls] == ['handle_filepass'] and g.calls[0][1][0] is d)
    e.cover('refused')
    e.expect_covers('refused')


named(u_globals_filepass, 'parse_globals[FILEPASS]')


def u_open_refused(e):
    """an error raised while reading reaches the caller and releases the resources"""
    steps = ['biff2_8_load', 'getbof', 'parse_globals', 'fake_globals_get_sheet', 'get_sheets']
    k = steps[e.choose('failing step', len(steps))]
    v = 40 if k == 'fake_globals_get_sheet' else [80, 70][e.choose('version')]
    od = bool(e.choose('on_demand')) if k != 'get_sheets' else False
    out, log, st = opening(e, v, od, fail=k)
    e.prove('the error reaches the caller', exc_is(out, 'XLRDError') and out[1].args == ('broken',))
    e.prove('resources released once, at the end', [n for n, a, kk in log].count('release_resources') == 1 and log[-1][0] == 'release_resources')
    e.cover('refused')
    e.expect_covers('refused')


named(u_open_refused, 'open_workbook_xls[errors]')


def u_sheet_filepass(e):
    """BIFF2-4: FILEPASS in the sheet stream"""
    from .reading import Env
    bvs = [45, 40, 30, 21]
    bv = bvs[e.choose('version', len(bvs))]
    d = e.seq('record', inp=True)
    env = Env(e, bv, 0, [(0x2F, d)])

    def refuse(it_, a, k):
        env.calls.append(('handle_filepass', a[1:]))
        raise PyExc(ExcVal(XERR, ('Workbook is encrypted',)))
    env.it.contracts[env.it.resolve(BK + 'handle_filepass')] = refuse
    env.post = lambda env_: e.unreachable('reading goes on after FILEPASS')
    out = env.it.outcome('xlrd.sheet.Sheet.read', env.o, env.book)
    e.prove('the refusal ends the reading', exc_is(out, 'XLRDError'))
    e.prove('nothing stored', not env.puts and len(env.calls) == 1)
    e.cover('refused')
    e.expect_covers('refused')


named(u_sheet_filepass, 'Sheet.read[FILEPASS]')

C37 = [u_filepass, u_globals_filepass, u_open_refused, u_sheet_filepass]
