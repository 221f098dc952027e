"""Contracts on external sheet references (C16), the Name convenience methods (C22) and the defined names (C34)."""
from .common import *
from .walk import noexc, book, BK
import xlrd.book
import xlrd.biffh
import xlrd.formula
import xlrd.sheet
import z3
import struct
from pyvc.values import SpecFn

FM = 'xlrd.formula.'
Or, And, If, Not, Implies = z3.Or, z3.And, z3.If, z3.Not, z3.Implies


def trace(e):
    """whether the verbose branches are taken makes no difference"""
    return e.choose('verbosity', 3)


# ------------------------------------------------------------------ C16
def u_range8(e):
    it = Interp(e)
    n = e.int('entries', lo=0)
    A = [z3.Array(e.name(x), IntS, IntS) for x in ('record', 'first', 'last')]
    info = SymList(('tuple', 'int', 'int', 'int'), A, n.t, name='externsheet')
    m = e.int('nsheets', lo=0)
    amap = SymList('int', [z3.Array(e.name('map'), IntS, IntS)], m.t, name='all sheets')
    refx = e.int('refx', lo=0, hi=65535)
    loc = e.int('own book', lo=0) if e.choose('own book') else None
    add = e.int('addin book', lo=0) if e.choose('addin book') else None
    if loc is not None and add is not None:
        e.assume(loc.t != add.t)
    b = book(_externsheet_info=info, _supbook_locals_inx=loc, _supbook_addins_inx=add, _all_sheets_map=amap, logfile=None)
    r, lo, hi = [z3.Select(a, refx.t) for a in A]
    e.assume(Implies(refx.t < n.t, And(*[And(t >= 0, t <= 65535) for t in (r, lo, hi)])))
    M = amap.arrays[0]
    for t in (lo, hi):
        e.assume(Implies(And(t >= 0, t < m.t), z3.Select(M, t) >= -1))
    # add-in references have no sheets
    if add is not None:
        e.assume(Implies(And(refx.t < n.t, r == add.t), And(lo == 0xFFFE, hi == 0xFFFE)))
    out = noexc(e, it.outcome(FM + 'get_externsheet_local_range', b, refx, e.choose('blah')))
    e.prove('a pair', isinstance(out, tuple) and len(out) == 2)
    a, z = T(out[0]), T(out[1])
    isadd = r == add.t if add is not None else z3.BoolVal(False)
    isloc = r == loc.t if loc is not None else z3.BoolVal(False)

    def both(v):
        return And(a == v, z == v)
    s1, s2 = z3.Select(M, lo), z3.Select(M, hi)
    cases = [
        ('no such entry', refx.t >= n.t, And(a <= -100, z <= -100)),
        ('add-in functions', And(refx.t < n.t, isadd), both(-5)),
        ('another workbook', And(refx.t < n.t, Not(isadd), Not(isloc)), both(-4)),
    ]
    here = And(refx.t < n.t, Not(isadd), isloc)
    cases += [
        ('any sheet', And(here, lo == 0xFFFE, hi == 0xFFFE), both(-1)),
        ('deleted sheets', And(here, lo == 0xFFFF, hi == 0xFFFF), both(-2)),
    ]
    other = And(here, Not(And(lo == 0xFFFE, hi == 0xFFFE)), Not(And(lo == 0xFFFF, hi == 0xFFFF)))
    inr = And(lo <= hi, hi < m.t)
    cases += [
        ('sheets that do not exist', And(other, Not(inr)), And(a <= -100, z <= -100)),
        ('worksheets', And(other, inr, s1 >= 0, s1 <= s2), And(a == s1, z == s2)),
        ('macro sheets', And(other, inr, Not(And(s1 >= 0, s1 <= s2))), both(-3)),
    ]
    for nm, c, then in cases:
        e.prove(nm, Implies(c, then))


named(u_range8, 'get_externsheet_local_range')


def u_range7(e):
    it = Interp(e)
    m = e.int('nsheets', lo=0)
    amap = SymList('int', [z3.Array(e.name('map'), IntS, IntS)], m.t, name='all sheets')
    raw, lo, hi = [e.int(x, lo=-32768, hi=32767) for x in ('raw', 'first', 'last')]
    b = book(_all_sheets_map=amap, logfile=None)
    M = amap.arrays[0]
    for t in (lo.t, hi.t):
        e.assume(Implies(And(t >= 0, t < m.t), z3.Select(M, t) >= -1))
    out = noexc(e, it.outcome(FM + 'get_externsheet_local_range_b57', b, raw, lo, hi, e.choose('blah')))
    e.prove('a pair', isinstance(out, tuple) and len(out) == 2)
    a, z = T(out[0]), T(out[1])

    def both(v):
        return And(a == v, z == v)
    s1, s2 = z3.Select(M, lo.t), z3.Select(M, hi.t)
    own = raw.t <= 0
    gone = And(lo.t == -1, hi.t == -1)
    inr = And(0 <= lo.t, lo.t <= hi.t, hi.t < m.t)
    e.prove('another workbook', Implies(raw.t > 0, both(-4)))
    e.prove('deleted sheets', Implies(And(own, gone), both(-2)))
    e.prove('sheets that do not exist', Implies(And(own, Not(gone), Not(inr)), And(a <= -100, z <= -100)))
    e.prove('worksheets', Implies(And(own, inr, s1 >= 0, s1 <= s2), And(a == s1, z == s2)))
    e.prove('macro sheets', Implies(And(own, inr, Not(And(s1 >= 0, s1 <= s2))), both(-3)))


named(u_range7, 'get_externsheet_local_range_b57')


def u_externsheet8(e):
    """handle_externsheet, BIFF8: entry k is the k-th triple of the record and its CONTINUE records"""
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 2)
    n0 = e.int('entries so far', lo=0)
    A = [z3.Array(e.name(x), IntS, IntS) for x in ('record', 'first', 'last')]
    info = SymList(('tuple', 'int', 'int', 'int'), list(A), n0.t, name='externsheet')
    cnt = e.int('count', lo=0)
    v = trace(e)
    b = book(biff_version=80, _externsheet_info=info, _extnsht_count=cnt, verbosity=v, logfile=None)
    der = []
    it.contracts[it.resolve(BK + 'derive_encoding')] = lambda it_, a, k: der.append(1)
    num = u16(e, d, 0)
    # G: the content of the record followed by that of its CONTINUE records
    G = z3.Array(e.name('content'), IntS, IntS)
    k0, j0 = e.int('k0', lo=0), e.int('j0', lo=0)
    P = [z3.IntVal(0), z3.IntVal(1)] + [2 + 6 * k0.t + i for i in range(6)]
    for p in P:
        e.assume(Implies(p < d.ln, u8(e, d, p) == z3.Select(G, p)))
    st = dict(L=None, other=False)

    def inv1(L):
        x = L['data']
        return [('content so far', And(*[Implies(p < T(x.length), u8(e, x, p) == z3.Select(G, p)) for p in P])),
                ('grows', T(x.length) >= 2),
                ('only CONTINUE records are used', Not(st['other']))]

    def parts(it_, a, k):
        if st['L'] is None:
            e.fail('CONTINUE records are read as long as content is missing', 'get_record_parts() outside the loop')
        x = st['L']['data']
        code, d2 = e.int('code', lo=0, hi=65535), e.seq('data2', inp=False)
        at = T(x.length)
        for p in P:
            e.assume(Implies(And(p >= at, p - at < d2.ln), u8(e, d2, p - at) == z3.Select(G, p)))
        st['other'] = code.t != 0x3C
        return code, mkint(T(d2.ln)), d2
    it.contracts[it.resolve(BK + 'get_record_parts')] = parts

    def hook1(L):
        st['L'] = L
        st['other'] = False
    it.loop_specs.append(LoopSpec('continue', names=('data', 'bytes_reqd'), kind='while', inv=inv1, body_hook=hook1,
                                  kinds={'data': lambda L: e.seq('data so far', inp=False)}))

    def inv2(L):
        return [('one entry each', info.ln == n0.t + L.i), ('position', T(L['pos']) == 2 + 6 * L.i),
                ('earlier entries', And(*[Implies(j0.t < n0.t, z3.Select(x, j0.t) == z3.Select(y, j0.t)) for x, y in zip(info.arrays, A)])),
                ('entry k0', Implies(And(k0.t < L.i), And(*[z3.Select(info.arrays[i], n0.t + k0.t) == z3.Select(G, 2 + 6 * k0.t + 2 * i) +
                                                            256 * z3.Select(G, 2 + 6 * k0.t + 2 * i + 1) for i in range(3)])))]
    it.loop_specs.append(LoopSpec('entries', names=('data', 'num_refs'), kind='for', inv=inv2, modifies=lambda L: [(info, None, None)]))
    out = it.outcome(BK + 'handle_externsheet', b, d)
    e.prove('encoding derived', der == [1])
    if out[0] == 'exc':
        e.cover('missing CONTINUE')
        e.prove('only a missing CONTINUE record raises XLRDError', And(exc_is(out, 'XLRDError'), st['other']))
        return
    e.cover('read')
    e.prove('number of entries', info.ln == n0.t + num)
    e.prove('entry', Implies(k0.t < num, And(*[z3.Select(info.arrays[i], n0.t + k0.t) == z3.Select(G, 2 + 6 * k0.t + 2 * i) +
                                                 256 * z3.Select(G, 2 + 6 * k0.t + 2 * i + 1) for i in range(3)])))
    e.prove('earlier entries', And(*[Implies(j0.t < n0.t, z3.Select(x, j0.t) == z3.Select(y, j0.t)) for x, y in zip(info.arrays, A)]))
    e.prove('counted', T(b.attrs['_extnsht_count']) == cnt.t + 1)
    e.expect_covers('missing CONTINUE', 'read', 'continue/iter', 'entries/iter')


named(u_externsheet8, 'handle_externsheet[BIFF8]')


def u_externsheet7(bv):
    def unit(e):
        it = Interp(e)
        d = e.seq('record', inp=True)
        e.assume(d.ln >= 2)
        nc, ty = u8(e, d, 0), u8(e, d, 1)
        cnt = e.int('count', lo=0)
        n0 = e.int('types so far', lo=0)
        types = SymList('int', [z3.Array(e.name('types'), IntS, IntS)], n0.t, name='types')
        t0 = types.arrays[0]
        names = PDict()
        enc = e.str('encoding')
        b = book(biff_version=bv, _extnsht_count=cnt, _externsheet_type_b57=types, _extnsht_name_from_num=names, encoding=enc, verbosity=0, logfile=None)
        der = []
        it.contracts[it.resolve(BK + 'derive_encoding')] = lambda it_, a, k: der.append(1)
        e.assume(Implies(ty == 3, d.ln >= 2 + nc))
        noexc(e, it.outcome(BK + 'handle_externsheet', b, d))
        e.prove('encoding derived', der == [1])
        e.prove('counted', T(b.attrs['_extnsht_count']) == cnt.t + 1)
        e.prove('one type', types.ln == n0.t + 1)
        e.prove('type', z3.Select(types.arrays[0], n0.t) == If(And(ty >= 1, ty <= 4), ty, 0))
        j = e.int('j', lo=0)
        e.prove('earlier types', Implies(j.t < n0.t, z3.Select(types.arrays[0], j.t) == z3.Select(t0, j.t)))
        w = list(names.d.items()) + list(names.log)
        if e.branch(ty == 3):
            e.cover('own sheet')
            e.prove('one name', len(w) == 1)
            e.prove('under its number', T(w[0][0]) == cnt.t + 1)
            e.prove('name', text(it, w[0][1]) == dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + 2), z3.simplify(nc)))
        else:
            e.cover('other')
            e.prove('no name', not w)
        e.expect_covers('own sheet', 'other')
    return named(unit, 'handle_externsheet[BIFF%d]' % bv)


def u_supbook(e):
    """handle_supbook: which entry of the list is this workbook, which the add-in functions"""
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 4)
    n0 = e.int('entries so far', lo=0)
    types = SymList('int', [z3.Array(e.name('types'), IntS, IntS)], n0.t, name='types')
    t0 = types.arrays[0]
    # None entries: the list is of arbitrary values
    types.etype = 'pv'
    types.arrays = [z3.Array(e.name('types'), IntS, PV)]
    t0 = types.arrays[0]
    loc, add = e.int('own', lo=0), e.int('addins', lo=0)
    b = book(biff_version=80, _supbook_types=types, _supbook_count=n0, _supbook_locals_inx=loc, _supbook_addins_inx=add, _all_sheets_map=PList([]),
             verbosity=trace(e), logfile=None)
    st = dict(broken=False, n=0)

    def ustr(it_, a, k):
        st['n'] += 1
        if st['n'] > 1 and e.choose('broken'):
            it_.throw(struct.error, 'short')
        return e.str('name'), e.int('newpos', lo=0)
    it.contracts[it.resolve('xlrd.biffh.unpack_unicode_update_pos')] = ustr
    it.contracts[it.resolve('xlrd.biffh.hex_char_dump')] = lambda it_, a, k: None
    it.loop_specs.append(LoopSpec('sheet names', names=('url', 'sheet_names'), kind='for', inv=lambda L: [],
                                  kinds={'sheet_names': lambda L: SymList('str', [z3.Array(e.name('sn'), IntS, Str)], e.int('nsn', lo=0).t, name='sn')}))
    noexc(e, it.outcome(BK + 'handle_supbook', b, d))
    e.prove('one more entry', types.ln == n0.t + 1)
    e.prove('counted', T(b.attrs['_supbook_count']) == n0.t + 1)
    B = [u8(e, d, i) for i in range(4)]
    own = And(B[2] == 1, B[3] == 4)
    addin = And(Not(own), B[0] == 1, B[1] == 0, B[2] == 1, B[3] == 0x3A)
    num = B[0] + 256 * B[1]
    got = z3.Select(types.arrays[0], n0.t)
    import xlrd.book as xb
    for nm, c, v in (('this workbook', own, xb.SUPBOOK_INTERNAL), ('add-in functions', addin, xb.SUPBOOK_ADDIN),
                     ('DDE or OLE', And(Not(own), Not(addin), num == 0), xb.SUPBOOK_DDEOLE),
                     ('another workbook', And(Not(own), Not(addin), num != 0), xb.SUPBOOK_EXTERNAL)):
        e.prove('type of ' + nm, Implies(c, got == PV.pvint(v)))
    L, A = b.attrs['_supbook_locals_inx'], b.attrs['_supbook_addins_inx']
    e.prove('own entry', T(L) == If(own, n0.t, loc.t))
    e.prove('add-in entry', T(A) == If(addin, n0.t, add.t))
    j = e.int('j', lo=0)
    e.prove('earlier types', Implies(j.t < n0.t, z3.Select(types.arrays[0], j.t) == z3.Select(t0, j.t)))


named(u_supbook, 'handle_supbook')


def u_externname(e):
    """add-in function names are collected in order"""
    it = Interp(e)
    d = e.seq('record', inp=True)
    e.assume(d.ln >= 6)
    kind = e.int('type of the last SUPBOOK', lo=0, hi=10)
    n0 = e.int('so far', lo=0)
    fn = SymList('str', [z3.Array(e.name('fn'), IntS, Str)], n0.t, name='fn')
    f0 = fn.arrays[0]
    b = book(biff_version=80, _supbook_types=PList([kind]), addin_func_names=fn, verbosity=0, logfile=None)
    nm = e.str('name')
    args = []

    def ustr(it_, a, k):
        args.append((list(a), dict(k)))
        return nm, e.int('newpos', lo=6)
    it.contracts[it.resolve('xlrd.biffh.unpack_unicode_update_pos')] = ustr
    noexc(e, it.outcome(BK + 'handle_externname', b, d))
    dd = dict(zip(('data', 'pos', 'lenlen', 'known_len'), args[0][0]))
    dd.update(args[0][1])
    e.prove('name read', len(args) == 1 and dd.get('data') is d and dd.get('pos') == 6 and dd.get('lenlen') == 1)
    import xlrd.book as xb
    j = e.int('j', lo=0)
    e.prove('earlier', Implies(j.t < n0.t, z3.Select(fn.arrays[0], j.t) == z3.Select(f0, j.t)))
    if e.branch(kind.t == xb.SUPBOOK_ADDIN):
        e.prove('one more', And(fn.ln == n0.t + 1, z3.Select(fn.arrays[0], n0.t) == text(it, nm)))
    else:
        e.prove('not an add-in', fn.ln == n0.t)


named(u_externname, 'handle_externname')

C16 = [u_range8, u_range7, u_externsheet8, u_externsheet7(50), u_externsheet7(70), u_supbook, u_externname]


# ------------------------------------------------------------------ C22
def u_name(meth, clipped):
    def unit(e):
        it = Interp(e)
        kind = e.int('kind', lo=-2, hi=5)
        refs = []
        nref = e.choose('value', 4)
        if nref == 0:
            value = None
        elif e.choose('not references'):
            value = [None, SStr(z3.Const(e.name('s'), Str)), e.int('number'), e.flt('number')][nref]
        else:
            for i in range(nref):
                o = PObj(xlrd.formula.Ref3D, {}, name='ref')
                for x in ('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi'):
                    o.attrs[x] = e.int(x, lo=-200 if x[0] == 's' else 0)
                o.attrs['coords'] = tuple(o.attrs[x] for x in ('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi'))
                refs.append(o)
            value = PList(list(refs))
        if not refs:
            # only references are lists, and references are lists or unknown
            e.assume(Or(kind.t >= 0, z3.BoolVal(value is None)))
        else:
            e.assume(kind.t < 0)
        res = PObj(xlrd.formula.Operand, dict(kind=kind, value=value), name='result')
        if value is None and e.choose('no result'):
            res = None
        nr, nc = e.int('nrows', lo=0), e.int('ncols', lo=0)
        sh = PObj(xlrd.sheet.Sheet, dict(nrows=nr, ncols=nc), name='sheet')
        cell = PObj(None, {}, name='cell')
        log = []

        def sbi(it_, a, k):
            log.append(('sheet', T(a[-1])))
            return sh

        def scell(it_, a, k):
            e.prove('of that sheet', a[0] is sh)
            log.append(('cell', T(a[1]), T(a[2])))
            return cell
        it.contracts[it.resolve(BK + 'sheet_by_index')] = sbi
        it.contracts[it.resolve('xlrd.sheet.Sheet.cell')] = scell
        dumps = []
        it.contracts[it.resolve('xlrd.biffh.BaseObject.dump')] = lambda it_, a, k: dumps.append(1)
        b = book(logfile=None)
        n = PObj(xlrd.book.Name, dict(result=res, book=b), name='name')
        out = it.outcome('xlrd.book.Name.' + meth, n, *([clipped] if clipped is not None else []))
        good = z3.BoolVal(False)
        if len(refs) == 1 and res is not None:
            g = {x: refs[0].attrs[x].t for x in refs[0].attrs if x != 'coords'}
            good = And(kind.t == -1, g['shtxlo'] >= 0, g['shtxlo'] == g['shtxhi'] - 1)
            if meth == 'cell':
                good = And(good, g['rowxlo'] == g['rowxhi'] - 1, g['colxlo'] == g['colxhi'] - 1)
        if not e.branch(good):
            e.cover('refused')
            e.prove('anything else raises XLRDError', exc_is(out, 'XLRDError'))
            e.prove('no sheet is touched', not log)
            e.expect_covers('refused', 'found')
            return
        e.cover('found')
        r = noexc(e, out)
        e.prove('the sheet of the reference', log[0][0] == 'sheet' and log[0][1] == g['shtxlo'])
        if meth == 'cell':
            e.prove('the cell of the reference', len(log) == 2 and log[1][0] == 'cell' and r is cell)
            e.prove('row', log[1][1] == g['rowxlo'])
            e.prove('column', log[1][2] == g['colxlo'])
            return
        e.prove('five parts', isinstance(r, tuple) and len(r) == 5 and r[0] is sh)
        got = [T(x) for x in r[1:]]
        for d, n_, a, z in (('row', nr.t, got[0], got[1]), ('col', nc.t, got[2], got[3])):
            lo, hi = g[d + 'xlo'], g[d + 'xhi']
            if clipped is False:
                e.prove(d + ' range', And(a == lo, z == hi))
                continue
            e.prove(d + ' range inside the sheet', And(0 <= a, a <= z, z <= n_))
            j = e.int('j', lo=0)
            e.prove(d + ' range is the part inside the sheet', And(j.t >= a, j.t < z) == And(j.t >= lo, j.t < hi, j.t < n_))
            e.prove(d + ' start', a == If(lo < n_, lo, n_))
    return named(unit, 'Name.%s%s' % (meth, {None: '', True: '[clipped]', False: '[unclipped]'}[clipped]))


C22 = [u_name('cell', None), u_name('area2d', None), u_name('area2d', True), u_name('area2d', False)]


# ------------------------------------------------------------------ C34
BUILTIN = {'\x00': 'Consolidate_Area', '\x01': 'Auto_Open', '\x02': 'Auto_Close', '\x03': 'Extract', '\x04': 'Database', '\x05': 'Criteria',
           '\x06': 'Print_Area', '\x07': 'Print_Titles', '\x08': 'Recorder', '\x09': 'Data_Form', '\x0a': 'Auto_Activate',
           '\x0b': 'Auto_Deactivate', '\x0c': 'Sheet_Title', '\x0d': '_FilterDatabase'}


def u_name_record(bv):
    def unit(e):
        it = Interp(e)
        d = e.seq('record', inp=True)
        e.assume(d.ln >= 14)
        opts = u16(e, d, 0)
        n0 = e.int('names so far', lo=0)
        added = []
        lst = PObj(None, {}, name='name_obj_list')
        lst.attrs['__len__'] = SpecFn(lambda *_: mkint(n0.t + len(added)))
        lst.attrs['append'] = SpecFn(lambda it_, a, k: added.append(a[0]))
        enc = e.str('encoding')
        b = book(biff_version=bv, name_obj_list=lst, verbosity=trace(e) if bv == 80 else 0, logfile=None)
        der = []

        def derive(it_, a, k):
            der.append(1)
            b.attrs['encoding'] = enc
        it.contracts[it.resolve(BK + 'derive_encoding')] = derive
        it.contracts[it.resolve('xlrd.biffh.BaseObject.dump')] = lambda it_, a, k: None
        codes = sorted(BUILTIN) + ['\x0e']
        pick = e.choose('name', 2)
        if pick:
            nm = codes[e.choose('code', len(codes))]
        else:
            nm = e.str('name')
            for c in codes:
                e.assume(text(it, nm) != strlit(c))
        end = e.int('end of the name', lo=14)
        e.assume(end.t <= d.ln)
        calls = []

        def ustr(it_, a, k):
            q = dict(zip(('data', 'pos', 'lenlen', 'known_len'), a))
            q.update(k)
            calls.append(q)
            return nm, end

        def bstr(it_, a, k):
            q = dict(zip(('data', 'pos', 'encoding', 'lenlen', 'known_len'), a))
            q.update(k)
            calls.append(q)
            e.prove('encoding', q.get('encoding') is enc)
            return nm, end
        if bv >= 80:
            it.contracts[it.resolve('xlrd.biffh.unpack_unicode_update_pos')] = ustr
        else:
            it.contracts[it.resolve('xlrd.biffh.unpack_string_update_pos')] = bstr
        noexc(e, it.outcome(BK + 'handle_name', b, d))
        if bv < 50:
            e.prove('no names before BIFF 5.0', not added)
            return
        e.prove('one name more', len(added) == 1 and isinstance(added[0], PObj) and added[0].cls is xlrd.book.Name)
        o = added[0].attrs
        e.prove('name read', len(calls) == 1 and calls[0].get('data') is d and calls[0].get('pos') == 14 and T(calls[0].get('known_len')) is not None)
        e.prove('length of the name', T(calls[0]['known_len']) == u8(e, d, 3))
        e.prove('book', o['book'] is b)
        e.prove('index', T(o['name_index']) == n0.t)
        for a, lo, n in (('hidden', 0, 1), ('func', 1, 1), ('vbasic', 2, 1), ('macro', 3, 1), ('complex', 4, 1), ('builtin', 5, 1), ('funcgroup', 6, 6), ('binary', 12, 1)):
            e.prove(a, T(o[a]) == bits(opts, lo, n))
        e.prove('formula length', T(o['basic_formula_len']) == u16(e, d, 4))
        e.prove('external sheet', T(o['extn_sheet_num']) == u16(e, d, 6))
        e.prove('sheet', T(o['excel_sheet_index']) == u16(e, d, 8))
        e.prove('not evaluated', o['evaluated'] == 0)
        same_seq_(e, 'formula', o['raw_formula'], d, end.t, d.ln - end.t)
        isb = bits(opts, 5, 1) == 1
        want = text(it, nm)
        if e.branch(isb):
            e.cover('builtin')
            e.prove('built-in name', text(it, o['name']) == strlit(BUILTIN.get(nm, '??Unknown??') if isinstance(nm, str) else '??Unknown??'))
        else:
            e.cover('user name')
            e.prove('name', text(it, o['name']) == want)
        e.expect_covers('builtin', 'user name')
    return named(unit, 'handle_name[BIFF%d]' % bv)


def same_seq_(e, name, got, src, off, ln):
    from .walk import same_seq
    same_seq(e, name, got, src, off, ln)


class Map(object):
    """a dict with arbitrary content (on text keys): what is stored is recorded"""

    def __init__(self, e, it, name, value):
        self.e, self.it, self.name, self.value = e, it, name, value
        self.HAS = z3.Function(e.name(name), Str, IntS, BoolS)
        self.sets = []
        o = self.obj = PObj(None, {}, name=name)
        o.attrs['__contains__'] = SpecFn(lambda it_, a, k: self.has(a[0]))
        o.attrs['__setitem__'] = SpecFn(lambda it_, a, k: self.sets.append((a[0], a[1])))
        o.attrs['__getitem__'] = SpecFn(lambda it_, a, k: self.get(a[0]))
        self.keys_ = SymList('str', [z3.Array(e.name('keys'), IntS, Str)], e.int('nkeys', lo=0).t, name='keys')
        o.attrs['keys'] = SpecFn(lambda *_: self.keys_)
        o.attrs['__iter__'] = SpecFn(lambda *_: self.keys_)
        self.got = []

    def key(self, k):
        if isinstance(k, tuple):
            return text(self.it, k[0]), T(k[1])
        return text(self.it, k), z3.IntVal(0)

    def has(self, k):
        return mkbool(self.HAS(*self.key(k)))

    def get(self, k):
        if self.value is None:
            raise Unsupported('reading ' + self.name)
        if not self.e.branch(self.HAS(*self.key(k))):
            self.it.throw(KeyError, 'missing')
        v = self.value(k)
        self.got.append((k, v))
        return v


def u_epilogue(bv):
    def unit(e):
        import ast
        it = Interp(e)
        n = e.int('names', lo=0)
        F = {x: z3.Function(e.name(x), IntS, IntS) for x in ('sheet', 'extn', 'scope', 'macro', 'binary', 'evaluated')}
        NAME = z3.Function(e.name('name'), IntS, Str)
        m = e.int('all sheets', lo=0)
        M = z3.Array(e.name('map'), IntS, IntS)
        EXT = z3.Function(e.name('extname'), IntS, Str)
        HASN = z3.Function(e.name('hasname'), Str, BoolS)
        NUM = z3.Function(e.name('sheetnum'), Str, IntS)

        def scope(i):
            if bv >= 80:
                s = F['sheet'](i)
                v = z3.Select(M, s - 1)
                return If(s == 0, -1, If(And(s >= 1, s <= m.t), If(v == -1, -2, v), -3))
            x = F['extn'](i)
            return If(x == 0, -1, If(HASN(EXT(x)), NUM(EXT(x)), -2))
        objs = {}
        st = dict(phase='scope')

        def mk(it_, i):
            i = z3.simplify(T(i))
            key = (i.sexpr(), st['phase'])
            if key not in objs:
                for x in ('sheet', 'extn'):
                    e.assume(And(F[x](i) >= 0, F[x](i) <= 65535))
                s = F['sheet'](i)
                e.assume(Implies(And(s >= 1, s <= m.t), z3.Select(M, s - 1) >= -1))
                e.assume(And(F['macro'](i) >= 0, F['macro'](i) <= 1, F['binary'](i) >= 0, F['binary'](i) <= 1, F['evaluated'](i) >= 0, F['evaluated'](i) <= 1))
                o = objs[key] = PObj(xlrd.book.Name, dict(name=SStr(NAME(i)), excel_sheet_index=mkint(F['sheet'](i)), extn_sheet_num=mkint(F['extn'](i)),
                                                            macro=mkint(F['macro'](i)), binary=mkint(F['binary'](i)), scope=None), name='Name')
                o.idx = i
                if st['phase'] != 'scope':
                    o.attrs['scope'] = mkint(scope(i))
                # evaluating another name may have evaluated this one
                o.attrs['evaluated'] = mkint(F['evaluated'](i))
            return objs[key]
        lst = SymList('objfn', [], n.t, name='name_obj_list')
        lst.mkobj = mk
        amap = SymList('int', [M], m.t, name='map')
        ext = PDict()
        ext.base = lambda it_, k: (True, SStr(EXT(T(k))))
        num = PDict()
        num.base = lambda it_, k: (HASN(text(it, k)), mkint(NUM(text(it, k))))
        b = book(biff_version=bv, name_obj_list=lst, _all_sheets_map=amap, _extnsht_name_from_num=ext, _sheet_num_from_name=num, verbosity=0, logfile=None)
        calls = []

        def evaluate(it_, a, k):
            q = dict(zip(('bk', 'nobj', 'namex', 'blah', 'level'), a))
            q.update(k)
            calls.append(q)
            q['nobj'].attrs['evaluated'] = 1
        it.contracts[it.resolve('xlrd.formula.evaluate_name_formula')] = evaluate

        def mentions(what):
            def match(it_, node, fr):
                src = ast.dump(ast.Module(body=node.body, type_ignores=[]))
                return what in src
            return match

        def nobj_at(L):
            return [o for o in objs.values() if o.idx.eq(z3.simplify(L.i - 1))]

        def end_scope(L):
            o = [x for k, x in objs.items() if k[1] == 'scope']
            e.prove('one name at a time', len(o) == 1)
            i = o[0].idx
            e.prove('of this iteration', i == L.i - 1)
            s = o[0].attrs['scope']
            e.prove('scope', s is not None and T(s) == scope(i))

        def exit_scope(L):
            st['phase'] = 'evaluate'
            objs.clear()
        sc = LoopSpec('scopes', kind='for', match=mentions("attr='scope', ctx=Store"), exit_hook=exit_scope)
        sc.end_hook = end_scope

        def end_eval(L):
            i = L.i - 1
            skip = Or(F['macro'](i) == 1, F['binary'](i) == 1, F['evaluated'](i) == 1)
            if calls:
                e.cover('evaluated')
                q = calls[0]
                e.prove('evaluated once', len(calls) == 1)
                e.prove('this name', q['bk'] is b and q['nobj'].idx == i)
                e.prove('its index', T(q['namex']) == i)
                e.prove('level', q.get('level', 0) == 0)
                e.prove('has a formula to evaluate', Not(skip))
            else:
                e.cover('not evaluated')
                e.prove('no formula, or already evaluated', skip)

        def exit_eval(L):
            st['phase'] = 'maps'
            e.prove('scopes known first', st.get('done', True))
            objs.clear()
        ev = LoopSpec('formulas', kind='for', match=mentions("id='evaluate_name_formula'"), exit_hook=exit_eval)
        ev.end_hook = end_eval
        maps = {}

        def alist(k):
            o = PObj(None, {}, name='entries')
            o.log = []
            o.attrs['append'] = SpecFn(lambda it_, a, kk: o.log.append(a[0]))

            def sort(it_, a, kk):
                if a or kk:
                    raise Unsupported('sort with arguments')
                o.sorted = True
            o.attrs['sort'] = SpecFn(sort)
            o.sorted = False
            return o

        def fresh(nm, value):
            def f(L):
                old = L.entry.get(nm)
                e.prove('%s starts empty' % nm, isinstance(old, PDict) and not old.d and not old.log)
                maps[nm] = Map(e, it, nm, value)
                return maps[nm].obj
            return f

        def end_maps(L):
            i = L.i - 1
            low = z3.Function('str_lower()', Str, Str)(NAME(i))
            a, c = maps['name_and_scope_map'], maps['name_map']
            e.prove('one entry by name and scope', len(a.sets) == 1)
            (k, v), = a.sets
            e.prove('key', isinstance(k, tuple) and len(k) == 2)
            e.prove('key: lower case name', text(it, k[0]) == low)
            e.prove('key: scope', T(k[1]) == scope(i))
            e.prove('value', isinstance(v, PObj) and v.cls is xlrd.book.Name and v.idx == i)
            if e.branch(c.HAS(low, z3.IntVal(0))):
                e.cover('known name')
                e.prove('added to its list', not c.sets and len(c.got) == 1 and len(c.got[0][1].log) == 1)
                e.prove('list of that name', text(it, c.got[0][0]) == low)
                entry = c.got[0][1].log[0]
            else:
                e.cover('new name')
                e.prove('a list of its own', len(c.sets) == 1 and isinstance(c.sets[0][1], PList) and len(c.sets[0][1].items) == 1)
                e.prove('list of that name', text(it, c.sets[0][0]) == low)
                entry = c.sets[0][1].items[0]
            e.prove('entry', isinstance(entry, tuple) and len(entry) == 3 and isinstance(entry[2], PObj) and entry[2].idx == i)
            e.prove('entry: scope', T(entry[0]) == scope(i))
            e.prove('entry: position', T(entry[1]) == i)

        def exit_maps(L):
            for x in maps.values():
                x.sets, x.got = [], []
            st['phase'] = 'sort'
        mp = LoopSpec('maps', kind='for', names=('name_and_scope_map', 'name_map'), match=mentions("attr='lower'"),
                      kinds={'name_and_scope_map': fresh('name_and_scope_map', None), 'name_map': fresh('name_map', alist)}, exit_hook=exit_maps)
        mp.end_hook = end_maps

        def comp(it_, x, elt, seq, sub):
            if not (isinstance(seq, PObj) and hasattr(seq, 'sorted')):
                return None
            row = (e.int('s'), e.int('p'), PObj(xlrd.book.Name, {}, name='Name'))
            it.assign(x.generators[0].target, row, sub)
            e.prove('all entries', not x.generators[0].ifs)
            r = it.eval(elt, sub)
            e.prove('the Name of each entry', r is row[2])
            o = PObj(None, {}, name='names in scope order')
            o.src = seq
            return o
        e.ghost['comp_hook'] = comp

        def enter_sort(L):
            c = maps['name_map']
            e.assume(Implies(L.n > 0, c.HAS(z3.Select(c.keys_.arrays[0], z3.Int('any')), z3.IntVal(0))))

        def body_sort(L):
            c = maps['name_map']
            e.assume(c.HAS(z3.Select(c.keys_.arrays[0], L.i), z3.IntVal(0)))

        def end_sort(L):
            c = maps['name_map']
            e.prove('one list replaced', len(c.sets) == 1 and len(c.got) == 1)
            k, v = c.sets[0]
            e.prove('under its name', And(text(it, k) == z3.Select(c.keys_.arrays[0], L.i - 1), text(it, c.got[0][0]) == text(it, k)))
            e.prove('with the sorted names', getattr(v, 'src', None) is c.got[0][1] and v.src.sorted)
        so = LoopSpec('sort', kind='for', names=('name_map',), match=mentions("attr='sort'"), entry_hook=None, body_hook=body_sort)
        so.end_hook = end_sort
        it.loop_specs += [sc, ev, mp, so]
        noexc(e, it.outcome(BK + 'names_epilogue', b))
        e.cover('done')
        e.prove('all phases', st['phase'] == 'sort')
        e.prove('name_and_scope_map', b.attrs.get('name_and_scope_map') is maps['name_and_scope_map'].obj)
        e.prove('name_map', b.attrs.get('name_map') is maps['name_map'].obj)
        e.expect_covers('done', 'scopes/iter', 'formulas/iter', 'maps/iter', 'sort/iter', 'evaluated', 'not evaluated', 'known name', 'new name')
    return named(unit, 'names_epilogue[BIFF%d]' % bv)


C34 = [u_name_record(bv) for bv in (45, 50, 70, 80)] + [u_epilogue(bv) for bv in (50, 70, 80)]
