"""Contracts on what belongs to cells besides their values: hyperlinks (C28), notes (C29)."""
from .common import *
from .walk import noexc, book, same_seq
from .basics import ustr_layout
from .strings import Recs
from .reading import Env, data
import xlrd.sheet
import xlrd.book

SHEET, BOOK = xlrd.sheet.Sheet, xlrd.book.Book
S = 'xlrd.sheet.Sheet.'
Or, And, If, Not, Implies = z3.Or, z3.And, z3.If, z3.Not, z3.Implies
GUID0 = b'\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
URLM = b'\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
FILEM = b'\x03\x03\x00\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46'
U16 = dec_fn('utf_16_le')


class Texts(object):
    """UTF-16 texts of the record: which bytes each text is the decoding of; a text may be cut where a zero unit ends it"""

    def __init__(self, e, it, d):
        self.e, self.it, self.d = e, it, d
        self.regions = []               # (offset, number of bytes) of the texts of the record
        self.counted = []               # those that end in a zero unit
        self.made = []                  # (term, offset, number of bytes)
        self.zeros = []                 # (offset of the text, units before its first zero unit)
        self.cuts = []                  # (length term, offset, units)
        e.ghost['decode_hook'] = self.decode
        e.ghost['slice_hook'] = self.slice
        e.ghost['text_hook'] = self.method

    def at(self, off, nb):
        """the text of nb bytes at off"""
        return U16(self.d.arr, z3.simplify(T(self.d.off) + T(off)), z3.simplify(T(nb)))

    def decode(self, it, o, enc):
        e = self.e
        if enc != 'utf_16_le':
            return None
        v = it.as_view(o)
        e.prove('text of the record', v.arr.eq(self.d.arr))
        off, nb = z3.simplify(T(v.off) - T(self.d.off)), z3.simplify(T(v.ln))
        for o2, n2 in self.regions:         # the texts that are there
            if e.must(And(off == o2, nb == n2), timeout=5000):
                return self.make(o2, z3.simplify(n2))
        return self.make(off, nb)

    def make(self, off, nb):
        t = self.at(off, nb)
        self.e.assume((t == strlit('')) == (T(nb) == 0))
        self.made.append((t, off, nb))
        return SStr(t)

    def find(self, o):
        t = o.term()
        for u, off, nb in self.made:
            if u.eq(t):
                return off, nb
        return None

    def zero(self, off):
        for o, p in self.zeros:
            if self.e.must(o == T(off)):
                return p
        return None

    def slice(self, it, o, lo, hi):
        e = self.e
        w = self.find(o)
        if w is None or not (lo is None or cint(lo) == 0):
            return None
        off, nb = w
        if cint(hi) == -1:
            if any(o2.eq(off) and z3.eq(z3.simplify(n2), nb) for o2, n2 in self.counted):
                return self.make(off, z3.simplify(nb - 2))
            if e.must(u16(e, self.d, z3.simplify(off + nb - 2)) == 0):
                return self.make(off, z3.simplify(nb - 2))
            return None
        for n, o2, p in self.cuts:
            for x in (0, 1):                # before or after the zero unit
                if hi is not None and cint(T(hi) - n) == x and e.must(o2 == off):
                    return self.make(off, z3.simplify(2 * (p + x)))
        return None

    def method(self, it, o, name, a, k):
        e = self.e
        w = self.find(o)
        if w is None:
            return None
        off, nb = w
        if name == 'encode' and a and a[0].lower().replace('_', '-') in ('utf-16le', 'utf-16-le'):
            return Seq('bytes', arr=self.d.arr, off=z3.simplify(T(self.d.off) + off), ln=nb)
        p = self.zero(off)
        if a == ['\0'] and name in ('find', 'index', 'partition') and p is not None and e.must(2 * p < nb):
            if name == 'partition':
                return (self.make(off, z3.simplify(2 * p)), '\0', SStr(z3.Const(e.name('rest'), Str)))
            n = T(e.int('characters', lo=0))        # a character is one or two units
            e.assume(And(n <= p, p <= 2 * n))
            self.cuts.append((n, off, p))
            return SInt(n)
        return None


class Cells(object):
    """hyperlink_map: is an arbitrary cell (r0, c0) mapped to the new link, or as it was"""

    def __init__(self, e, it):
        self.e = e
        self.r0, self.c0 = T(e.int('cell row', lo=0, hi=65535)), T(e.int('cell column', lo=0, hi=65535))
        self.m = z3.BoolVal(False)
        self.vals = []
        self.o = PObj(None, {}, name='hyperlink_map')
        self.o.attrs['__setitem__'] = SpecFn(lambda it, a, k: self.set(it, *a))

    def set(self, it, key, v):
        self.e.prove('the key is a cell', isinstance(key, tuple) and len(key) == 2)
        self.vals.append(v)
        self.m = z3.simplify(Or(self.m, And(T(key[0]) == self.r0, T(key[1]) == self.c0)))
        return None

    def havoc(self, L=None):
        self.m = z3.Bool(self.e.name('mapped'))


def hyperlink(e, part, debug=False):
    """one HLINK record"""
    it = Interp(e)
    it.contracts[it.resolve('xlrd.biffh.BaseObject.dump')] = lambda it_, a, k: None
    d = e.seq('hlink', maxlen=8224, inp=True)
    tx = Texts(e, it, d)
    fr, lr, fc, lc = [u16(e, d, 2 * k) for k in range(4)]
    e.assume(d.ln >= 32)
    for k, b in enumerate(GUID0):
        e.assume(byte(e, d, 8 + k) == b)
    for k, b in enumerate(b'\2\0\0\0'):
        e.assume(byte(e, d, 24 + k) == b)
    opt = u32(e, d, 28)
    e.assume(opt < 2 ** 31)
    bit = lambda k: bitset(opt, k)
    if part == 'other':
        bs = [T(e.int('option bit %d' % k, lo=0, hi=1)) for k in range(9)]
        rest = T(e.int('other options', lo=0))
        e.assume(opt == z3.Sum([b * 2 ** k for k, b in enumerate(bs)]) + 512 * rest)
        bit = lambda k: bs[k] == 1
        # lemma: the bits of the options, one by one and as the pairs that are tested together
        for k, n in [(k, 1) for k in range(9)] + [(0, 2), (5, 2)]:
            f = bits(opt, k, n) == z3.Sum([bs[k + j] * 2 ** j for j in range(n)])
            e.prove('option bits', f)
            e.assume(z3.simplify(f))
    pos = z3.IntVal(32)

    def at(t):
        v = T(e.int('offset'))
        e.assume(v == t)
        return v

    def counted(what):
        """a text with its length in units and a final zero unit"""
        n = u32(e, d, pos)
        e.assume(And(n >= 1, n < 2 ** 30, pos + 4 + 2 * n <= d.ln))
        o = at(pos + 4)
        e.assume(u16(e, d, z3.simplify(o + 2 * n - 2)) == 0)
        n = at(n)
        tx.regions.append((o, 2 * n))
        tx.counted.append((o, 2 * n))
        return ('text', o, z3.simplify(2 * n - 2)), at(o + 2 * n)
    want = dict(desc=None, target=None, textmark=None, url_or_path=None, quicktip=None)
    if e.branch(Or(bit(2), bit(4))):
        e.cover('description')
        want['desc'], pos = counted('description')
    if e.branch(bit(7)):
        e.cover('target')
        want['target'], pos = counted('target')
    mon = And(bit(0), Not(bit(8)))
    if part == 'url' or part == 'file':
        e.assume(mon)
        for k, b in enumerate(URLM if part == 'url' else FILEM):
            e.assume(byte(e, d, z3.simplify(pos + k)) == b)
        pos = at(pos + 16)
    else:
        e.assume(Not(mon))
    if part == 'url':
        want['type'] = 'url'
        nb = at(u32(e, d, pos))
        pos = at(pos + 4)
        p = T(e.int('units of the address', lo=0))
        e.assume(Or(nb == 2 * p + 2, nb == 2 * p + 26))
        e.assume(u16(e, d, z3.simplify(pos + 2 * p)) == 0)
        e.assume(pos + nb <= d.ln)
        tx.zeros.append((pos, p))
        tx.regions.append((pos, nb))
        want['url_or_path'] = ('text', pos, z3.simplify(2 * p))
        pos = at(pos + nb)
    elif part == 'file':
        want['type'] = 'local file'
        up, nb = u16(e, d, pos), u32(e, d, pos + 2)
        e.assume(And(nb >= 1, nb < 2 ** 31))
        short = ('short', up, z3.simplify(pos + 6), z3.simplify(nb - 1))
        pos = at(pos + 6 + nb + 24)
        e.assume(pos + 4 <= d.ln)
        sz = u32(e, d, pos)
        e.assume(sz < 2 ** 31)
        pos = at(pos + 4)
        if e.branch(sz != 0):
            e.cover('long path')
            xl = u32(e, d, pos)
            e.assume(And(xl < 2 ** 31, xl % 2 == 0, pos + 6 + xl <= d.ln))
            xl = at(xl)
            pos = at(pos + 6)
            tx.regions.append((pos, xl))
            want['url_or_path'] = ('text', pos, xl)
            pos = at(pos + xl)
        else:
            e.cover('short path')
            want['url_or_path'] = short
    elif e.branch(And(bit(0), bit(1), bit(8), Not(bit(5)), Not(bit(6)))):
        e.cover('network path')
        want['type'] = 'unc'
        want['url_or_path'], pos = counted('path')
    elif e.branch(And(bit(3), Not(bit(0)), Not(bit(1)), Not(bit(5)), Not(bit(6)), Not(bit(8)))):
        e.cover('place in the workbook')
        want['type'] = 'workbook'
    else:
        e.cover('unknown type')
        want['type'] = 'unknown'
    if e.branch(bit(3)):
        e.cover('text mark')
        want['textmark'], pos = counted('text mark')
    e.assume(pos <= d.ln)

    cells = Cells(e, it)
    n0 = e.int('links so far', lo=0)
    lst = PObj(None, {}, name='hyperlink_list')
    added = []
    lst.attrs['append'] = SpecFn(lambda it_, a, k: added.append(a[0]))
    o = PObj(SHEET, dict(hyperlink_list=lst, hyperlink_map=cells.o, verbosity=0, logfile=None, biff_version=80, name='S', number=0), name='sheet')
    r0, c0 = cells.r0, cells.c0
    hv = PDict()
    row = {}

    def outer_inv(L):
        return [('cells of the rows so far', cells.m == And(fr <= r0, r0 < fr + (L.i if L.i is not None else 0), fc <= c0, c0 <= lc))]

    def inner_inv(L):
        return [('cells of the columns so far', cells.m == Or(
            And(fr <= r0, r0 < T(L['rowx']), fc <= c0, c0 <= lc),
            And(r0 == T(L['rowx']), fc <= c0, c0 < fc + (L.i if L.i is not None else 0))))]
    mods = lambda L: [(hv, None, cells.havoc)]
    isin = lambda L: 'colx' in L.fr.vars
    it.loop_specs.append(LoopSpec('rows', kind='for', inv=outer_inv, modifies=mods))
    it.loop_specs.append(LoopSpec('columns', kind='for', names=('rowx',), inv=inner_inv, modifies=mods, once=False))
    out = it.outcome(S + 'handle_hlink', o, d)
    noexc(e, out)
    e.cover('recorded')
    e.prove('one link recorded', len(added) == 1)
    h = added[0]
    e.prove('every mapped cell has this link', all(v is h for v in cells.vals))
    e.prove('exactly the cells of the range', cells.m == And(fr <= r0, r0 <= lr, fc <= c0, c0 <= lc))
    for nm, t in zip(('frowx', 'lrowx', 'fcolx', 'lcolx'), (fr, lr, fc, lc)):
        e.prove(nm, T(it.getattr(h, nm)) == t)
    for nm, w in want.items():
        v = it.getattr(h, nm)
        if w is None:
            e.prove(nm + ' absent', v is None)
        elif isinstance(w, str):
            e.prove(nm, v == w)
        elif w[0] == 'short':
            x, up, off, n = w
            e.prove(nm + '/bytes', isinstance(v, (bytes, Seq)) and not is_text(v))
            v = it.as_view(it.lift_seq(v))
            e.prove(nm + '/length', T(v.ln) == 3 * up + n)
            j = T(e.int('byte', lo=0))
            g = z3.simplify(z3.Select(v.arr, T(v.off) + j))
            e.prove(nm + '/levels up', Implies(j < 3 * up, g == If(j % 3 == 2, 0x5C, 0x2E)))
            e.prove(nm + '/path', Implies(And(3 * up <= j, j < 3 * up + n), g == byte(e, d, z3.simplify(off + j - 3 * up))))
        else:
            e.prove(nm + '/text', is_text(v))
            x, off, nb = w
            e.prove(nm, Or(text(it, v) == tx.at(off, nb), And(T(nb) == 0, text(it, v) == strlit(''))))


PARTS = dict(url=(), file=('long path', 'short path'), other=('network path', 'place in the workbook', 'unknown type'))


def u_hlink(part):
    def unit(e):
        hyperlink(e, part)
        e.expect_covers('recorded', 'description', 'target', 'text mark', *PARTS[part])
    return named(unit, 'handle_hlink[%s]' % part)


def u_quicktip(e):
    """the tooltip belongs to the link recorded last"""
    it = Interp(e)
    d = e.seq('quicktip', maxlen=8224, inp=True)
    tx = Texts(e, it, d)
    n = T(e.int('units of the text', lo=0))
    e.assume(And(d.ln == 12 + 2 * n, u16(e, d, 0) == 0x0800, u16(e, d, 10 + 2 * n) == 0))
    tx.regions.append((z3.IntVal(10), 2 * n))
    names = ('frowx', 'lrowx', 'fcolx', 'lcolx')
    links = [PObj(xlrd.sheet.Hyperlink, dict(zip(names, [e.int(x) for x in names]), quicktip=None), name='link %d' % k) for k in range(2)]
    for k, x in enumerate(names):
        e.assume(T(links[1].attrs[x]) == u16(e, d, 2 + 2 * k))
    ranges = [dict(h.attrs) for h in links]
    o = PObj(SHEET, dict(hyperlink_list=PList(list(links)), hyperlink_map=PDict(), verbosity=0, logfile=None), name='sheet')
    noexc(e, it.outcome(S + 'handle_quicktip', o, d))
    e.cover('tooltip')
    v = links[1].attrs.get('quicktip')
    e.prove('text', is_text(v) and text(it, v) == tx.at(10, z3.simplify(2 * n)))
    e.prove('other links have none', links[0].attrs['quicktip'] is None)
    for h, r in zip(links, ranges):
        e.prove('nothing else of the links changes', all(h.attrs[x] is r[x] for x in names) and set(h.attrs) == set(r))
    e.expect_covers('tooltip')


named(u_quicktip, 'handle_quicktip')


def reading_units(*subs):
    from .reading import C31, C26
    return [u for u in C31 + C26 if any(x in u.__name__ for x in subs)]


C28 = [u_hlink(p) for p in PARTS] + [u_quicktip] + reading_units('handed on]')


# ---------------------------------------------------------------- C29
def b2b(L, name):
    return L.it.as_view(L.it.lift_seq(L[name]))


def unit_at(raw, j):
    """bytes 2j and 2j+1 of a view"""
    return [z3.simplify(z3.Select(raw.arr, z3.simplify(T(raw.off) + 2 * j + x))) for x in (0, 1)]


OBJFLAGS = dict(locked=(0, 1), printable=(4, 1), autofilter=(8, 1), scrollbar_flag=(9, 1), autofill=(13, 1), autoline=(14, 1))


def u_obj(e):
    """OBJ: the id, type and options come from its first subrecord; the others are passed over"""
    it = Interp(e)
    it.contracts[it.resolve('xlrd.biffh.hex_char_dump')] = lambda it_, a, k: None
    bv = [80, 70, 50, 40, 30, 20][e.choose('version', 6)]
    d = e.seq('obj', maxlen=8224, inp=True)
    o = PObj(SHEET, dict(biff_version=bv, verbosity=e.choose('verbosity'), logfile=None, name='S', number=0), name='sheet')
    if bv < 80:
        r = noexc(e, it.outcome(S + 'handle_obj', o, d))
        e.prove('no objects before BIFF8', r is None)
        return
    e.assume(d.ln >= 4)
    first = And(u16(e, d, 0) == 0x15, u16(e, d, 2) == 18)
    e.assume(Implies(first, d.ln >= 22))
    fl = u16(e, d, 8)
    want = dict(type=u16(e, d, 4), id=u16(e, d, 6))
    want.update((k, bits(fl, *v)) for k, v in OBJFLAGS.items())
    st = {}

    def begin(L):
        p = st['p'] = T(L['pos'])
        e.assume(p + 4 <= d.ln)                                         # well formed: a subrecord is complete,
        ft, cb = u16(e, d, p), u16(e, d, z3.simplify(p + 2))
        e.assume(Implies(p > 0, ft != 0x15))                            # only the first one is of this type,
        e.assume(Implies(ft == 0x0C, p + 18 <= d.ln))
        if e.branch(And(p > 0, ft == 0)):                               # and only zeros follow the end
            j = z3.Int('j')
            e.assume(z3.ForAll([j], Implies(And(j >= p, j < d.ln), z3.Select(d.arr, T(d.off) + j) == 0)))

    def pos(L):
        st['p'] = None
        ob = st['o'] = L['o']
        if e.choose('at the start'):
            return 0
        p = e.int('pos', lo=22)
        for k, t in want.items():
            ob.attrs[k] = SInt(t)
        return p

    def inv(L):
        ob, p = L['o'], T(L['pos'])
        if cint(p) == 0:
            return []
        if st.get('p') is not None:
            e.prove('each subrecord follows the one before', p == st['p'] + 4 + u16(e, d, z3.simplify(st['p'] + 2)))
        return [('position', p >= 22), ('first subrecord', first)] + [(k, T(ob.attrs[k]) == t if k in ob.attrs else z3.BoolVal(False)) for k, t in want.items()]
    it.loop_specs.append(LoopSpec('subrecords', kind='while', names=('pos',), inv=inv, kinds=dict(pos=pos), body_hook=begin,
                                  modifies=lambda L: [(L['o'], '*', 'keep')]))
    r = noexc(e, it.outcome(S + 'handle_obj', o, d))
    if r is None:
        e.cover('ignored')
        e.prove('only what does not start with the common subrecord is ignored', Not(first))
    else:
        e.cover('object')
        e.prove('starts with the common subrecord', first)
        for k, t in want.items():
            e.prove(k, k in r.attrs and T(r.attrs[k]) == t)
    e.expect_covers('ignored', 'object')


named(u_obj, 'handle_obj')


def u_txo(e):
    """TXO: the text of the CONTINUE records that follow, however it is divided, and its formatting runs"""
    it = Interp(e)
    it.strict_decode = False
    bv = [80, 70][e.choose('version', 2)]
    d = e.seq('txo', maxlen=8224, inp=False)
    e.assume(d.ln >= 18)
    if bv < 80:
        o = PObj(SHEET, dict(biff_version=bv, book=None, verbosity=0, logfile=None), name='sheet')
        e.prove('no texts before BIFF8', noexc(e, it.outcome(S + 'handle_txo', o, d)) is None)
        return
    cch, cbruns = u16(e, d, 10), u16(e, d, 12)
    F = lambda nm, *so: z3.Function(e.name(nm), *so)
    recs, rr = Recs(e, 'text', e.int('records').t), Recs(e, 'runs', e.int('run records').t)
    G, ULO, UHI = F('units before', IntS, IntS), F('unit low', IntS, IntS), F('unit high', IntS, IntS)
    RA, RB = F('run position', IntS, IntS), F('run font', IntS, IntS)
    e.assume(G(0) == 0)
    j, q = T(e.int('unit', lo=0)), T(e.int('run', lo=0))
    TEXT = z3.Const(e.name('text'), Str)
    st = dict(k=z3.IntVal(0), y=z3.IntVal(0), phase='text', decoded=0)

    def nxt(it_, a, kw):
        if st['phase'] == 'text':
            k = st['k']
            x = recs.at(k)
            e.prove('text records are read only while units are missing', G(k) < cch)
            e.assume(x.ln >= 2)
            fl = byte(e, x, 0)
            e.assume(Or(fl == 0, And(fl == 1, x.ln % 2 == 1)))               # no unit is split
            n = If(fl == 1, (x.ln - 1) / 2, x.ln - 1)
            e.assume(And(G(k + 1) == G(k) + n, G(k + 1) <= cch))
            i = j - G(k)
            e.assume(Implies(And(G(k) <= j, j < G(k + 1)), And(
                ULO(j) == If(fl == 1, byte(e, x, z3.simplify(1 + 2 * i)), byte(e, x, z3.simplify(1 + i))),
                UHI(j) == If(fl == 1, byte(e, x, z3.simplify(2 + 2 * i)), 0))))
            st['k'] = z3.simplify(k + 1)
        else:
            y = st['y']
            x = rr.at(y)
            e.prove('run records are read only while runs are missing', rr.A(y) < cbruns)
            e.assume(And(x.ln >= 8, x.ln % 8 == 0, rr.A(y) % 8 == 0, rr.A(y + 1) <= cbruns))
            i = 8 * q - rr.A(y)
            e.assume(Implies(And(rr.A(y) <= 8 * q, 8 * q < rr.A(y + 1)), And(RA(q) == u16(e, x, z3.simplify(i)), RB(q) == u16(e, x, z3.simplify(i + 2)))))
            st['y'] = z3.simplify(y + 1)
        return (0x3C, mkint(x.ln), x)

    # ---- the text
    def raw_kind(L):
        st['k'] = T(e.int('k', lo=0))
        return e.seq('raw', 'bytes', inp=False)

    def tinv(L):
        raw = b2b(L, 'rawutf16')
        k = st['k']
        lo, hi = unit_at(raw, j)
        return [('units so far', And(T(L['totchars']) == G(k), G(k) >= 0, G(k) <= cch)), ('bytes so far', T(raw.ln) == 2 * G(k)),
                ('every unit so far', Implies(j < G(k), And(lo == ULO(j), hi == UHI(j))))]
    it.loop_specs.append(LoopSpec('text', names=('rawutf16', 'totchars'), kind='while', inv=tinv, variant=lambda L: cch - T(L['totchars']),
                                  kinds=dict(rawutf16=raw_kind, totchars=lambda L: e.int('totchars'))))

    def dec(it_, ob, en):
        if en != 'utf_16_le':
            return None
        v = it.as_view(ob)
        e.prove('all the units are decoded', T(v.ln) == 2 * cch)
        lo, hi = unit_at(v, j)
        e.prove('every unit is decoded', Implies(j < cch, And(lo == ULO(j), hi == UHI(j))))
        st['decoded'] += 1
        return SStr(TEXT)
    e.ghost['decode_hook'] = dec

    # ---- the runs
    def mklist(L):
        return SymList(('tuple', 'int', 'int'), [z3.Array(e.name('ra'), IntS, IntS), z3.Array(e.name('rb'), IntS, IntS)], T(e.int('nruns', lo=0)), name='runs')

    def runs_ok(L, total):
        v = L['o'].attrs['rich_text_runlist']
        if isinstance(v, PList):
            n, at = z3.IntVal(len(v.items)), z3.BoolVal(True)
        else:
            n, at = T(v.ln), And(z3.Select(v.arrays[0], q) == RA(q), z3.Select(v.arrays[1], q) == RB(q))
        return [('number of runs so far', And(8 * n == total, n >= 0)), ('every run so far', Implies(q < n, at))]

    def enter(L):
        st['phase'] = 'runs'

    def total_kind(L):
        st['y'] = T(e.int('y', lo=0))
        return e.int('totruns')
    it.loop_specs.append(LoopSpec('run records', names=('totruns',), kind='while', entry_hook=enter,
                                  inv=lambda L: [('bytes of runs so far', And(T(L['totruns']) == rr.A(st['y']), rr.A(st['y']) >= 0, rr.A(st['y']) <= cbruns))] + runs_ok(L, rr.A(st['y'])),
                                  kinds=dict(totruns=total_kind), variant=lambda L: cbruns - T(L['totruns']),
                                  modifies=lambda L: [(L['o'], 'rich_text_runlist', mklist)]))
    it.loop_specs.append(LoopSpec('runs of a record', names=('totruns',), kind='for',
                                  inv=lambda L: [('bytes of runs so far', T(L['totruns']) == rr.A(st['y'] - 1) + 8 * (L.i if L.i is not None else 0))] +
                                  runs_ok(L, T(L['totruns'])),
                                  kinds=dict(totruns=lambda L: e.int('totruns')),
                                  modifies=lambda L: [(L['o'], 'rich_text_runlist', mklist)]))
    # ---- runs at the end of the text are dropped
    N = cbruns / 8

    def dinv(L):
        v = L['o'].attrs['rich_text_runlist']
        if isinstance(v, PList):
            n, at = z3.IntVal(len(v.items)), z3.BoolVal(True)
        else:
            n, at = T(v.ln), And(z3.Select(v.arrays[0], q) == RA(q), z3.Select(v.arrays[1], q) == RB(q))
        return [('runs left', And(0 <= n, n <= N)), ('every run left', Implies(And(q < n, q < N), at)),
                ('only runs at the end of the text are dropped', Implies(And(n <= q, q < N), RA(q) == cch))]
    it.loop_specs.append(LoopSpec('trailing runs', kind='while', inv=dinv, modifies=lambda L: [(L['o'], 'rich_text_runlist', mklist)],
                                  entry_hook=lambda L: e.prove('all the runs were read', rr.A(st['y']) == cbruns)))
    e.assume(cbruns % 8 == 0)
    bk = book(biff_version=80)
    it.contracts[it.resolve('xlrd.book.Book.get_record_parts')] = nxt
    o = PObj(SHEET, dict(biff_version=bv, book=bk, verbosity=0, logfile=None), name='sheet')
    r = noexc(e, it.outcome(S + 'handle_txo', o, d))
    e.cover('text')
    e.prove('a text object', isinstance(r, PObj))
    tx = it.getattr(r, 'text')
    e.prove('text', is_text(tx) and Or(text(it, tx) == TEXT, And(cch == 0, text(it, tx) == strlit(''))))
    v = it.getattr(r, 'rich_text_runlist')
    if isinstance(v, PList):
        e.prove('no runs', And(N == 0, z3.BoolVal(not v.items)))
    else:
        n = T(v.ln)
        e.prove('every run before the end of the text', Implies(q < n, And(z3.Select(v.arrays[0], q) == RA(q), z3.Select(v.arrays[1], q) == RB(q))))
        e.prove('only runs at the end of the text are dropped', And(n <= N, Implies(And(n <= q, q < N), RA(q) == cch)))
        e.prove('all runs at the end of the text are dropped', Or(n == 0, z3.Select(v.arrays[0], z3.simplify(n - 1)) != cch))
    e.expect_covers('text')


named(u_txo, 'handle_txo')


def note_sheet(e, bv, bk):
    notes = []
    m = PObj(None, {}, name='cell_note_map')
    m.attrs['__setitem__'] = SpecFn(lambda it, a, k: notes.append(tuple(a)))
    return notes, PObj(SHEET, dict(biff_version=bv, book=bk, cell_note_map=m, verbosity=0, logfile=None, name='S', number=0), name='sheet')


def one_note(e, it, notes, r, c):
    e.prove('one note recorded', len(notes) == 1)
    key, n = notes[0]
    e.prove('under its cell', isinstance(key, tuple) and len(key) == 2 and And(T(key[0]) == r, T(key[1]) == c))
    e.prove('row and column', And(T(it.getattr(n, 'rowx')) == r, T(it.getattr(n, 'colx')) == c))
    return n


def u_note8(e):
    """NOTE of BIFF8: its own attributes, and the text and runs of the TXO of its object"""
    it = Interp(e)
    d = e.seq('note', maxlen=8224, inp=True)
    e.assume(d.ln >= 11)
    n = u16(e, d, 8)
    txt, end, info = ustr_layout(e, d, 8, n, 10)
    e.assume(And(Not(info['rich']), Not(info['phon']), Or(d.ln == end, d.ln == end + 1)))
    oid = u16(e, d, 6)
    txo = PObj(xlrd.sheet.MSTxo, dict(text=e.str('text'), rich_text_runlist=PList([])), name='txo')
    has = e.choose('a TXO of the object')
    asked = []
    txos = PObj(None, {}, name='txos')

    def get(it_, a, k):
        asked.append(a[0])
        e.prove('looked up by the id of the object', T(a[0]) == oid)
        return txo if has else (a[1] if len(a) > 1 else None)

    def item(it_, a, k):
        get(it_, a, k)
        if not has:
            it_.throw(KeyError, 'no such object')
        return txo
    txos.attrs.update(get=SpecFn(get), __getitem__=SpecFn(item), __contains__=SpecFn(lambda it_, a, k: get(it_, a, k) is txo))
    notes, o = note_sheet(e, 80, book(biff_version=80))
    noexc(e, it.outcome(S + 'handle_note', o, d, txos))
    if not has:
        e.cover('no text')
        e.prove('no note without its text', not notes)
        return
    e.cover('note')
    nt = one_note(e, it, notes, u16(e, d, 0), u16(e, d, 2))
    fl = u16(e, d, 4)
    for k, b in dict(show=1, row_hidden=7, col_hidden=8).items():
        e.prove(k, T(it.getattr(nt, k)) == bits(fl, b, 1))
    a = it.getattr(nt, 'author')
    e.prove('author', is_text(a) and Or(And(n == 0, text(it, a) == strlit('')), text(it, a) == txt))
    e.prove('text', it.getattr(nt, 'text') is txo.attrs['text'])
    e.prove('runs', it.getattr(nt, 'rich_text_runlist') is txo.attrs['rich_text_runlist'])
    e.expect_covers('no text', 'note')


named(u_note8, 'handle_note[BIFF8]')


def u_note(e):
    """NOTE before BIFF8: the text is in the record and in the continuation NOTE records"""
    it = Interp(e)
    it.strict_decode = False
    bv = [70, 50, 40, 30, 20][e.choose('version', 5)]
    r = Recs(e, 'note', e.int('records').t)
    d = r.at(0)
    total = u16(e, d, 4)
    F = lambda nm, *so: z3.Function(e.name(nm), *so)
    G, BY = F('bytes before', IntS, IntS), F('byte of the text', IntS, IntS)
    j = T(e.int('byte', lo=0))
    TEXT = z3.Const(e.name('text'), Str)
    enc = e.str('encoding')
    known = e.choose('encoding known') == 0
    if known:
        e.assume(text(it, enc) != strlit(''))
    st = dict(k=z3.IntVal(1), decoded=0)

    def define(k):
        x = r.at(k)
        e.assume(x.ln >= 6)
        e.assume(And(G(k + 1) == G(k) + x.ln - 6, G(k + 1) <= total))
        e.assume(Implies(And(G(k) <= j, j < G(k + 1)), BY(j) == byte(e, x, z3.simplify(6 + j - G(k)))))
        return x
    e.assume(G(0) == 0)
    define(z3.IntVal(0))

    def nxt(it_, a, kw):
        k = st['k']
        e.prove('more records are read only while text is missing', G(k) < total)
        x = define(k)
        e.assume(And(u16(e, x, 0) == 0xFFFF, u16(e, x, 4) == x.ln - 6, x.ln > 6))
        st['k'] = z3.simplify(k + 1)
        return (0x1C, mkint(x.ln), x)

    def derive(it_, a, kw):
        e.prove('encoding derived only when unknown', not known)
        return enc
    bk = book(biff_version=bv, encoding=enc if known else None)
    it.contracts[it.resolve('xlrd.book.Book.derive_encoding')] = derive
    it.contracts[it.resolve('xlrd.book.Book.get_record_parts')] = nxt

    # the pieces of the text: kept as what they are put together
    def joined(xs):
        acc = b''
        for p in xs.items:
            acc = it.concat(acc, p)
        return acc

    def pieces(L):
        o = PObj(None, {}, name='pieces')
        o.attrs['raw'] = e.seq('raw', 'bytes', inp=False)
        st['k'] = T(e.int('k', lo=1))

        def append(it_, a, k):
            o.attrs['raw'] = it_.concat(o.attrs['raw'], a[0])
        o.attrs['append'] = SpecFn(append)
        return o
    e.ghost['join_hook'] = lambda it_, sep, xs: xs.attrs['raw'] if sep == b'' and isinstance(xs, PObj) and 'raw' in xs.attrs else None

    def inv(L):
        p, k = L['pieces'], st['k']
        raw = it.as_view(it.lift_seq(joined(p) if isinstance(p, PList) else p.attrs['raw']))
        b = z3.simplify(z3.Select(raw.arr, z3.simplify(T(raw.off) + j)))
        return [('bytes still missing', And(T(L['expected_bytes']) == total - G(k), G(k) >= 0, G(k) <= total)), ('bytes so far', T(raw.ln) == G(k)),
                ('every byte so far', Implies(j < G(k), b == BY(j)))]
    it.loop_specs.append(LoopSpec('continuation records', names=('pieces', 'expected_bytes'), kind='while', inv=inv, variant=lambda L: T(L['expected_bytes']),
                                  kinds=dict(pieces=pieces, expected_bytes=lambda L: e.int('expected'))))

    def dec(it_, ob, en):
        e.prove('decoded with the encoding of the book', is_text(en) and text(it, en) == text(it, enc))
        v = it.as_view(ob)
        b = z3.simplify(z3.Select(v.arr, z3.simplify(T(v.off) + j)))
        e.prove('all of the text is decoded', And(T(v.ln) == total, Implies(j < total, b == BY(j))))
        st['decoded'] += 1
        return SStr(TEXT)
    e.ghost['decode_hook'] = dec
    notes, o = note_sheet(e, bv, bk)
    noexc(e, it.outcome(S + 'handle_note', o, d, PDict()))
    e.cover('note')
    nt = one_note(e, it, notes, u16(e, d, 0), u16(e, d, 2))
    t = it.getattr(nt, 'text')
    e.prove('text', is_text(t) and text(it, t) == TEXT and st['decoded'] == 1)
    e.prove('author', it.getattr(nt, 'author') == '')
    for k in ('show', 'row_hidden', 'col_hidden'):
        e.prove(k, cint(it.getattr(nt, k)) == 0)
    rl = it.getattr(nt, 'rich_text_runlist')
    e.prove('one run', isinstance(rl, PList) and len(rl.items) == 1 and tuple(rl.items[0]) == (0, 0))
    e.expect_covers('note')


named(u_note, 'handle_note[before BIFF8]')


def m_objects(e, bv, fmt, rc):
    """OBJ, TXO and NOTE records of a sheet: a text belongs to the object before it"""
    d = data(e, 0)
    has = e.choose('an object before')
    old = e.int('id of the object before', lo=1, hi=65535)
    sets = []
    txos = PObj(None, {}, name='txos')
    txos.attrs['__setitem__'] = SpecFn(lambda it, a, k: sets.append(tuple(a)))
    env = Env(e, bv, fmt, [(rc, d)], kinds={'saved_obj_id': lambda L: old if has else None, 'txos': lambda L: txos})
    some = e.choose('interpreted')
    obj = PObj(xlrd.sheet.MSObj, dict(id=e.int('id', lo=1, hi=65535)), name='obj')
    txo = PObj(xlrd.sheet.MSTxo, dict(text=e.str('text')), name='txo')

    def logged(nm, res):
        def f(it, a, k):
            a = list(a) + list(k.values())
            env.calls.append((nm, a[1:]))
            return res if some else None
        env.it.contracts[env.it.resolve(S + nm)] = f
    logged('handle_obj', obj)
    logged('handle_txo', txo)
    logged('handle_note', None)
    keep = {}

    def prep(env):
        keep['now'] = env.L['saved_obj_id']

    def post(env):
        nm = {0x5D: 'handle_obj', 0x1B6: 'handle_txo', 0x1C: 'handle_note'}[rc]
        e.cover(nm)
        e.prove('handed on once', [c[0] for c in env.calls] == [nm])
        e.prove('with the record', env.calls[0][1][0] is d)
        now = env.L['saved_obj_id']
        if rc == 0x5D:
            e.prove('no text recorded', not sets)
            e.prove('the object that a text belongs to', (now is None) if not some else now is not None and T(now) == obj.attrs['id'].t)
        elif rc == 0x1B6:
            if some and has:
                e.prove('the text of the object before it', len(sets) == 1 and T(sets[0][0]) == old.t and sets[0][1] is txo)
                e.prove('an object has one text', now is None)
            else:
                e.prove('no text without an object', not sets)
                e.prove('the object before it', now is (old if has else None))
        else:
            e.prove('with the texts', env.calls[0][1][1] is txos)
            e.prove('no text recorded', not sets)
            e.prove('the object before it', now is (old if has else None))
        env.only_writes()
    env.prep = prep
    env.run(post)


def readers():
    from .reading import cell_unit, BK
    return [cell_unit('OBJ TXO NOTE', [0x5D, 0x1B6, 0x1C], [80, 50], BK, m_objects, ('record', 'handle_obj', 'handle_txo', 'handle_note'))]


C29 = [u_obj, u_txo, u_note8, u_note] + readers()
