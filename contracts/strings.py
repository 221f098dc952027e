"""Contracts on the shared string table (C06) and on the STRING record of a formula result (C25)."""
from .common import *
from .reading import PObj, BOOK, SHEET, S, C26 as READING
import xlrd.book


def conj(*cs):
    return z3.And(*cs)


class Recs(object):
    """the data of consecutive records: record k has RL(k) bytes, in array RA(k)"""

    def __init__(self, e, name, n):
        self.e, self.n = e, n
        self.RA = z3.Function(e.name(name + '_data'), IntS, ArrII)
        self.RL = z3.Function(e.name(name + '_len'), IntS, IntS)
        self.A = z3.Function(e.name(name + '_offset'), IntS, IntS)
        e.assume(self.A(0) == 0)

    def at(self, k):
        """record k as a value"""
        k = z3.simplify(T(k))
        self.e.assume(self.RL(k) >= 0)
        self.e.assume(self.A(k + 1) == self.A(k) + self.RL(k))
        return Seq('bytes', arr=self.RA(k), off=0, ln=self.RL(k))

    def b(self, k, i):
        return byte(self.e, self.at(k), i)

    def monotone(self, a, b):
        """lemma prefix_sums_monotone (proved by lemma_prefix_sums)"""
        self.e.assume(z3.Implies(T(a) <= T(b), self.A(T(a)) <= self.A(T(b))))

    def list(self, first=None):
        l = SymList('objfn', [], T(self.n), name='records')
        l.mkobj = lambda it, i: first if first is not None and cint(i) == 0 else self.at(i)
        return l


def lemma_prefix_sums(e):
    """prefix sums of non-negative lengths are monotone: induction on the distance"""
    r = Recs(e, 'recs', 0)
    a, d = e.int('a', lo=0).t, e.int('d', lo=0).t
    e.prove('prefix sums: base', r.A(a) <= r.A(a + 0))
    r.at(a + d)
    e.assume(r.A(a) <= r.A(a + d))
    e.prove('prefix sums: step', r.A(a) <= r.A(a + (d + 1)))


class SSTSpec(object):
    """where each string of a shared string table lies, and what it is"""

    def __init__(self, e, K, N):
        F = lambda nm, *so: z3.Function(e.name(nm), *so)
        self.e, self.K, self.N = e, K, N
        self.r = Recs(e, 'sst', K)
        self.CX, self.CP = F('string_record', IntS, IntS), F('string_pos', IntS, IntS)
        self.TEXT = F('string_text', IntS, Str)
        self.RTC = F('string_runs', IntS, IntS)
        self.RUNA, self.RUNB = F('run_pos', IntS, IntS, IntS), F('run_font', IntS, IntS, IntS)
        e.assume(z3.And(self.CX(0) == 0, self.CP(0) == 8))
        self.n = 0

    def begin(self, i):
        """the definitions for string i (an arbitrary index) and the well-formedness of its storage"""
        e, r = self.e, self.r
        F = lambda nm, *so: z3.Function(e.name(nm), *so)
        self.i = i
        self.x0, self.p0 = x0, p0 = self.CX(i), self.CP(i)
        e.assume(z3.And(x0 >= 0, x0 < self.K, p0 >= 0))
        d = r.at(x0)
        self.nchars = u16(e, d, p0)
        self.opt = byte(e, d, p0 + 2)
        self.rt, self.ph, self.w0 = bitset(self.opt, 3), bitset(self.opt, 2), bitset(self.opt, 0)
        hl = 3 + z3.If(self.rt, 2, 0) + z3.If(self.ph, 4, 0)
        e.assume(p0 + hl <= r.RL(x0))                      # the header of a string is not split
        self.rtc = z3.If(self.rt, u16(e, d, p0 + 3), 0)
        po = p0 + 3 + z3.If(self.rt, 2, 0)
        self.phosz = z3.If(self.ph, i32(e, d, po), 0)
        e.assume(self.phosz >= 0)
        e.assume(self.RTC(i) == self.rtc)
        self.s0 = p0 + hl
        self.G = F('chars_before_chunk', IntS, IntS)
        self.ULO, self.UHI = F('unit_low', IntS, IntS), F('unit_high', IntS, IntS)
        e.assume(self.G(0) == 0)
        self.j = T(e.int('unit', lo=0))
        e.assume(z3.Or(self.j < self.nchars, self.nchars == 0))
        self.m = T(e.int('run', lo=0))
        self.QX, self.QP = F('run_record', IntS, IntS), F('run_offset', IntS, IntS)

    def start(self, k):
        return z3.If(k == 0, self.s0, 1)

    def wide(self, k):
        """is chunk k two bytes per character"""
        return z3.If(k == 0, self.w0, bitset(self.r.b(self.x0 + k, 0), 0))

    def chunk(self, k):
        """definitions for chunk k (an arbitrary index)"""
        e, r = self.e, self.r
        x = z3.simplify(self.x0 + k)
        s, w = self.start(k), self.wide(k)
        e.assume(z3.Implies(k > 0, r.RL(x) >= 1))
        d = r.at(x)
        need = self.nchars - self.G(k)
        av = z3.If(w, (r.RL(x) - s) / 2, r.RL(x) - s)
        n = z3.If(av < need, av, need)
        e.assume(self.G(k + 1) == self.G(k) + n)
        e.assume(z3.Implies(z3.And(w, av < need), (r.RL(x) - s) % 2 == 0))     # no character is split
        e.assume(z3.Implies(av < need, x + 1 < self.K))                         # the records are there
        e.assume(z3.Implies(av < need, r.RL(z3.simplify(x + 1)) >= 1))
        q = self.j - self.G(k)
        lo = z3.If(w, byte(e, d, s + 2 * q), byte(e, d, s + q))
        hi = z3.If(w, byte(e, d, s + 2 * q + 1), 0)
        e.assume(z3.Implies(z3.And(self.G(k) <= self.j, self.j < self.G(k + 1)),
                            z3.And(self.ULO(self.j) == lo, self.UHI(self.j) == hi)))
        return n, w

    def runcur(self, q):
        """the run at cursor q: (record, position) after the move to the next record"""
        x, p = self.QX(q), self.QP(q)
        at_end = p == self.r.RL(x)
        return z3.If(at_end, x + 1, x), z3.If(at_end, 0, p)

    def run(self, q):
        e, r = self.e, self.r
        r.at(self.QX(q))
        x, p = self.runcur(q)
        r.at(self.QX(q) + 1)
        e.assume(z3.And(x < self.K, p + 4 <= r.RL(x)))      # a run is not split, and is there
        d0, d1 = r.at(self.QX(q)), r.at(self.QX(q) + 1)
        at_end = self.QP(q) == r.RL(self.QX(q))
        a = z3.If(at_end, u16(e, d1, 0), u16(e, d0, self.QP(q)))
        b = z3.If(at_end, u16(e, d1, 2), u16(e, d0, self.QP(q) + 2))
        e.assume(z3.And(self.RUNA(self.i, q) == a, self.RUNB(self.i, q) == b))
        e.assume(z3.And(self.QX(q + 1) == x, self.QP(q + 1) == p + 4))

    def finish(self, x1, p1):
        """the cursor of the next string: phosz bytes after (x1, p1)"""
        e, r, i = self.e, self.r, self.i
        self.target = r.A(x1) + p1 + self.phosz
        cx, cp = self.CX(i + 1), self.CP(i + 1)
        r.at(cx)
        e.assume(z3.And(cx >= 0, cx <= self.K, cp >= 0, r.A(cx) + cp == self.target,
                        z3.Implies(cx < self.K, cp < r.RL(cx))))
        # only the last string may extend to the end of the data
        e.assume(z3.Implies(i < self.N - 1, self.target < r.A(self.K)))

    def unique(self, x):
        for a, b in ((x, self.CX(self.i + 1)), (self.CX(self.i + 1), x), (x + 1, self.CX(self.i + 1)), (self.CX(self.i + 1) + 1, x),
                     (x, self.K), (x + 1, self.K), (self.CX(self.i + 1), self.K), (self.CX(self.i + 1) + 1, self.K)):
            self.r.monotone(z3.simplify(T(a)), z3.simplify(T(b)))


def is_data(L, v, x):
    """v is record x"""
    sp = L.data_spec
    if not isinstance(v, Seq) or v.items is not None:
        return z3.BoolVal(False)
    return z3.And(v.arr == sp.r.RA(x), T(v.off) == 0, T(v.ln) == sp.r.RL(x))


def sst_unpack(e):
    """unpack_SST_table: every string, every formatting run, for any number of strings and records"""
    it = Interp(e)
    it.strict_decode = False
    K, N = e.int('records', lo=1).t, e.int('strings').t
    sp = SSTSpec(e, K, N)
    w = T(e.int('w', lo=0))

    def cursor(L, x, p, stale=True):
        dx, ps = L['datainx'], L['pos']
        x = z3.simplify(T(x))
        sp.r.at(x)
        cs = z3.And(T(dx) == x, T(ps) == p)
        dat = is_data(L, L['data'], x)
        dl = T(L['datalen']) == sp.r.RL(x)
        return [('position', cs), ('data is the current record', z3.Implies(x < K, dat)),
                ('length of the current record', z3.Implies(x < K, dl))]

    def mkdata(L):
        L.dx = T(e.int('datainx'))
        return sp.r.at(L.dx)

    kdata = dict(data=mkdata, datainx=lambda L: mkint(L.dx), datalen=lambda L: e.int('datalen'), pos=lambda L: e.int('pos'))

    def wrap(inv):
        def f(L):
            L.data_spec = sp
            return inv(L)
        return f

    # ---- strings
    state = {}

    def slist(L):
        l = SymList('str', [z3.Array(e.name('out'), IntS, Str)], T(e.int('nout', lo=0)), name='strings')
        state['strings'] = l
        return l

    def sinv(L):
        lst = L['strings']
        if isinstance(lst, PList):
            at_w = z3.BoolVal(True)
            n = z3.IntVal(len(lst.items))
        else:
            n = T(lst.ln)
            at_w = z3.Select(lst.arrays[0], w) == sp.TEXT(w)
        return cursor(L, sp.CX(L.i), sp.CP(L.i)) + [
            ('one result per string', n == L.i),
            ('text of every string so far', z3.Implies(w < L.i, at_w))]

    def dict_kind(L):
        d = PDict()
        d.base = lambda e_, key: (mkbool(z3.Const(e.name('has'), BoolS)), Opaque('runs'))
        state['runs_dict'] = d
        return d

    def sbody(L):
        state['iter'] = True
        sp.begin(L.i)

    def send(L):
        # the runs stored for this string
        d = L['richtext_runs']
        new = list(d.d.items()) + list(d.log)
        if len(new) == 0:
            e.prove('formatting runs recorded when there are any', sp.rtc == 0)
        else:
            e.prove('one list of runs per string', len(new) == 1)
            key, val = new[0]
            e.prove('runs recorded only when there are any', sp.rtc > 0)
            e.prove('runs recorded under the index of the string', T(key) == sp.i)
            if isinstance(val, PList):
                e.prove('number of runs', T(len(val.items)) == sp.rtc)
            elif isinstance(val, SymList):
                e.prove('number of runs', T(val.ln) == sp.rtc)
                e.prove('every run', z3.Implies(sp.m < sp.rtc, z3.And(z3.Select(val.arrays[0], sp.m) == sp.RUNA(sp.i, sp.m),
                                                                       z3.Select(val.arrays[1], sp.m) == sp.RUNB(sp.i, sp.m))))
            else:
                e.fail('runs recorded', repr(val))

    outer = LoopSpec('strings', names=('datatab', 'strings', 'pos'), kind='for', inv=wrap(sinv), body_hook=sbody,
                     kinds=dict(kdata, strings=slist, richtext_runs=dict_kind, strappend=lambda L: mkappend(it, state)))
    outer.end_hook = send

    # ---- characters
    def raw_kind(L):
        return e.seq('raw', 'bytes', inp=False)

    def cinv(L):
        k = z3.simplify(T(L['datainx']) - sp.x0)
        raw = it.as_view(it.lift_seq(L['rawutf16']))
        got = T(L['charsgot'])
        j = sp.j
        b = z3.And(z3.Select(raw.arr, T(raw.off) + 2 * j) == sp.ULO(j), z3.Select(raw.arr, T(raw.off) + 2 * j + 1) == sp.UHI(j))
        b = z3.simplify(b) if z3.is_quantifier(raw.arr) else b
        x = z3.simplify(sp.x0 + k)
        return [('chunk number', k >= 0), ('records left', x < K),
                ('start of the chunk', T(L['pos']) == sp.start(k)),
                ('data is the record of the chunk', is_data(L, L['data'], x)), ('length', T(L['datalen']) == sp.r.RL(x)),
                ('width of the characters', (T(L['options']) % 2 == 1) == sp.wide(k)),
                ('options are a byte', z3.And(T(L['options']) >= 0, T(L['options']) <= 255)),
                ('characters so far', z3.And(got == sp.G(k), got >= 0, got <= sp.nchars)),
                ('room in the record', sp.start(k) <= sp.r.RL(x)),
                ('bytes so far', T(raw.ln) == 2 * got),
                ('every unit so far', z3.Implies(j < got, b))]

    def cbody(L):
        L.k = z3.simplify(T(L['datainx']) - sp.x0)
        sp.chunk(L.k)

    def cexit(L):
        if L.phase == 'break':
            e.cover('last chunk')
            sp.p1 = T(L['pos'])
            sp.x1 = T(L['datainx'])
            n, wd = sp.chunk(L.k)
            e.prove('end of the characters', z3.And(sp.G(L.k + 1) == sp.nchars, sp.x1 == sp.x0 + L.k,
                                                    sp.p1 == sp.start(L.k) + z3.If(wd, 2 * n, n)))
            e.prove('characters read', T(L['charsgot']) == sp.nchars)

    def cvariant(L):
        return K - T(L['datainx'])
    chars = LoopSpec('characters', names=('rawutf16', 'charsgot'), kind='while', inv=wrap(cinv), body_hook=cbody, exit_hook=cexit,
                     kinds=dict(kdata, rawutf16=raw_kind, charsgot=lambda L: e.int('charsgot'), options=lambda L: e.int('options')),
                     variant=cvariant)

    # ---- formatting runs
    def runs_kind(L):
        return SymList(('tuple', 'int', 'int'), [z3.Array(e.name('ra'), IntS, IntS), z3.Array(e.name('rb'), IntS, IntS)],
                       T(e.int('nruns', lo=0)), name='runs')

    def rinv(L):
        v = L['runs']
        if isinstance(v, PList):
            n, at = z3.IntVal(len(v.items)), z3.BoolVal(True)
        else:
            n, at = T(v.ln), z3.And(z3.Select(v.arrays[0], sp.m) == sp.RUNA(sp.i, sp.m), z3.Select(v.arrays[1], sp.m) == sp.RUNB(sp.i, sp.m))
        q = L.i
        return [('cursor', z3.And(T(L['datainx']) == sp.QX(q), T(L['pos']) == sp.QP(q), sp.QP(q) >= 0, sp.QX(q) >= 0, sp.QX(q) < K,
                                  sp.QP(q) <= sp.r.RL(sp.QX(q)))),
                ('data is the current record', is_data(L, L['data'], sp.QX(q))), ('length', T(L['datalen']) == sp.r.RL(sp.QX(q))),
                ('number of runs so far', n == L.i), ('every run so far', z3.Implies(sp.m < L.i, at))]

    def rentry(L):
        e.assume(z3.And(sp.QX(0) == sp.x1, sp.QP(0) == sp.p1))

    def rbody(L):
        sp.run(L.i)

    def rexit(L):
        sp.x2, sp.p2 = sp.QX(L.n), sp.QP(L.n)
    runs = LoopSpec('runs', names=('runs', 'rtcount'), kind='for', inv=wrap(rinv), entry_hook=rentry, body_hook=rbody, exit_hook=rexit,
                    kinds=dict(kdata, runs=runs_kind))

    # ---- phonetic data
    def pentry(L):
        L.data_spec = sp
        if not hasattr(sp, 'x2'):
            e.prove('formatting runs read when there are any', sp.rtc == 0)
            sp.x2, sp.p2 = sp.x1, sp.p1
        sp.r.at(sp.x2)
        sp.finish(sp.x2, sp.p2)
        e.prove('phonetic data skipped', T(L['pos']) == sp.p2 + sp.phosz)

    def pinv(L):
        x, p = T(L['datainx']), T(L['pos'])
        sp.r.at(x)
        return [('offset', z3.And(sp.r.A(x) + p == sp.target, p >= 0)), ('in the data', z3.And(x >= 0, x < K)),
                ('data is the current record', is_data(L, L['data'], x)), ('length', T(L['datalen']) == sp.r.RL(x))]

    def pexit(L):
        sp.unique(z3.simplify(T(L['datainx'])))

    def pbody(L):
        x = z3.simplify(T(L['datainx']))
        sp.r.at(x)
        sp.r.at(z3.simplify(x + 1))
        sp.unique(z3.simplify(x + 1))
    phon = LoopSpec('phonetic', names=('datainx', 'pos'), kind='while', inv=wrap(pinv), entry_hook=pentry, exit_hook=pexit, body_hook=pbody,
                    kinds=dict(kdata), variant=lambda L: K - T(L['datainx']),
                    match=lambda it_, node, fr: True)
    it.loop_specs += [chars, outer, runs, phon]

    # ---- decoding
    def dec(it_, o, enc):
        if enc != 'utf_16_le' or 'iter' not in state:
            return None
        v = it.as_view(o)
        e.prove('all the units of the string are decoded', T(v.ln) == 2 * sp.nchars)
        a = z3.simplify(z3.Select(v.arr, z3.simplify(T(v.off) + 2 * sp.j)))
        b = z3.simplify(z3.Select(v.arr, z3.simplify(T(v.off) + 2 * sp.j + 1)))
        e.prove('every unit is decoded', z3.Implies(sp.j < sp.nchars, z3.And(a == sp.ULO(sp.j), b == sp.UHI(sp.j))))
        e.cover('text decoded')
        return SStr(sp.TEXT(sp.i))
    e.ghost['decode_hook'] = dec

    out = it.outcome('xlrd.book.unpack_SST_table', sp.r.list(), mkint(N))
    if out[0] == 'exc':
        return e.fail('no exception for a well formed table', repr(out[1]))
    res = out[1]
    e.prove('two results', isinstance(res, tuple) and len(res) == 2)
    lst, d = res
    e.cover('end')
    n = z3.If(N > 0, N, 0)
    if isinstance(lst, SymList):
        e.prove('one text per string', T(lst.ln) == n)
        e.prove('every text', z3.Implies(w < n, z3.Select(lst.arrays[0], w) == sp.TEXT(w)))
    else:
        e.fail('list of the strings', repr(lst))
    e.prove('map of formatting runs', d is state.get('runs_dict'))


def mkappend(it, state):
    from pyvc.values import BuiltinMethod
    # bound to the list of the arbitrary iteration
    return SpecFn(lambda it_, a, k: it.list_append(state['strings'], a[0]), 'append')


def sst_record(e):
    """handle_sst: the record and all the CONTINUE records that follow, each once and in order"""
    it = Interp(e)
    fmt = e.choose('formatting_info')
    M = e.int('continues', lo=0).t
    d0 = e.seq('SST', 'bytes', maxlen=8224)
    e.assume(T(d0.ln) >= 8)
    r = Recs(e, 'sst', M + 1)
    e.assume(z3.And(r.RA(0) == d0.arr, r.RL(0) == T(d0.ln)))
    st = dict(c=z3.IntVal(0), calls=0, got=None, none=0)
    oldmap = PDict()
    bk = PObj(BOOK, dict(formatting_info=fmt, verbosity=0, logfile=None, _rich_text_runlist_map=oldmap, _sharedstrings=PList([]),
                         biff_version=80, encoding='utf_16_le'), name='book')
    w = T(e.int('w', lo=0))

    def nxt(it_, a, k):
        e.prove('CONTINUE records are asked for', T(a[1]) == 0x3C)
        e.prove('nothing is read after the last one', not st['none'])
        if e.branch(st['c'] < M):
            st['c'] = z3.simplify(st['c'] + 1)
            d = r.at(st['c'])
            return (a[1], mkint(d.ln), d)
        st['none'] = 1
        return (None, 0, b'')
    it.contracts[it.resolve('xlrd.book.Book.get_record_parts_conditional')] = nxt
    res = (SymList('str', [z3.Array(e.name('strings'), IntS, Str)], T(e.int('n', lo=0)), name='strings'), PDict())

    def check_list(l, n, what):
        if isinstance(l, PList):
            e.prove(what + ': number of records', T(len(l.items)) == n)
            same = [rec_is(l.items[q], q) for q in range(len(l.items))]
            e.prove(what + ': every record', z3.And(*same))
        elif isinstance(l, SymList):
            e.prove(what + ': number of records', T(l.ln) == n)
            el = it.elem(l, w) if e.branch(w < n) else None
            if el is not None:
                e.prove(what + ': every record', rec_is(el, w))
        else:
            e.fail(what, repr(l))

    def rec_is(v, q):
        if not isinstance(v, Seq) or v.items is not None:
            return z3.BoolVal(False)
        return z3.And(v.arr == r.RA(T(q)), T(v.off) == 0, T(v.ln) == r.RL(T(q)))

    def unpack(it_, a, k):
        st['calls'] += 1
        e.prove('after the last CONTINUE', st['none'] == 1)
        check_list(a[0], M + 1, 'table')
        e.prove('number of strings', T(a[1]) == i32(e, d0, 4))
        return res
    it.contracts[it.resolve('xlrd.book.unpack_SST_table')] = unpack

    def slist(L):
        st['c'] = T(e.int('c', lo=0))
        st['none'] = 0
        l = SymList('objfn', [], z3.simplify(st['c'] + 1), name='strlist')
        l.mkobj = lambda it_, i: r.at(i)
        return l

    def inv(L):
        l = L['strlist']
        n = z3.IntVal(len(l.items)) if isinstance(l, PList) else T(l.ln)
        same = z3.And(*[rec_is(v, q) for q, v in enumerate(l.items)]) if isinstance(l, PList) else z3.BoolVal(True)
        return [('records so far', z3.And(n == st['c'] + 1, st['c'] >= 0, st['c'] <= M)), ('in order', same)]

    def end(L):
        l = L['strlist']
        e.cover('CONTINUE')
        app = list(getattr(l, 'appended', None) or [])
        e.prove('one record added', len(app) == 1)
        v = app[0]
        v = v[-1] if isinstance(v, tuple) else v
        e.prove('the record read is added', rec_is(v, st['c']))
    sp = LoopSpec('continues', names=('strlist',), kind='while', inv=inv, kinds=dict(strlist=slist), variant=lambda L: M - st['c'])
    sp.end_hook = end
    it.loop_specs.append(sp)
    out = it.outcome('xlrd.book.Book.handle_sst', bk, d0)
    if out[0] == 'exc':
        return e.fail('no exception', repr(out[1]))
    e.cover('end')
    e.prove('the table is decoded once', st['calls'] == 1)
    e.prove('strings kept', bk.attrs['_sharedstrings'] is res[0])
    e.prove('formatting runs kept only with formatting_info', bk.attrs['_rich_text_runlist_map'] is (res[1] if fmt else oldmap))


C06 = [lemma_prefix_sums, sst_unpack, sst_record] + [u for u in READING if 'LABELSST' in u.__name__]


# ---------------------------------------------------------------- C25
def string_contents(bv):
    def unit(e):
        it = Interp(e)
        it.strict_decode = False
        wide8 = bv >= 80
        K = e.int('records', lo=1).t          # the STRING record and the CONTINUE records that follow it
        r = Recs(e, 'string', K)
        d0 = r.at(0)
        lenlen = 2 if bv >= 30 else 1
        e.assume(r.RL(0) >= lenlen)
        nchars = u16(e, d0, 0) if lenlen == 2 else byte(e, d0, 0)
        F = lambda nm, *so: z3.Function(e.name(nm), *so)
        G = F('chars_before', IntS, IntS)
        ULO, UHI = F('unit_low', IntS, IntS), F('unit_high', IntS, IntS)
        PREF, CH = F('text_before', IntS, Str), F('chunk_text', IntS, Str)
        RC = F('record_type', IntS, IntS)
        e.assume(z3.And(G(0) == 0, PREF(0) == strlit('')))
        j = T(e.int('unit', lo=0))
        e.assume(z3.Or(j < nchars, nchars == 0))
        TEXT = z3.Const(e.name('text'), Str)
        enc = e.str('encoding')
        known = bv >= 80 or e.choose('encoding known') == 0
        st = dict(k=z3.IntVal(0), derived=0, over=0, decoded=0)

        def start(k):
            return z3.If(k == 0, lenlen, 0)

        def chunk(k):
            """definitions for record k of the string"""
            d = r.at(k)
            s = start(k)
            if wide8:
                e.assume(r.RL(k) >= s + 1)                      # a flag byte starts each record
                wd = bitset(byte(e, d, s), 0)
                rest = r.RL(k) - s - 1
                e.assume(z3.Implies(wd, rest % 2 == 0))         # no character is split
                e.assume(G(k + 1) == G(k) + z3.If(wd, rest / 2, rest))
                q = j - G(k)
                lo = z3.If(wd, byte(e, d, s + 1 + 2 * q), byte(e, d, s + 1 + q))
                hi = z3.If(wd, byte(e, d, s + 2 + 2 * q), 0)
                e.assume(z3.Implies(z3.And(G(k) <= j, j < G(k + 1)), z3.And(ULO(j) == lo, UHI(j) == hi)))
            else:
                rest = r.RL(k) - s
                e.assume(G(k + 1) == G(k) + rest)
                e.assume(PREF(k + 1) == scat(PREF(k), CH(k)))
            e.assume(rest >= 0)
            return rest

        def derive(it_, a, kw):
            e.prove('encoding derived only when unknown', not known and bk.attrs['encoding'] is None)
            st['derived'] = 1
            return enc
        bk = PObj(BOOK, dict(encoding=enc if known else None, biff_version=bv, verbosity=0, logfile=None), name='book')
        if known:
            e.assume(text(it, enc) != strlit(''))
        it.contracts[it.resolve('xlrd.book.Book.derive_encoding')] = derive

        def nxt(it_, a, kw):
            # called only while characters are missing
            k = st['k']
            e.prove('further records are read only while characters are missing', G(k + 1) < nchars)
            st['k'] = z3.simplify(k + 1)
            d = r.at(st['k'])
            e.assume(z3.And(RC(st['k']) >= 0, RC(st['k']) <= 0xFFFF))
            return (mkint(RC(st['k'])), mkint(d.ln), d)
        it.contracts[it.resolve('xlrd.book.Book.get_record_parts')] = nxt

        def dec(it_, o, en):
            v = it.as_view(o)
            if wide8:
                if en != 'utf_16_le':
                    return None
                e.prove('all the units are decoded', T(v.ln) == 2 * nchars)
                a = z3.simplify(z3.Select(v.arr, z3.simplify(T(v.off) + 2 * j)))
                b = z3.simplify(z3.Select(v.arr, z3.simplify(T(v.off) + 2 * j + 1)))
                e.prove('every unit is decoded', z3.Implies(j < nchars, z3.And(a == ULO(j), b == UHI(j))))
                st['decoded'] += 1
                return SStr(TEXT)
            e.prove('decoded with the encoding of the book', text(it, en) == text(it, enc))
            k = st['k']
            e.prove('the characters of one record', z3.And(v.arr == r.RA(k), T(v.off) == start(k), T(v.ln) == r.RL(k) - start(k)))
            # an encoding with one byte per character
            e.assume((CH(k) == strlit('')) == (T(v.ln) == 0))
            return SStr(CH(k), lenhint=T(v.ln))
        e.ghost['decode_hook'] = dec

        def raw_kind(L):
            st['k'] = T(e.int('k', lo=0))
            return e.seq('raw', 'bytes', inp=False)

        def data_kind(L):
            if not wide8:
                st['k'] = T(e.int('k', lo=0))
            else:
                st['k'] = T(e.int('k', lo=0))
            return r.at(st['k'])

        def inv(L):
            k = st['k']
            d = L['data']
            out = [('current record', z3.And(d.arr == r.RA(k), T(d.off) == 0, T(d.ln) == r.RL(k), k >= 0)),
                   ('start of the text', T(L['offset']) == start(k)),
                   ('characters so far', z3.And(T(L['nchars_found']) == G(k), G(k) >= 0, z3.Or(k == 0, G(k) < nchars))),
                   ('only CONTINUE records are used', z3.Or(k == 0, RC(k) == 0x3C))]
            if wide8:
                raw = it.as_view(it.lift_seq(L['rawutf16']))
                b = z3.And(z3.Select(raw.arr, T(raw.off) + 2 * j) == ULO(j), z3.Select(raw.arr, T(raw.off) + 2 * j + 1) == UHI(j))
                b = z3.simplify(b) if z3.is_quantifier(raw.arr) else b
                out += [('bytes so far', T(raw.ln) == 2 * G(k)), ('every unit so far', z3.Implies(j < G(k), b))]
            else:
                out += [('text so far', text(it, L['result']) == PREF(k))]
                if L.get('enc') is not None:
                    out += [('encoding', text(it, L['enc']) == text(it, enc))]
            return out

        kinds = dict(data=data_kind, offset=lambda L: e.int('offset'), nchars_found=lambda L: e.int('found'))
        if wide8:
            kinds['rawutf16'] = lambda L: e.seq('raw', 'bytes', inp=False)
        else:
            kinds['result'] = lambda L: SStr(PREF(st['k']))
        it.loop_specs.append(LoopSpec('chunks', names=('nchars_found', 'data'), kind='while', inv=inv, kinds=kinds,
                                      body_hook=lambda L: chunk(st['k'])))
        o = PObj(SHEET, dict(biff_version=bv, book=bk, verbosity=0, logfile=None, name='S', number=0), name='sheet')
        out = it.outcome(S + 'string_record_contents', o, d0)
        k = st['k']
        if out[0] == 'exc':
            if not exc_is(out, 'XLRDError'):
                return e.fail('only XLRDError for a wrong number of characters', repr(out[1]))
            e.cover('error')
            e.prove('error only when the characters do not add up', z3.Or(
                G(k + 1) > nchars, z3.And(k >= 1, RC(k) != 0x3C, G(k) < nchars)))
            return
        e.cover('result')
        e.prove('as many characters as announced', G(k + 1) == nchars)
        e.prove('only CONTINUE records are used', z3.Or(k == 0, RC(k) == 0x3C))
        if wide8:
            e.prove('the text of the units', text(it, out[1]) == TEXT)
            e.prove('decoded once', st['decoded'] == 1)
        else:
            e.prove('the text of all the records', text(it, out[1]) == PREF(k + 1))
    return named(unit, 'string_record_contents BIFF%d' % bv)


C25 = [u for u in READING if 'FORMULA string' in u.__name__] + [string_contents(bv) for bv in (20, 30, 40, 50, 70, 80)]
