"""Contracts on the OLE2 compound document reader (C11)."""
from .common import *
from .walk import noexc
import xlrd.compdoc as CD

Q = 'xlrd.compdoc.'
DOC = CD.CompDoc


def seen_array(e, n):
    l = SymList('int', [z3.Array(e.name('seen'), IntS, IntS)], n, name='seen')
    l.is_array = True
    l.store_bound = (0, 2 ** 64 - 1)
    return l


def sle32(mem, off):
    """the signed little-endian 32-bit integer at off"""
    from pyvc.models import signed, le_int
    return signed(le_int([z3.Select(mem.arr, z3.simplify(T(mem.off) + off) + j) for j in range(4)]), 4)


class Chain(object):
    """the sectors of a stream: CH(0) is the first, CH(q+1) the entry of CH(q) in the allocation table"""

    def __init__(self, e, start, sat, ss, mem, base, size=None, marks=None):
        self.e, self.sat, self.ss, self.mem, self.base, self.size, self.marks = e, sat, ss, mem, base, size, marks
        self.CH = z3.Function(e.name('chain'), IntS, IntS)
        self.SEEN = z3.Function(e.name('seen_before'), IntS, ArrII)
        self.UNSEEN = z3.Function(e.name('unseen_before'), IntS, IntS)
        e.assume(self.CH(0) == start)
        self.step_done = set()

    def grab(self, q):
        """bytes of sector q that belong to the stream"""
        if self.size is None:
            return self.ss
        rest = self.size - q * self.ss
        rest = z3.If(rest > 0, rest, 0)
        return z3.If(self.ss > rest, rest, self.ss)

    def view(self, q):
        q = z3.simplify(T(q))
        return Seq('bytes', arr=self.mem.arr, off=z3.simplify(T(self.mem.off) + self.base + self.CH(q) * self.ss), ln=z3.simplify(self.grab(q)))

    def step(self, q):
        """definitions at step q, where CH(q) is a sector of the stream"""
        e = self.e
        s = self.CH(q)
        inside = z3.And(s >= 0, s < T(self.sat.ln))
        e.assume(z3.Implies(inside, self.CH(q + 1) == z3.Select(self.sat.arrays[0], s)))
        if self.marks is not None:
            e.assume(self.SEEN(q + 1) == z3.Store(self.SEEN(q), s, self.marks))
            # counting: marking an unmarked sector leaves one less of them; there are never less than none
            e.assume(z3.Implies(z3.Select(self.SEEN(q), s) == 0, z3.And(self.UNSEEN(q) >= 1, self.UNSEEN(q + 1) == self.UNSEEN(q) - 1)))
        # a sector of the stream lies inside the file, and chains end with the end marker
        e.assume(z3.And(s >= 0, self.base + s * self.ss + self.grab(q) <= T(self.mem.ln)))
        e.assume(z3.Implies(inside, z3.Or(self.CH(q + 1) >= 0, self.CH(q + 1) == -2)))


def lemma_prefix(sized):
    def unit(e):
        """the first q sectors hold the first min(q * sec_size, size) bytes of the stream"""
        ss, q, size = e.int('sec_size', lo=1).t, e.int('q', lo=0).t, e.int('size', lo=0).t

        def pf(k):
            return z3.If(k * ss < size, k * ss, size) if sized else k * ss
        rest = z3.If(size - q * ss > 0, size - q * ss, 0)
        g = z3.If(ss > rest, rest, ss) if sized else ss
        e.prove('prefix lengths: base', pf(z3.IntVal(0)) == 0)
        e.prove('prefix lengths: step', pf(q + 1) == z3.simplify(pf(q) + g))
        d, n, x = e.int('d', lo=0).t, e.int('n', lo=0).t, e.int('x', lo=0).t
        e.prove('a byte within the first n sectors is in one of them', (n + d) * ss + x >= n * ss)
        y = e.int('y', lo=0).t
        e.assume(y < ss)
        e.prove('an entry of sector n comes before those of sector n + 1 + d', z3.Implies(d * ss >= 0, n * ss + y < (n + 1 + d) * ss))
    return named(unit, 'lemma_prefix[%s]' % ('sized' if sized else 'whole'))


def get_stream(sized, marked):
    def unit(e):
        it = Interp(e)
        ss = e.int('sec_size', lo=1).t
        base = e.int('base', lo=0).t
        mem = e.seq('mem', 'bytes', inp=False)
        sat = SymList('int', [z3.Array(e.name('sat'), IntS, IntS)], T(e.int('nsat', lo=0)), name='sat')
        nseen = T(e.int('nseen', lo=0))
        seen = seen_array(e, nseen)
        start = e.int('start_sid')
        e.assume(z3.Or(T(start) >= 0, T(start) == -2))
        size = e.int('size', lo=0).t if sized else None
        sid = T(e.int('seen_id', lo=1)) if marked else None
        if marked:
            e.assume(sid < 2 ** 64)
        o = PObj(DOC, dict(seen=seen, logfile=None, DEBUG=0, mem=mem, SAT=sat, ignore_workbook_corruption=False), name='doc')
        ch = Chain(e, T(start), sat, ss, mem, base, size, sid)
        if marked:
            e.assume(ch.SEEN(0) == seen.arrays[0])
            e.assume(z3.And(ch.UNSEEN(0) >= 0, ch.UNSEEN(0) <= nseen))
        seen0 = seen.arrays[0]
        st = dict(q=z3.IntVal(0))
        b = T(e.int('b', lo=0))          # an arbitrary byte of the stream
        bq, bx = T(e.int('bq', lo=0)), T(e.int('bx', lo=0))
        e.assume(z3.And(b == bq * ss + bx, bx < ss))

        def slist(L):
            st['q'] = T(e.int('q', lo=0))
            l = SymList('objfn', [], st['q'], name='sectors')
            l.mkobj = lambda it_, i: ch.view(i)
            st['list'] = l
            return l

        def items(v):
            if isinstance(v, PList):
                return z3.IntVal(len(v.items))
            return T(v.ln)

        def pf(k):
            return z3.If(k * ss < size, k * ss, size) if sized else k * ss

        def inv(L):
            q = st['q']
            l = L['sectors']
            cs = [('sector', T(L['s']) == ch.CH(q)), ('number of sectors', items(l) == q), ('end marker', z3.Or(ch.CH(q) >= 0, ch.CH(q) == -2))]
            if sized:
                cs.append(('bytes still to read', T(L['todo']) == size - pf(q)))
            if marked:
                cs.append(('sectors used are marked', z3.And(seen.arrays[0] == ch.SEEN(q), T(seen.ln) == nseen)))
                cs.append(('sectors not used', ch.UNSEEN(q) >= 0))
            else:
                cs.append(('no sector is marked', z3.And(seen.arrays[0] == seen0, T(seen.ln) == nseen)))
                cs.append(('no more sectors than there are', q <= T(sat.ln)))
            return cs

        def body(L):
            st['q0'] = st['q']
            q = st['q']
            ch.step(q)
            # lemma_prefix
            e.assume(pf(q + 1) == pf(q) + ch.grab(q))
            if marked:
                e.assume(ch.CH(q) < nseen)              # the sector is one of the file

        def end(L):
            q = st['q']
            l = L['sectors']
            app = list(getattr(l, 'appended', ()) or ())
            e.cover('sector read')
            e.prove('one sector is added at a time', len(app) == 1)
            v = it.as_view(it.lift_seq(app[0]))
            w = ch.view(q)
            e.prove('the sector added is the next of the chain', z3.And(v.arr == w.arr, z3.Implies(T(w.ln) > 0, T(v.off) == T(w.off)), T(v.ln) == T(w.ln)))
            if marked:
                e.prove('the sector was not used before', z3.Select(ch.SEEN(q), ch.CH(q)) == 0)
            st['q'] = z3.simplify(q + 1)

        def variant(L):
            return ch.UNSEEN(st['q']) if marked else T(sat.ln) - st['q']
        kinds = dict(sectors=slist)
        it.loop_specs.append(LoopSpec('sectors', names=('sectors', 's'), kind='while', inv=inv, kinds=kinds, body_hook=body, variant=variant,
                                      modifies=lambda L: [(seen, None, None)] if marked else []))
        it.loop_specs[-1].end_hook = end

        def join(it_, sep, xs):
            e.prove('the sectors are joined', xs is st.get('list') and sep == b'' and not getattr(xs, 'appended', None))
            n = st['q']
            arr = z3.Array(e.name('joined'), IntS, IntS)
            v = ch.view(bq)
            # the definition of joining, at byte bx of sector bq
            e.assume(z3.Implies(z3.And(bq < n, bx < ch.grab(bq)), z3.Select(arr, pf(bq) + bx) == z3.Select(v.arr, T(v.off) + bx)))
            return Seq('bytes', arr=arr, off=0, ln=pf(n))
        e.ghost['join_hook'] = join
        args = [o, mem, mkint(base), sat, mkint(ss), start]
        out = it.outcome(Q + 'CompDoc._get_stream', *args, **dict(size=mkint(size) if sized else None, name='stream', seen_id=mkint(sid) if marked else None))
        q = st['q']
        if out[0] == 'exc':
            if not exc_is(out, 'CompDocError'):
                return e.fail('a corrupt chain raises CompDocError', repr(out[1]))
            e.cover('corrupt')
            used = z3.Or(q >= T(sat.ln), *([z3.Select(ch.SEEN(q), ch.CH(q)) != 0] if marked else []))
            e.prove('CompDocError only for a corrupt chain', z3.And(ch.CH(q) >= 0, z3.Or(used, ch.CH(q) >= T(sat.ln))))
            return
        e.cover('stream')
        r = it.as_view(it.lift_seq(out[1]))
        n = q
        e.prove('the chain is followed to its end', ch.CH(n) == -2)
        e.prove('length', T(r.ln) == pf(n))
        # byte b of the stream is byte b % sec_size of sector b // sec_size
        e.assume(z3.Implies(z3.And(b < pf(n)), z3.And(bq < n)))       # b < n * sec_size
        e.prove('every byte', z3.Implies(b < pf(n), z3.Select(r.arr, T(r.off) + b) ==
                                         z3.Select(mem.arr, T(mem.off) + base + ch.CH(bq) * ss + bx)))
    return named(unit, '_get_stream[%s,%s]' % ('size' if sized else 'no size', 'marked' if marked else 'unmarked'))


def locate_stream(e):
    """_locate_stream: where the bytes of a stream are"""
    it = Interp(e)
    ss = e.int('sec_size', lo=1).t
    base = e.int('base', lo=0).t
    mem = e.seq('mem', 'bytes', inp=False)
    sat = SymList('int', [z3.Array(e.name('sat'), IntS, IntS)], T(e.int('nsat', lo=0)), name='sat')
    nseen = T(e.int('nseen', lo=0))
    seen = seen_array(e, nseen)
    start = e.int('start_sid')
    expected = e.int('expected', lo=0).t
    sid = T(e.int('seen_id', lo=1))
    e.assume(sid < 2 ** 64)
    ignore = e.boolean('ignore_workbook_corruption')
    o = PObj(DOC, dict(seen=seen, logfile=None, DEBUG=0, mem=mem, SAT=sat, ignore_workbook_corruption=ignore), name='doc')
    it.contracts[it.resolve(Q + 'dump_list')] = lambda it_, a, k: None
    ch = Chain(e, T(start), sat, ss, mem, base, None, sid)
    e.assume(ch.SEEN(0) == seen.arrays[0])
    OS = z3.Function(e.name('sectors_before_slice'), IntS, IntS)
    e.assume(OS(0) == 0)
    KQ = T(e.int('slice_of_b', lo=0))
    w = T(e.int('w', lo=0))
    b, bq, bx = T(e.int('b', lo=0)), T(e.int('bq', lo=0)), T(e.int('bx', lo=0))
    e.assume(z3.And(b == bq * ss + bx, bx < ss))
    fl = (expected + ss - 1) / ss
    e.assume(z3.And(fl * ss <= expected + ss - 1, expected + ss - 1 < (fl + 1) * ss))
    st = {}

    def arrays(l):
        if isinstance(l, PList):
            return None, None, z3.IntVal(len(l.items))
        return l.arrays[0], l.arrays[1], T(l.ln)

    def slist(L):
        l = SymList(('tuple', 'int', 'int'), [z3.Array(e.name('from'), IntS, IntS), z3.Array(e.name('to'), IntS, IntS)],
                    T(e.int('nslices', lo=0)), name='slices')
        st['list'] = l
        return l

    def slice_ok(A, Bz, n, k):
        """slice k holds the sectors OS(k)..OS(k+1) of the chain"""
        return z3.Implies(k < n, z3.And(Bz[k] - A[k] == (OS(k + 1) - OS(k)) * ss, OS(k + 1) > OS(k), A[k] >= 0, Bz[k] <= T(mem.ln), A[k] <= Bz[k]))

    def inv(L):
        A, Bz, n = arrays(L['slices'])
        tf, s, p, a, z = (T(L[x]) for x in ('tot_found', 's', 'p', 'start_pos', 'end_pos'))
        cur = tf - OS(n)
        cs = [('sector', z3.And(s == ch.CH(tf), tf >= 0, tf <= fl)), ('end marker', z3.Or(s >= 0, s == -2)),
              ('previous sector', p == z3.If(tf == 0, -99, ch.CH(tf - 1))), ('sectors are not negative', z3.Implies(tf > 0, p >= 0)),
              ('no slice at the start', z3.Implies(tf == 0, n == 0)),
              ('current slice', z3.Implies(tf > 0, z3.And(cur >= 1, z - a == cur * ss, a >= 0, z <= T(mem.ln), a <= z, z == base + (p + 1) * ss))),
              ('sector of byte b in the current slice', z3.Implies(z3.And(bq < tf, bq >= OS(n)), a + (bq - OS(n)) * ss == base + ch.CH(bq) * ss)),
              ('sectors used are marked', z3.And(seen.arrays[0] == ch.SEEN(tf), T(seen.ln) == nseen)),
              ('slices hold sectors', z3.And(OS(n) >= 0, n >= 0))]
        if A is not None:
            cs += [('sector of byte b in an earlier slice',
                    z3.Implies(z3.And(bq < tf, bq < OS(n)),
                               z3.And(KQ >= 0, KQ < n, OS(KQ) <= bq, bq < OS(KQ + 1), A[KQ] + (bq - OS(KQ)) * ss == base + ch.CH(bq) * ss))),
                   ('every slice', slice_ok(A, Bz, n, w)), ('the slice of byte b', slice_ok(A, Bz, n, KQ))]
        return cs

    def body(L):
        tf = T(L['tot_found'])
        L.tf = tf
        L.n0 = arrays(L['slices'])[2]
        ch.step(tf)
        e.assume(z3.And(ch.CH(tf) < nseen, ch.CH(tf) < T(sat.ln)))
        st['q'] = tf
        st['seen'] = z3.Select(seen.arrays[0], ch.CH(tf))

    def end(L):
        n = arrays(L['slices'])[2]
        e.cover('sector')
        e.prove('a sector used before is not accepted', z3.Or(B(ignore), z3.Select(ch.SEEN(L.tf), ch.CH(L.tf)) == 0))
        if e.branch(n == L.n0 + 1):
            e.cover('new slice')
            e.assume(OS(n) == L.tf)                       # definition: the sectors before the new slice
            e.assume(z3.Implies(z3.And(OS(L.n0) <= bq, bq < L.tf), KQ == L.n0))

    it.loop_specs.append(LoopSpec('sectors', names=('slices', 's'), kind='while', inv=inv, kinds=dict(slices=slist), body_hook=body,
                                  variant=lambda L: fl + 1 - T(L['tot_found']), modifies=lambda L: [(seen, None, None)],
                                  exit_hook=lambda L: exitst(L)))
    it.loop_specs[-1].end_hook = end

    def exitst(L):
        A, Bz, n = arrays(L['slices'])
        st.update(n=n, tf=T(L['tot_found']), a=T(L['start_pos']), z=T(L['end_pos']))
        e.assume(st['tf'] == fl)                          # the chain is as long as the size says

    def join(it_, sep, xs):
        n, tf = st['n'], st['tf']
        e.prove('all the slices are joined', z3.And(T(it.length(xs)) == n + 1, z3.BoolVal(sep == b'')))
        e.assume(OS(n + 1) == tf)
        k = z3.If(bq >= OS(n), n, KQ)
        for nm, q in (('every slice is joined whole', w), ('the slice of byte b is joined whole', k)):
            if not e.branch(q <= n):
                continue
            v = it.as_view(it.lift_seq(it.elem(xs, mkint(q))))
            e.prove(nm, T(v.ln) == (OS(q + 1) - OS(q)) * ss)
        v = it.as_view(it.lift_seq(it.elem(xs, mkint(k)))) if e.branch(k <= n) else None
        arr = z3.Array(e.name('joined'), IntS, IntS)
        if v is not None:
            # the definition of joining at one byte; the slices before slice k hold OS(k) sectors (prefix sums of their lengths)
            x = (bq - OS(k)) * ss + bx
            e.assume(z3.Implies(z3.And(x >= 0, x < T(v.ln)), z3.Select(arr, OS(k) * ss + x) == z3.Select(v.arr, T(v.off) + x)))
        return Seq('bytes', arr=arr, off=0, ln=tf * ss)
    e.ghost['join_hook'] = join
    out = it.outcome(Q + 'CompDoc._locate_stream', o, mem, mkint(base), sat, mkint(ss), start, mkint(expected), 'Workbook', mkint(sid))
    if out[0] == 'exc':
        if not exc_is(out, 'CompDocError'):
            return e.fail('a corrupt chain raises CompDocError', repr(out[1]))
        e.cover('corrupt')
        q = st.get('q')
        if q is None:
            e.prove('CompDocError for no first sector', T(start) < 0)
            return
        e.prove('CompDocError only for a corrupt chain', z3.Or(z3.And(st['seen'] != 0, z3.Not(B(ignore))), q >= fl))
        return
    e.cover('located')
    r = out[1]
    e.prove('three results', isinstance(r, tuple) and len(r) == 3)
    v = it.as_view(it.lift_seq(r[0]))
    e.prove('length', T(r[2]) == expected)
    e.assume(z3.Implies(b < expected, bq < fl))            # lemma_prefix: a byte of the first fl sectors
    e.assume(z3.Implies(bq < fl, bq * ss + ss <= fl * ss))
    pos = T(r[1]) + b
    if e.branch(b < expected):
        got = z3.Select(v.arr, z3.simplify(T(v.off) + pos))
        want = z3.Select(mem.arr, T(mem.off) + base + ch.CH(bq) * ss + bx)
        e.prove('every byte', got == want)


def directory(e, name='dir'):
    """a directory: entry d has a name, a type, its first sector, its size and the entries inside it"""
    n = e.int('ndir', lo=1).t
    F = lambda nm, *so: z3.Function(e.name(nm), *so)
    d = dict(NAME=F('dir_name', IntS, Str), ET=F('dir_type', IntS, IntS), FIRST=F('dir_first', IntS, IntS), SIZE=F('dir_size', IntS, IntS),
             L=F('dir_left', IntS, IntS), R=F('dir_right', IntS, IntS), ROOT=F('dir_root', IntS, IntS),
             NKIDS=F('dir_nchildren', IntS, IntS), KIDS=F('dir_children', IntS, ArrII), n=n)
    cache = {}

    def mk(it, i):
        i = z3.simplify(T(i))
        k = i.sexpr()
        if k not in cache:
            kids = SymList('int', [d['KIDS'](i)], d['NKIDS'](i), name='children')
            e.assume(d['NKIDS'](i) >= 0)
            cache[k] = PObj(CD.DirNode, dict(name=SStr(d['NAME'](i)), etype=mkint(d['ET'](i)), first_SID=mkint(d['FIRST'](i)), tot_size=mkint(d['SIZE'](i)),
                                             left_DID=mkint(d['L'](i)), right_DID=mkint(d['R'](i)), root_DID=mkint(d['ROOT'](i)), DID=mkint(i), children=kids,
                                             parent=-1, logfile=None), name='entry')
            cache[k].index = i
        return cache[k]
    l = SymList('objfn', [], n, name='dirlist')
    l.mkobj = mk
    d['list'], d['at'], d['cache'] = l, mk, cache
    return d


def low(t):
    return z3.Function('str_lower()', Str, Str)(t)


def dir_search(e):
    """_dir_search: the first entry of the storage with the name asked for, any case; streams in nested storages by path"""
    it = Interp(e)
    d = directory(e)
    o = PObj(DOC, dict(dirlist=d['list'], logfile=None, DEBUG=0), name='doc')
    npath = e.int('npath', lo=1)
    path = SymList('str', [z3.Array(e.name('path'), IntS, Str)], T(npath), name='path')
    head = z3.Select(path.arrays[0], 0)
    st_did = e.int('storage', lo=0)
    e.assume(T(st_did) < d['n'])
    kids, nk = d['KIDS'](T(st_did)), d['NKIDS'](T(st_did))
    w = T(e.int('w', lo=0))
    calls = []
    sub = PObj(CD.DirNode, {}, name='found below')
    it.contracts[it.resolve(Q + 'DirNode.dump')] = lambda it_, a, k: None

    def rec(it_, a, k):
        calls.append((a[1], a[2] if len(a) > 2 else k.get('storage_DID', 0)))
        return sub
    it.contracts[it.resolve(Q + 'CompDoc._dir_search')] = rec

    def match(i):
        return low(d['NAME'](z3.Select(kids, i))) == low(head)
    st = {}

    def inv(L):
        st['i'] = L.i
        return [('no entry so far has the name', z3.Implies(w < L.i, z3.Not(match(w))))]

    def body(L):
        c = z3.Select(kids, L.i)
        e.assume(z3.And(c >= 0, c < d['n']))
        st['i'] = L.i
    it.loop_specs.append(LoopSpec('entries', kind='for', inv=inv, body_hook=body))
    out = it.outcome(Q + 'CompDoc._dir_search', o, path, st_did)
    i = st['i']
    c = z3.Select(kids, i)
    if out[0] == 'ok' and out[1] is None:
        e.cover('none')
        e.prove('None only when no entry has the name', z3.Implies(w < nk, z3.Not(match(w))))
        return
    e.prove('the entry has the name', z3.And(i < nk, match(i)))
    e.prove('it is the first with that name', z3.Implies(w < i, z3.Not(match(w))))
    if out[0] == 'exc':
        if not exc_is(out, 'CompDocError'):
            return e.fail('only CompDocError', repr(out[1]))
        e.cover('error')
        e.prove('an error only for a storage asked for as a stream, or an entry of another type',
                z3.Or(z3.And(d['ET'](c) == 1, T(npath) == 1), z3.And(d['ET'](c) != 1, d['ET'](c) != 2)))
    elif out[1] is sub:
        e.cover('nested')
        e.prove('the rest of the path is looked up in the storage', z3.And(z3.BoolVal(len(calls) == 1), d['ET'](c) == 1, T(npath) > 1, T(calls[0][1]) == c,
                                                                           T(it.length(calls[0][0])) == T(npath) - 1))
        if e.branch(z3.And(w >= 1, w < T(npath))):
            e.prove('the rest of the path', text(it, it.elem(calls[0][0], mkint(w - 1))) == z3.Select(path.arrays[0], w))
    else:
        e.cover('stream')
        e.prove('a stream is returned', z3.And(d['ET'](c) == 2, z3.BoolVal(isinstance(out[1], PObj) and hasattr(out[1], 'index'))))
        e.prove('the entry itself is returned', out[1].index == c)


def named_stream(meth):
    def unit(e):
        """get_named_stream, locate_named_stream: which chain is read, by the size of the stream"""
        it = Interp(e)
        d = directory(e)
        mem = e.seq('mem', 'bytes', inp=False)
        sscs = e.seq('sscs', 'bytes', inp=False)
        minsize = e.int('min_size_std_stream').t
        dl = e.int('mem_data_len', lo=0).t
        mk = lambda nm: SymList('int', [z3.Array(e.name(nm), IntS, IntS)], T(e.int('n' + nm, lo=0)), name=nm)
        sat, ssat = mk('SAT'), mk('SSAT')
        ss, mss = e.int('sec_size', lo=1), e.int('short_sec_size', lo=1)
        o = PObj(DOC, dict(dirlist=d['list'], logfile=None, DEBUG=0, mem=mem, SSCS=sscs, min_size_std_stream=mkint(minsize), mem_data_len=mkint(dl),
                           SAT=sat, SSAT=ssat, sec_size=ss, short_sec_size=mss, seen=seen_array(e, T(e.int('nseen', lo=0)))), name='doc')
        q = e.str('qname')
        did = T(e.int('did', lo=0))
        node = d['at'](it, did)
        absent = e.choose('absent')
        calls = []
        res = {}

        def search(it_, a, k):
            e.prove('the name is looked up from the root', (len(a) < 3 or cint(a[2]) == 0) and not k)
            pth = a[1]
            t = text(it, q)
            e.prove('path', z3.And(T(it.length(pth)) == z3.Function("str_split_count('/')", Str, IntS)(t),
                                   pth.arrays[0] == z3.Function("str_split('/')", Str, z3.ArraySort(IntS, Str))(t)))
            calls.append('search')
            return None if absent else node

        def chain(nm, names):
            def f(it_, a, k):
                dd = dict(zip(names, a[1:]))
                dd.update(k)
                calls.append((nm, dd))
                res[nm] = (e.seq('result', 'bytes', inp=False) if nm == 'get' else
                           (e.seq('result', 'bytes', inp=False), e.int('pos'), e.int('len')))
                return res[nm]
            return f
        it.contracts[it.resolve(Q + 'CompDoc._dir_search')] = search
        it.contracts[it.resolve(Q + 'CompDoc._get_stream')] = chain('get', ['mem', 'base', 'sat', 'sec_size', 'start_sid', 'size', 'name', 'seen_id'])
        it.contracts[it.resolve(Q + 'CompDoc._locate_stream')] = chain('locate', ['mem', 'base', 'sat', 'sec_size', 'start_sid', 'expected_stream_size', 'qname', 'seen_id'])
        out = it.outcome(Q + 'CompDoc.' + meth, o, q)
        size, first = d['SIZE'](did), d['FIRST'](did)
        if out[0] == 'exc':
            e.prove('refused only when longer than the file', z3.And(z3.BoolVal(exc_is(out, 'CompDocError') and meth[0] == 'l' and not absent), size > dl))
            e.cover('too long')
            return
        r = out[1]
        if absent:
            e.cover('absent')
            if meth[0] == 'g':
                return e.prove('absent stream', r is None)
            return e.prove('absent stream', isinstance(r, tuple) and len(r) == 3 and r[0] is None and cint(r[1]) == 0 and cint(r[2]) == 0)
        e.prove('one chain is read', len(calls) == 2 and calls[0] == 'search')
        nm, a = calls[1]
        std = z3.Not(size < minsize)
        big = a['sat'] is sat
        e.cover('standard' if big else 'short')
        e.prove('standard streams are those of at least the minimum size', std if big else z3.Not(std))
        if meth[0] == 'l':
            e.prove('not longer than the file', size <= dl)
        if big:
            e.prove('standard chain', z3.And(z3.BoolVal(a['mem'] is mem and nm == ('get' if meth[0] == 'g' else 'locate')), T(a['base']) == 512, T(a['sec_size']) == T(ss)))
            e.prove('sectors are marked', z3.And(z3.BoolVal(a.get('seen_id') is not None), T(a.get('seen_id')) != 0))
        else:
            e.prove('short chain', z3.And(z3.BoolVal(a['mem'] is sscs and nm == 'get' and a['sat'] is ssat and a.get('seen_id') is None), T(a['base']) == 0, T(a['sec_size']) == T(mss)))
        sz = a['size'] if nm == 'get' else a['expected_stream_size']
        e.prove('first sector and size', z3.And(T(a['start_sid']) == first, T(sz) == size))
        if nm == 'get' and meth[0] == 'l':
            e.prove('result', z3.And(z3.BoolVal(isinstance(r, tuple) and r[0] is res['get']), T(r[1]) == 0, T(r[2]) == size))
        else:
            e.prove('result', r is res[nm])
    return named(unit, meth)


def dir_node(e):
    """DirNode: the fields of a directory entry"""
    it = Interp(e)
    it.strict_decode = False
    dent = e.seq('dent', 'bytes', ln=None, inp=True)
    e.assume(T(dent.ln) == 128)
    o = PObj(CD.DirNode, {}, name='node')
    did = e.int('did', lo=0)
    cb = u16(e, dent, 64)
    e.assume(z3.Or(cb == 0, z3.And(cb >= 2, cb <= 64)))
    noexc(e, it.outcome(Q + 'DirNode.__init__', o, did, dent, 0, None))
    a = o.attrs
    for nm, want in (('DID', T(did)), ('etype', byte(e, dent, 66)), ('left_DID', i32(e, dent, 68)), ('right_DID', i32(e, dent, 72)),
                     ('root_DID', i32(e, dent, 76)), ('first_SID', i32(e, dent, 116)), ('tot_size', i32(e, dent, 120))):
        e.prove(nm, T(a[nm]) == want)
    e.prove('no children yet', isinstance(a['children'], PList) and not a['children'].items)
    if e.branch(cb == 0):
        e.prove('name', a['name'] == '')
    else:
        e.cover('named')
        e.prove('name', z3.Or(text(it, a['name']) == decoded(e, 'utf_16_le', dent, 0, cb - 2), z3.And(cb == 2, text(it, a['name']) == strlit(''))))


def family_tree(e):
    """_build_family_tree: the siblings left of an entry, the entry, the siblings right of it, and the entries of a storage inside that storage"""
    it = Interp(e)
    d = directory(e)
    parent, child = e.int('parent', lo=0), e.int('child')
    e.assume(z3.And(T(parent) < d['n'], T(child) < d['n']))
    ev = []

    def rec(it_, a, k):
        ev.append(('tree', a[0], T(a[1]), T(a[2])))
    f = it.resolve(Q + '_build_family_tree')
    it.contracts[f] = rec
    for x in (T(parent), T(child)):
        nd = d['at'](it, x)
        kids = nd.attrs['children'] = PObj(None, {}, name='children')
        kids.attrs['append'] = SpecFn(lambda it_, a, k, nd=nd: ev.append(('append', nd, T(a[-1]))))

    def wh(o, attr):
        if attr == 'parent' and isinstance(o, PObj):
            ev.append(('parent', o))
    e.ghost['write_hook'] = wh
    noexc(e, it.outcome(Q + '_build_family_tree', d['list'], parent, child))
    c, p = T(child), T(parent)
    if e.must(c < 0):
        e.cover('none')
        return e.prove('nothing for no entry', len(ev) == 0)
    e.cover('entry')
    e.prove('there is an entry', c >= 0)
    nd = d['at'](it, c)
    order = [x for x in ev if x[0] in ('tree', 'append')]
    e.prove('left siblings, the entry, right siblings', len(order) >= 3 and [x[0] for x in order[:3]] == ['tree', 'append', 'tree'])
    e.prove('left', z3.And(z3.BoolVal(order[0][1] is d['list']), order[0][2] == p, order[0][3] == d['L'](c)))
    e.prove('entry', z3.And(order[1][1].index == p, order[1][2] == c))
    e.prove('right', z3.And(z3.BoolVal(order[2][1] is d['list']), order[2][2] == p, order[2][3] == d['R'](c)))
    e.prove('parent', T(nd.attrs['parent']) == p)
    if e.branch(d['ET'](c) == 1):
        e.cover('storage')
        e.prove('the entries of a storage', len(order) == 4 and order[3][0] == 'tree')
        e.prove('inside', z3.And(order[3][2] == c, order[3][3] == d['ROOT'](c)))
    else:
        e.prove('nothing inside other entries', len(order) == 3)


def header(e):
    """CompDoc(): a file without the signature or the byte order mark is not accepted"""
    it = Interp(e)
    mem = e.seq('mem', 'bytes', inp=False)
    e.assume(T(mem.ln) >= 512)
    o = PObj(DOC, {}, name='doc')

    ok = z3.And(*[byte(e, mem, i) == x for i, x in enumerate(CD.SIGNATURE)] + [byte(e, mem, 28) == 0xFE, byte(e, mem, 29) == 0xFF])
    e.assume(z3.And(u16(e, mem, 30) <= 20, u16(e, mem, 32) <= u16(e, mem, 30)))
    e.ghost['shl_hook'] = lambda it_, a, b: it_.throw(KeyError, 'accepted')
    out = it.outcome(Q + 'CompDoc.__init__', o, mem, None)
    e.prove('an exception', out[0] == 'exc')
    if exc_is(out, 'KeyError'):
        e.cover('accepted')
        return e.prove('the file has the signature', ok)
    e.cover('refused')
    e.prove('refused with CompDocError only without the signature', z3.And(z3.BoolVal(exc_is(out, 'CompDocError')), z3.Not(ok)))


def init(ext):
    def unit(e):
        """CompDoc(): the allocation table, the directory, the short streams and their table, out of the header's sector chains"""
        it = Interp(e)
        mem = e.seq('mem', 'bytes', inp=False)
        o = PObj(DOC, {}, name='doc')
        it.contracts[it.resolve(Q + 'dump_list')] = lambda it_, a, k: None
        e.assume(z3.And(*[byte(e, mem, i) == x for i, x in enumerate(CD.SIGNATURE)] + [byte(e, mem, 28) == 0xFE, byte(e, mem, 29) == 0xFF]))
        nent = T(e.int('entries_per_sector', lo=32))
        ss = 4 * nent
        e.assume(T(mem.ln) >= 512)
        ssz, sssz = u16(e, mem, 30), u16(e, mem, 32)
        e.assume(z3.And(ssz >= 7, ssz <= 20, sssz <= ssz))
        POW2 = z3.Function('two_to_the', IntS, IntS)
        e.assume(POW2(ssz) == ss)                        # ssz >= 7: the sector size is a multiple of 4, at least 128

        def shl(it_, a, b):
            e.prove('sizes are powers of two', cint(a) == 1)
            e.assume(POW2(T(b)) >= 1)
            return mkint(z3.If(T(b) == ssz, ss, POW2(T(b))))
        e.ghost['shl_hook'] = shl
        nmem = T(mem.ln)
        nsec = T(e.int('sectors', lo=0))
        e.assume(z3.And((nsec - 1) * ss < nmem - 512, nmem - 512 <= nsec * ss))     # rounded up
        x1, nx = i32(e, mem, 68), i32(e, mem, 72)
        noext = z3.And(nx == 0, z3.Or(x1 == -2, x1 == -1, x1 == 0))
        e.assume(noext if not ext else z3.Not(noext))
        # ---- definitions
        F = lambda nm, *so: z3.Function(e.name(nm), *so)
        X, MS, U, CNT = F('msat_sector', IntS, IntS), F('msat', IntS, IntS), F('sat_sector', IntS, IntS), F('sat_sectors_before', IntS, IntS)
        M1, M2, M5 = (F(nm, IntS, IntS, BoolS) for nm in ('in_msat_chain', 'in_sat', 'in_ssat_chain'))
        DIRM = F('in_directory', IntS, BoolS)
        SSCSM = F('in_sscs', IntS, BoolS)
        Y = F('ssat_sector', IntS, IntS)
        at = lambda off: sle32(mem, off)
        e.assume(z3.And(X(0) == x1, CNT(0) == 0, Y(0) == i32(e, mem, 60)))
        w, w2, w3, zz = (T(e.int(nm, lo=0)) for nm in ('w', 'w2', 'w3', 'z'))
        # MSAT entry w: of the header, or entry y of extension sector x (the last entry of a sector leads to the next)
        wx, wy = T(e.int('wx', lo=0)), T(e.int('wy', lo=0))
        e.assume(z3.Implies(w >= 109, z3.And(w - 109 == wx * (nent - 1) + wy, wy < nent - 1)))
        e.assume(MS(w) == z3.If(w < 109, at(76 + 4 * w), at(512 + ss * X(wx) + 4 * wy)))
        # SAT entry w2: entry y of the x'th sector of the table
        ux, uy = T(e.int('ux', lo=0)), T(e.int('uy', lo=0))
        e.assume(z3.And(w2 == ux * nent + uy, uy < nent))
        # SSAT entry w3
        vx, vy = T(e.int('vx', lo=0)), T(e.int('vy', lo=0))
        e.assume(z3.And(w3 == vx * nent + vy, vy < nent))
        for m in (M1, M2, M5):
            e.assume(z3.Not(m(0, zz)))
        st = dict(phase='msat')

        def insec(s):
            """a sector of the file, whole"""
            return z3.And(s >= 0, s < nsec, 512 + ss * s + ss <= nmem)

        def lst(nm, key=None):
            def f(L=None):
                return SymList('int', [z3.Array(e.name(nm), IntS, IntS)], T(e.int('len_' + nm, lo=0)), name=nm)
            return f

        def al(l):
            if isinstance(l, PList):
                if l.items:
                    raise Unsupported('a list of known entries')
                return None, z3.IntVal(0)
            return l.arrays[0], T(l.ln)
        seen = lambda: o.attrs['seen']
        sarr = lambda: seen().arrays[0]
        fixed = lambda: ('sectors of the file', T(seen().ln) == nsec)

        def once():
            e.prove('a sector is not used twice', st['pre'] == 0)
        # ---- 1: extension sectors of the MSAT

        def inv1(L):
            q = T(L['actual_MSATX_sectors'])
            A, n = al(L['MSAT'])
            st['q'] = q
            return [('sector', z3.And(T(L['sid']) == X(q), q >= 0)), ('length of the MSAT', n == 109 + q * (nent - 1)), ('MSAT entry', z3.Implies(w < n, A[w] == MS(w))),
                    fixed(), ('sectors used', (z3.Select(sarr(), zz) != 0) == M1(q, zz))]

        def body1(L):
            q = st['q']
            s = X(q)
            st['s'], st['pre'] = s, z3.Select(sarr(), s)
            e.assume(z3.Implies(s < nsec, insec(s)))
            e.assume(z3.And(s >= 0))
            e.assume((z3.Select(sarr(), s) != 0) == M1(q, s))         # the invariant, at this sector
            e.assume(M1(q + 1, zz) == z3.Or(M1(q, zz), zz == s))
            e.assume(X(q + 1) == at(512 + ss * s + 4 * (nent - 1)))
            e.assume(z3.Implies(w >= 109, z3.And((w < 109 + q * (nent - 1)) == (wx < q), (w < 109 + (q + 1) * (nent - 1)) == (wx < q + 1))))
            e.assume((q + 1) * (nent - 1) == q * (nent - 1) + nent - 1)
        it.loop_specs.append(LoopSpec('extension sectors', names=('MSAT', 'sid', 'actual_MSATX_sectors'), kind='while', inv=inv1, body_hook=body1,
                                      match=lambda it_, node, fr: 'msidx' not in fr.vars and 'sscs_dir' not in fr.vars,
                                      modifies=lambda L: [(seen(), None, None), (L['MSAT'], None, None)]))
        it.loop_specs[-1].end_hook = lambda L: (e.cover('extension sector'), once())

        # ---- 2: the SAT
        def used(i):
            return z3.And(MS(i) != -1, MS(i) != -2, MS(i) < nsec)

        def ent2(L):
            st['phase'] = 'sat'
            A, n = al(L['MSAT'])
            if ext and 'q' not in st:
                return e.fail('the chain of extension sectors is read', 'it is not')
            q = z3.IntVal(0) if not ext else st['q']
            st['n1'] = q
            st['msat'] = A
            e.prove('MSAT entries', z3.And(n == 109 + q * (nent - 1), z3.Implies(w < n, A[w] == MS(w))))
            if ext:
                e.prove('the chain of extension sectors is followed to its end', z3.Or(X(q) == -1, X(q) == -2, X(q) == -4))
                e.cover('extension sectors read')

        def inv2(L):
            i = L.i
            A, n = al(o.attrs['SAT'])
            st['i'] = i
            cs = [('length of the SAT', n == CNT(i) * nent), ('sectors of the SAT', CNT(i) >= 0), fixed(),
                  ('sectors used', (z3.Select(sarr(), zz) != 0) == z3.Or(M1(st['n1'], zz), M2(i, zz))),
                  ('the rest of the MSAT is as read', z3.Implies(w >= i, al(L['MSAT'])[0][w] == st['msat'][w])), ('MSAT', al(L['MSAT'])[1] == 109 + st['n1'] * (nent - 1))]
            if A is not None:
                cs.append(('SAT entry', z3.Implies(ux < CNT(i), A[w2] == at(512 + ss * U(ux) + 4 * uy))))
            return cs

        def body2(L):
            i = L.i
            s = MS(i)
            A, n = al(L['MSAT'])
            e.assume(A[i] == s)                               # MSAT entries, at entry i
            e.assume(z3.Or(s == -1, s == -2, z3.And(s >= 0, z3.Implies(s < nsec, insec(s)))))
            e.assume(z3.Implies(used(i), U(CNT(i)) == s))
            e.assume(CNT(i + 1) == z3.If(used(i), CNT(i) + 1, CNT(i)))
            e.assume(z3.Implies(used(i), (CNT(i) + 1) * nent == CNT(i) * nent + nent))
            e.assume(z3.Implies(z3.Not(used(i)), CNT(i + 1) == CNT(i)))
            e.assume((z3.Select(sarr(), s) != 0) == z3.Or(M1(st['n1'], s), M2(i, s)))
            e.assume(M2(i + 1, zz) == z3.Or(M2(i, zz), z3.And(used(i), zz == s)))
            # entry w2 is in sector ux
            e.assume((w2 < CNT(i) * nent) == (ux < CNT(i)))
            st['s'], st['pre'] = s, z3.Select(sarr(), s)

        def exit2(L):
            st['n2'] = L.n
        it.loop_specs.append(LoopSpec('sectors of the SAT', exit_hook=exit2, names=('MSAT',), kind='for', inv=inv2, body_hook=body2, entry_hook=ent2,
                                      match=lambda it_, node, fr: 'dirlist' not in fr.vars,
                                      kinds={}, modifies=lambda L: [(seen(), None, None), (o, 'SAT', lst('SAT')), (L['MSAT'], None, None)]))
        it.loop_specs[-1].end_hook = lambda L: e.cover('used') or once() if e.branch(used(L.i - 1)) else e.cover('unused')

        # ---- 3: the directory
        dbytes, sscs = e.seq('directory', 'bytes', inp=False), e.seq('sscs', 'bytes', inp=False)
        ndir = T(e.int('ndir', lo=1))
        e.assume(T(dbytes.ln) == 128 * ndir)
        root = dict(etype=e.int('root_type'), first_SID=e.int('root_first'), tot_size=e.int('root_size'), root_DID=e.int('root_root'))
        e.assume(z3.And(T(root['etype']) == 5, T(root['first_SID']) >= -2))
        nodes = {}

        def node(i):
            i = z3.simplify(T(i))
            if i.sexpr() not in nodes:
                n = PObj(CD.DirNode, {}, name='entry')
                n.index = i
                if cint(mkint(i)) == 0:
                    n.attrs.update(root)
                nodes[i.sexpr()] = n
            return nodes[i.sexpr()]

        def mknode(it_, a, k):
            v = it.as_view(it.lift_seq(a[1]))
            i = z3.simplify(T(a[0]))
            e.prove('a directory entry is its 128 bytes', z3.And(v.arr == dbytes.arr, T(v.off) == T(dbytes.off) + 128 * i, T(v.ln) == 128))
            return node(i)
        it.contracts[it.resolve(Q + 'DirNode')] = mknode

        def dlist(L):
            l = SymList('objfn', [], T(e.int('nentries', lo=0)), name='dirlist')
            l.mkobj = lambda it_, i: node(i)
            return l

        def inv3(L):
            l = L['dirlist']
            n = z3.IntVal(len(l.items)) if isinstance(l, PList) else T(l.ln)
            return [('entry', z3.And(T(L['did']) == L.i - 1)), ('entries', n == L.i)]

        def end3(L):
            app = list(getattr(L['dirlist'], 'appended', ()) or ())
            e.cover('directory entry')
            e.prove('an entry is added at a time', len(app) == 1 and hasattr(app[0], 'index'))
            e.prove('the entry', app[0].index == L.i - 1)
        it.loop_specs.append(LoopSpec('directory', names=('dirlist', 'dbytes'), kind='for', inv=inv3, kinds=dict(dirlist=dlist),
                                      match=lambda it_, node, fr: 'sscs_dir' not in fr.vars))
        it.loop_specs[-1].end_hook = end3
        calls = []

        def gets(it_, a, k):
            d = dict(zip(['mem', 'base', 'sat', 'sec_size', 'start_sid', 'size', 'name', 'seen_id'], a[1:]))
            d.update(k)
            calls.append(d)
            e.prove('chains are read from the file', z3.And(z3.BoolVal(d['mem'] is mem and d['sat'] is o.attrs['SAT']), T(d['base']) == 512, T(d['sec_size']) == ss))
            e.prove('sectors are marked', z3.And(z3.BoolVal(d.get('seen_id') is not None), T(d.get('seen_id')) != 0))
            mark = DIRM if len(calls) == 1 else SSCSM
            new = z3.Array(e.name('seen'), IntS, IntS)
            e.assume((z3.Select(new, zz) != 0) == z3.Or(z3.Select(sarr(), zz) != 0, mark(zz)))
            st.setdefault('marks', []).append((new, sarr(), mark))
            seen().arrays[0] = new
            return dbytes if len(calls) == 1 else sscs
        it.contracts[it.resolve(Q + 'CompDoc._get_stream')] = gets
        tree = []
        it.contracts[it.resolve(Q + '_build_family_tree')] = lambda it_, a, k: tree.append(a)

        # ---- 4: the SSAT
        def before(s):
            return z3.Or(M1(st['n1'], s), M2(st['n2'], s), DIRM(s), *([SSCSM(s)] if len(calls) > 1 else []))

        def ent4(L):
            st['phase'] = 'ssat'

        def inv4(L):
            A, n = al(o.attrs['SSAT'])
            q = ns - T(L['nsecs'])
            st['q4'] = q
            cs = [('sector', z3.And(T(L['sid']) == Y(q), q >= 0, z3.Or(ns < 0, T(L['nsecs']) >= 0))), ('length of the SSAT', n == q * nent), fixed(),
                  ('sectors used', (z3.Select(sarr(), zz) != 0) == z3.Or(before(zz), M5(q, zz)))]
            if A is not None:
                cs.append(('SSAT entry', z3.Implies(vx < q, A[w3] == at(512 + ss * Y(vx) + 4 * vy))))
            return cs
        ns = i32(e, mem, 64)

        def body4(L):
            q = st['q4']
            s = Y(q)
            SA = o.attrs['SAT']
            e.assume(z3.And(insec(s), s < T(SA.ln)))
            e.assume((z3.Select(sarr(), s) != 0) == z3.Or(before(s), M5(q, s)))
            e.assume(Y(q + 1) == z3.Select(SA.arrays[0], s))
            e.assume(M5(q + 1, zz) == z3.Or(M5(q, zz), zz == s))
            e.assume((q + 1) * nent == q * nent + nent)
            e.assume((w3 < q * nent) == (vx < q))
            st['s'], st['pre'] = s, z3.Select(sarr(), s)
        it.loop_specs.append(LoopSpec('sectors of the SSAT', names=('sid', 'nsecs', 'sscs_dir'), kind='while', inv=inv4, body_hook=body4, entry_hook=ent4,
                                      variant=lambda L: T(L['nsecs']), modifies=lambda L: [(seen(), None, None), (o, 'SSAT', lst('SSAT'))]))
        it.loop_specs[-1].end_hook = lambda L: (e.cover('short table sector'), once())

        out = it.outcome(Q + 'CompDoc.__init__', o, mem, None)
        if out[0] == 'exc':
            s = st.get('s')
            if exc_is(out, 'AssertionError'):
                e.cover('assertion')
                q = st.get('q4')
                e.prove('AssertionError only for a table of another length', st['phase'] == 'ssat' and q is not None)
                return e.prove('the chain is not as long as the header says', z3.Or(ns < 0, z3.And(q < ns, Y(q) < 0), z3.And(q == ns, Y(q) != -2)))
            if not exc_is(out, 'CompDocError'):
                return e.fail('a corrupt file raises CompDocError', repr(out[1]))
            e.cover('corrupt: ' + st['phase'])
            why = dict(msat=lambda: z3.Or(M1(st['q'], s), s >= nsec), sat=lambda: z3.Or(M1(st['n1'], s), M2(st['i'], s)),
                       ssat=lambda: z3.Or(before(s), M5(st['q4'], s)))[st['phase']]
            e.prove('CompDocError only for a sector used twice or beyond the end of the file', why())
            return
        e.cover('read')
        return finish(e, it, o, locals())

    def finish(e, it, o, v):
        a = o.attrs
        st, calls, tree, mem, ss, nent, ns = (v[x] for x in ('st', 'calls', 'tree', 'mem', 'ss', 'nent', 'ns'))
        root, POW2, sssz, nmem = v['root'], v['POW2'], v['sssz'], v['nmem']
        e.prove('the file', a['mem'] is mem)
        e.prove('sector sizes', z3.And(T(a['sec_size']) == ss, T(a['short_sec_size']) == z3.If(sssz == v['ssz'], ss, POW2(sssz))))
        e.prove('minimum size', T(a['min_size_std_stream']) == i32(e, mem, 56))
        e.prove('data length', T(a['mem_data_len']) == nmem - 512)
        e.prove('the directory chain is read whole', T(calls[0]['start_sid']) == i32(e, mem, 48) if calls[0].get('size') is None else False)
        e.prove('the directory', it.length(a['dirlist']) is not None and T(it.length(a['dirlist'])) == v['ndir'])
        e.prove('the tree', len(tree) == 1 and tree[0][0] is a['dirlist'] and cint(tree[0][1]) == 0 and tree[0][2] is root['root_DID'])
        empty = z3.Or(T(root['first_SID']) < 0, T(root['tot_size']) == 0)
        if len(calls) == 1:
            e.cover('no short streams')
            e.prove('no short streams', z3.And(empty, T(it.length(a['SSCS'])) == 0))
        else:
            e.prove('the short streams', z3.And(z3.Not(empty), z3.BoolVal(a['SSCS'] is v['sscs']), T(calls[1]['start_sid']) == T(root['first_SID']),
                                                T(calls[1]['size']) == T(root['tot_size']) if calls[1].get('size') is not None else z3.BoolVal(False)))
        A = a['SSAT']
        if isinstance(A, PList):
            e.prove('no short stream table', z3.And(z3.BoolVal(not A.items), T(root['tot_size']) <= 0))
        else:
            e.cover('short stream table')
            e.prove('short stream table', z3.And(T(A.ln) == ns * nent, v['Y'](ns) == -2))
            e.prove('short stream table entry', z3.Implies(v['vx'] < ns, z3.Select(A.arrays[0], v['w3']) == v['at'](512 + ss * v['Y'](v['vx']) + 4 * v['vy'])))
        SA = a['SAT']
        n = 109 + st['n1'] * (nent - 1)
        e.prove('allocation table', T(SA.ln) == v['CNT'](n) * nent)
        e.prove('allocation table entry', z3.Implies(v['ux'] < v['CNT'](n), z3.Select(SA.arrays[0], v['w2']) == v['at'](512 + ss * v['U'](v['ux']) + 4 * v['uy'])))
    return named(unit, 'CompDoc[%s]' % ('extension sectors' if ext else 'no extension'))


C11 = [lemma_prefix(0), lemma_prefix(1), get_stream(0, 1), get_stream(1, 1), get_stream(1, 0), locate_stream, dir_search,
       named_stream('get_named_stream'), named_stream('locate_named_stream'), dir_node, family_tree, header, init(0), init(1)]
