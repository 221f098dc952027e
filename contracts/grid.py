"""Contracts on the cell grid of a Sheet: put_cell / tidy_dimensions (C07), accessors (C09),
cell_xf_index (C10)."""
from .common import *
import xlrd.sheet
import xlrd.book

SHEET = xlrd.sheet.Sheet
S = 'xlrd.sheet.Sheet.'


def rows_list(e, etype, n, name):
    if etype == 'int':
        a = z3.Array(e.name(name), IntS, z3.ArraySort(IntS, IntS))
    else:
        a = z3.Array(e.name(name), IntS, z3.ArraySort(IntS, PV))
    return SymList(('list', etype), [a, z3.Array(e.name(name + '.len'), IntS, IntS)], n, name=name)


class Grid(object):
    """a sheet in an arbitrary state satisfying the grid invariant; rows of interest are
    instantiated explicitly"""

    def __init__(self, e, it, ragged, fmt, maxrows=65536):
        self.e, self.it, self.ragged, self.fmt = e, it, ragged, fmt
        self.nrows = e.int('nrows', lo=0, hi=maxrows, inp=True)
        self.ncols = e.int('ncols', lo=0, hi=256, inp=True)
        self.types = rows_list(e, 'int', self.nrows.t, 'types')
        self.values = rows_list(e, 'pv', self.nrows.t, 'values')
        self.xfs = rows_list(e, 'int', self.nrows.t, 'xfs') if fmt else PList([])
        self.first = e.int('first_full', lo=-2, inp=True)
        xmap = PDict()
        self.xmap = z3.Function(e.name('xf_type'), IntS, IntS)
        xmap.base = lambda eng, k: (True, SInt(self.xmap(T(k))))
        bt = PList([0])
        bf = PList([-1])
        bt.is_array = bf.is_array = True
        self.o = PObj(SHEET, dict(
            nrows=self.nrows, ncols=self.ncols, _cell_types=self.types, _cell_values=self.values,
            _cell_xf_indexes=self.xfs, formatting_info=int(fmt), ragged_rows=ragged, verbosity=0, logfile=None,
            bt=bt, bf=bf, utter_max_rows=maxrows, utter_max_cols=256, _first_full_rowx=self.first,
            _xf_index_to_xl_type_map=xmap, number=0, name='S', _dimnrows=e.int('dimr'), _dimncols=e.int('dimc'),
            merged_cells=PList([]), _maxdatarowx=-1, _maxdatacolx=-1), name='sheet')
        self.o.attrs['put_cell'] = BoundMethod(it.resolve(S + ('put_cell_ragged' if ragged else 'put_cell_unragged')), self.o)
        e.assume(z3.Implies(self.nrows.t == 0, z3.BoolVal(True)))

    def cur(self, attr):
        return T(self.o.attrs[attr])

    def length(self, r):
        return z3.Select(self.types.arrays[1], T(r))

    def row_ok(self, r):
        """invariant of row r (any r)"""
        L = self.length(r)
        nr, nc, F = self.cur('nrows'), self.cur('ncols'), self.cur('_first_full_rowx')
        c = [L >= 0, L <= nc, z3.Select(self.values.arrays[1], T(r)) == L]
        if self.fmt:
            c.append(z3.Select(self.xfs.arrays[1], T(r)) == L)
        if not self.ragged:
            c.append(z3.Implies(z3.And(F != -2, T(r) >= F), L == nc))
        return z3.Implies(z3.And(T(r) >= 0, T(r) < nr), z3.And(*c))

    def glob_ok(self):
        c = [T(self.types.ln) == self.cur('nrows'), T(self.values.ln) == self.cur('nrows'),
             self.cur('nrows') <= self.o.attrs['utter_max_rows'], self.cur('ncols') <= 256, self.cur('ncols') >= 0,
             self.cur('_first_full_rowx') >= -2]
        if self.fmt:
            c.append(T(self.xfs.ln) == self.cur('nrows'))
        if not self.ragged:
            c.append(self.cur('_first_full_rowx') < z3.If(self.cur('nrows') > 0, self.cur('nrows'), 1))
        return z3.And(*c)

    def view(self, r, c):
        """(type, value, xf) of the abstract grid; empty outside the stored cells"""
        r, c = T(r), T(c)
        inside = z3.And(r >= 0, r < self.cur('nrows'), c >= 0, c < self.length(r))
        t = z3.If(inside, z3.Select(z3.Select(self.types.arrays[0], r), c), 0)
        v = z3.If(inside, z3.Select(z3.Select(self.values.arrays[0], r), c), PV.pvstr(strlit('')))
        if self.fmt:
            x = z3.If(inside, z3.Select(z3.Select(self.xfs.arrays[0], r), c), -1)
        else:
            x = z3.IntVal(-1)
        return t, v, x

    def snapshot(self):
        g = Grid.__new__(Grid)
        g.__dict__.update(self.__dict__)
        g.types, g.values = copy_list(self.types), copy_list(self.values)
        g.xfs = copy_list(self.xfs) if self.fmt else self.xfs
        g.o = PObj(SHEET, dict(self.o.attrs))
        return g


def copy_list(l):
    return SymList(l.etype, list(l.arrays), l.ln, name=l.name)


def vmatch(e, it, fr):
    return True


def append_spec(g, old, rows, qc):
    """invariant of the loop(s) that append new rows to the grid"""
    e = g.e
    lists = [g.types, g.values] + ([g.xfs] if g.fmt else [])

    def inv(L):
        out = []
        for l, o, dflt, nm in zip(lists, [old.types, old.values, old.xfs],
                                  (z3.IntVal(0), PV.pvstr(strlit('')), z3.IntVal(-1)), ('types', 'values', 'xfs')):
            out.append((nm + ' length', T(l.ln) == old.cur('nrows') + L.i))
            nc = z3.IntVal(0) if g.ragged else g.cur('ncols')
            for j, r in enumerate(rows):
                r = T(r)
                out.append(('%s row %d kept' % (nm, j), z3.Implies(z3.And(r >= 0, r < old.cur('nrows')), z3.And(
                    z3.Select(l.arrays[0], r) == z3.Select(o.arrays[0], r),
                    z3.Select(l.arrays[1], r) == z3.Select(o.arrays[1], r)))))
                new = z3.And(r >= old.cur('nrows'), r < T(l.ln))
                out.append(('%s row %d new' % (nm, j), z3.Implies(new, z3.Select(l.arrays[1], r) == nc)))
                out.append(('%s row %d new cells' % (nm, j), z3.Implies(z3.And(new, qc >= 0, qc < nc),
                                                                       z3.Select(z3.Select(l.arrays[0], r), qc) == dflt)))
        return out

    def mods(L):
        r = []
        for l in lists:
            r += [(l, None, None), (l, '*', 'keep')]
        return r
    return LoopSpec('append rows', names=('self', 'rowx'), inv=inv, kind='for', modifies=mods)


def u_put(ragged, fmt, ctype_none):
    def unit(e):
        it = Interp(e)
        g = Grid(e, it, ragged, fmt)
        rowx, colx = e.int('rowx', lo=0, hi=65535, inp=True), e.int('colx', lo=0, hi=255, inp=True)
        xf = e.int('xf', lo=-1, hi=32767, inp=True)
        ct = None if ctype_none else e.int('ctype', lo=0, hi=6, inp=True)
        val = SVal(z3.Const(e.name('value'), PV))
        qr, qc = e.int('qr', lo=0, inp=True), e.int('qc', lo=0, inp=True)
        rows = [rowx.t, qr.t]
        e.assume(g.glob_ok())
        for r in rows:
            e.assume(g.row_ok(r))
        old = g.snapshot()
        it.loop_specs.append(append_spec(g, old, rows, qc.t))
        out = it.outcome(S + ('put_cell_ragged' if ragged else 'put_cell_unragged'), g.o, rowx, colx, ct, val, xf)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        e.cover('returns')
        e.prove('grid invariant', g.glob_ok())
        for j, r in enumerate(rows):
            e.prove('row invariant %d' % j, g.row_ok(r))
        o = old
        e.prove('nrows', g.cur('nrows') == z3.If(o.cur('nrows') > rowx.t, o.cur('nrows'), rowx.t + 1))
        e.prove('ncols', g.cur('ncols') == z3.If(o.cur('ncols') > colx.t, o.cur('ncols'), colx.t + 1))
        wt = g.xmap(xf.t) if ctype_none else ct.t
        a, b = g.view(rowx, colx), (wt, val.t, xf.t if fmt else z3.IntVal(-1))
        for nm, x, y in zip(('type', 'value', 'xf'), a, b):
            e.prove('stored ' + nm, x == y)
        e.prove('cell stored', z3.And(rowx.t < g.cur('nrows'), colx.t < g.length(rowx)))
        hit = z3.And(qr.t == rowx.t, qc.t == colx.t)
        for nm, x, y in zip(('type', 'value', 'xf'), g.view(qr, qc), old.view(qr, qc)):
            e.prove('other cells kept: ' + nm, z3.Or(hit, x == y))
        if ragged:
            ol, nl = old.length(qr), g.length(qr)
            inr = z3.And(qr.t < o.cur('nrows'))
            e.prove('row length', z3.Implies(qr.t < g.cur('nrows'),
                                             nl == z3.If(qr.t == rowx.t,
                                                         z3.If(z3.And(inr, ol > colx.t), ol, colx.t + 1),
                                                         z3.If(inr, ol, 0))))
        e.expect_covers('returns')
    return named(unit, 'put_cell_%s[fmt %d%s]' % ('ragged' if ragged else 'unragged', fmt, ', number' if ctype_none else ''))


def put_contract(g, rows, qc, log):
    """callee contract of put_cell (discharged by u_put): havoc the grid, assume the postcondition"""
    e = g.e

    def c(it, a, k):
        self, rowx, colx, ctype, value, xf = a
        e.prove('pre:put_cell row', z3.And(T(rowx) >= 0, T(rowx) < self.attrs['utter_max_rows']))
        e.prove('pre:put_cell col', z3.And(T(colx) >= 0, T(colx) < 256))
        log.append(a)
        old = g.snapshot()
        lists = [g.types, g.values] + ([g.xfs] if g.fmt else [])
        for l in lists:
            it.touch(l)
            it.havoc_symlist(l)
        for at in ('nrows', 'ncols', '_first_full_rowx'):
            it.touch(self, at)
            self.attrs[at] = e.int(at)
        e.assume(g.glob_ok())
        for r in rows:
            e.assume(g.row_ok(r))
        R, C = T(rowx), T(colx)
        e.assume(g.cur('nrows') == z3.If(old.cur('nrows') > R, old.cur('nrows'), R + 1))
        e.assume(g.cur('ncols') == z3.If(old.cur('ncols') > C, old.cur('ncols'), C + 1))
        e.assume(z3.And(R < g.cur('nrows'), C < g.length(R)))
        from pyvc.ops import elem_term
        w = (T(ctype), elem_term(it, 'pv', value), T(xf) if g.fmt else z3.IntVal(-1))
        for r in rows:
            hit = z3.And(T(r) == R, qc == C)
            for x, y, z in zip(g.view(r, qc), w, old.view(r, qc)):
                e.assume(x == z3.If(hit, y, z))
        return None
    return c


def merged_list(e):
    arrs = [z3.Array(e.name('mc%d' % j), IntS, IntS) for j in range(4)]
    n = z3.Int(e.name('mc.len'))
    e.assume(n >= 0)
    return SymList(('tuple', 'int', 'int', 'int', 'int'), arrs, n, name='merged')


mmax = z3.Function('max_of_first', IntS, IntS, IntS)   # (which component, n) -> max over the first n ranges (0 if none)


def u_tidy(ragged, fmt):
    def unit(e):
        it = Interp(e)
        g = Grid(e, it, ragged, fmt)
        mc = merged_list(e)
        g.o.attrs['merged_cells'] = mc
        qr, qc = e.int('qr', lo=0, inp=True), e.int('qc', lo=0, inp=True)
        kk = z3.Int(e.name('kk'))      # arbitrary merged range
        e.assume(z3.And(kk >= 0, kk < T(mc.ln)))if False else None
        e.assume(g.glob_ok())
        e.assume(g.row_ok(qr.t))
        old = g.snapshot()
        log = []
        w = e.int('w', lo=0)           # a second arbitrary row
        e.assume(g.row_ok(w.t))
        it.contracts[it.resolve(S + ('put_cell_ragged' if ragged else 'put_cell_unragged'))] = put_contract(g, [qr.t, w.t], qc.t, log)

        def mx(j, n):
            return mmax(j, n)
        # definition of the running maximum (ghost)
        e.assume(z3.And(mx(1, 0) == 0, mx(3, 0) == 0))

        def unfold(n):
            for j in (1, 3):
                v = z3.Select(mc.arrays[j], n)
                # merged ranges are inside the sheet (precondition)
                e.assume(z3.And(v >= 0, v <= (65536 if j == 1 else 256)))
                e.assume(mx(j, n + 1) == z3.If(v > mx(j, n), v, mx(j, n)))

        def inv(L):
            return [('max row', L.I('nr') == mx(1, L.i)), ('max col', L.I('nc') == mx(3, L.i)),
                    ('bounds', z3.And(L.I('nr') >= 0, L.I('nr') <= 65536, L.I('nc') >= 0, L.I('nc') <= 256))]
        it.loop_specs.append(LoopSpec('merged', names=('nr', 'nc'), inv=inv, kind='for',
                                      body_hook=lambda L: unfold(L.i)))

        # padding loop
        mid = {}

        def entry(L):
            mid['g'] = g.snapshot()
            # the grid invariant of an arbitrary row holds before padding (used below for the row being padded)
            e.prove('padding: row invariant', g.row_ok(w.t))

        def inv2(L):
            m = mid['g']
            out = [('lengths', g.glob_ok())]
            r = qr.t
            done = r < L.i
            for l, o2, nm, dflt in ((g.types, m.types, 'types', z3.IntVal(0)),
                                    (g.values, m.values, 'values', PV.pvstr(strlit(''))),
                                    (g.xfs, m.xfs, 'xfs', z3.IntVal(-1))):
                if l is g.xfs and not g.fmt:
                    continue
                nl, ol = z3.Select(l.arrays[1], r), z3.Select(o2.arrays[1], r)
                nv, ov = z3.Select(z3.Select(l.arrays[0], r), qc.t), z3.Select(z3.Select(o2.arrays[0], r), qc.t)
                out.append((nm + ' row length', z3.Implies(z3.And(r < g.cur('nrows')),
                                                           nl == z3.If(z3.And(done, ol < g.cur('ncols')), g.cur('ncols'), ol))))
                out.append((nm + ' cells', z3.Implies(z3.And(r < g.cur('nrows'), qc.t < nl),
                                                      nv == z3.If(qc.t < ol, ov, dflt))))
            return out

        def mods(L):
            r = []
            for l in [g.types, g.values] + ([g.xfs] if g.fmt else []):
                r += [(l, None, lambda L, l=l: setattr(l, 'ln', mid['g'].types.ln)), (l, '*', 'keep')]
            return r

        def body(L):
            # the row being padded satisfies the invariant of the state before the loop
            e.assume(mid['g'].row_ok(L.i))
            for l, o2 in ((g.types, mid['g'].types), (g.values, mid['g'].values)) + (((g.xfs, mid['g'].xfs),) if g.fmt else ()):
                # rows not yet visited are untouched (frame, established by `frame` below)
                e.assume(z3.Select(l.arrays[0], L.i) == z3.Select(o2.arrays[0], L.i))
                e.assume(z3.Select(l.arrays[1], L.i) == z3.Select(o2.arrays[1], L.i))

        if not ragged:
            # frame: a second arbitrary row w beyond the current index is untouched
            base_inv2 = inv2

            def inv2(L, b=base_inv2):
                out = b(L)
                m = mid['g']
                for l, o2, nm in ((g.types, m.types, 'types'), (g.values, m.values, 'values'), (g.xfs, m.xfs, 'xfs')):
                    if l is g.xfs and not g.fmt:
                        continue
                    out.append((nm + ' later rows untouched', z3.Implies(w.t >= L.i, z3.And(
                        z3.Select(l.arrays[0], w.t) == z3.Select(o2.arrays[0], w.t),
                        z3.Select(l.arrays[1], w.t) == z3.Select(o2.arrays[1], w.t)))))
                return out
            it.loop_specs.append(LoopSpec('padding', names=('ncols',), inv=inv2, kind='for', modifies=mods,
                                          entry_hook=entry, body_hook=body))
        out = it.outcome(S + 'tidy_dimensions', g.o)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        e.cover('returns')
        n = T(mc.ln)

        def mxx(a, b):
            return z3.If(a > b, a, b)
        e.prove('nrows', g.cur('nrows') == mxx(old.cur('nrows'), mx(1, n)))
        nc_ = mxx(old.cur('ncols'), mx(3, n))
        e.prove('ncols', g.cur('ncols') == z3.If(z3.And(mx(1, n) > old.cur('nrows'), nc_ < 1), 1, nc_))
        e.prove('lists', z3.And(T(g.types.ln) == g.cur('nrows'), T(g.values.ln) == g.cur('nrows')))
        for nm, x, y in zip(('type', 'value', 'xf'), g.view(qr, qc), old.view(qr, qc)):
            e.prove('cells kept: ' + nm, x == y)
        inr = z3.And(qr.t < g.cur('nrows'))
        e.prove('same lengths', z3.Implies(inr, z3.And(z3.Select(g.values.arrays[1], qr.t) == g.length(qr.t),
                                                       (z3.Select(g.xfs.arrays[1], qr.t) == g.length(qr.t)) if fmt else True)))
        if ragged:
            pass
        else:
            e.prove('rectangular', z3.Implies(inr, g.length(qr.t) == g.cur('ncols')))
        e.expect_covers('returns')
    return named(unit, 'tidy_dimensions[%s, fmt %d]' % ('ragged' if ragged else 'unragged', fmt))


C07 = [u_put(r, f, n) for r in (False, True) for f in (False, True) for n in (False, True)] + \
      [u_tidy(r, f) for r in (False, True) for f in (False, True)]


# ------------------------------------------------------------------ Sheet.__init__
def u_init(e):
    """a new sheet is an empty grid; rows/cols limits and put_cell follow the options"""
    it = Interp(e)
    bv = (80, 70, 50, 45, 40, 30, 21)[e.choose('bv', 7)]
    ragged, fmt = e.choose('ragged'), e.choose('fmt')
    e.inputs.update(bv=bv, ragged=ragged, fmt=fmt)
    xmap = PDict()
    vis = e.int('visibility', inp=True)
    bk = PObj(xlrd.book.Book, dict(biff_version=bv, logfile=None, verbosity=0, formatting_info=fmt, ragged_rows=ragged,
                                   _xf_index_to_xl_type_map=xmap, _sheet_visibility=PList([vis])))
    o = PObj(SHEET)
    pos = e.int('pos')
    nm = e.str('name')
    out = it.outcome(S + '__init__', o, bk, pos, nm, 0)
    if out[0] != 'ok':
        e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
    e.cover('returns')
    A = o.attrs

    def empty(x):
        return isinstance(x, (PList, PDict)) and not (x.items if isinstance(x, PList) else x.d)
    for k in ('_cell_values', '_cell_types', '_cell_xf_indexes', 'merged_cells', 'col_label_ranges', 'row_label_ranges',
              'colinfo_map', 'rowinfo_map', 'rich_text_runlist_map', 'horizontal_page_breaks', 'vertical_page_breaks',
              'hyperlink_list', 'hyperlink_map', 'cell_note_map'):
        e.prove('empty ' + k, empty(A.get(k)))
    vals = [A[k] for k in ('_cell_values', '_cell_types', '_cell_xf_indexes', 'merged_cells', 'colinfo_map', 'rowinfo_map')]
    e.prove('containers not shared', len(set(map(id, vals))) == len(vals))
    e.prove('counters', A['nrows'] == 0 and A['ncols'] == 0 and A['_first_full_rowx'] == -1)
    e.prove('limits', A['utter_max_rows'] == (65536 if bv >= 80 else 16384) and A['utter_max_cols'] == 256)
    e.prove('visibility', T(A['visibility']) == vis.t)
    e.prove('identity', A['number'] == 0 and A['book'] is bk and A['biff_version'] == bv and A['_position'] is pos and A['name'] is nm)
    pc = A['put_cell']
    e.prove('put_cell', isinstance(pc, BoundMethod) and pc.self_obj is o and
            pc.func is it.resolve(S + ('put_cell_ragged' if ragged else 'put_cell_unragged')))
    e.prove('fill elements', [list(A[k].items) for k in ('bt', 'bf')] == [[0], [-1]])
    e.expect_covers('returns')


named(u_init, 'Sheet.__init__')
C07.append(u_init)


# ------------------------------------------------------------------ C09 accessors
def pyslice(start, end, n, none_end):
    """documented (python slice) bounds: (first, number of items)"""
    s = z3.If(start < 0, z3.If(start + n < 0, 0, start + n), z3.If(start > n, n, start))
    if none_end:
        t = n
    else:
        t = z3.If(end < 0, z3.If(end + n < 0, 0, end + n), z3.If(end > n, n, end))
    return s, z3.If(t > s, t - s, 0)


def cell_parts(it, c):
    return [it.getattr(c, k) for k in ('ctype', 'value', 'xf_index')]


def same_cell(e, it, g, name, cell, r, c, fmt, xfx):
    from pyvc.ops import elem_term
    e.prove(name + '/is Cell', isinstance(cell, PObj) and cell.cls is xlrd.sheet.Cell)
    t, v, x = cell_parts(it, cell)
    wt, wv, wx = g.view(r, c)
    e.prove(name + '/type', T(t) == wt)
    e.prove(name + '/value', elem_term(it, 'pv', v) == wv)
    if fmt:
        e.prove(name + '/xf', isinstance(x, SInt) and T(x) == xfx(T(r), T(c)))
    else:
        e.prove(name + '/xf', x is None)


def acc_setup(e, fmt=None):
    it = Interp(e)
    ragged = bool(e.choose('ragged'))
    fmt = bool(e.choose('fmt')) if fmt is None else fmt
    e.inputs.update(ragged=ragged, fmt=fmt)
    g = Grid(e, it, ragged, fmt)
    e.assume(g.glob_ok())
    g.o.attrs['rowinfo_map'] = PDict()
    xfx = z3.Function('cell_xf', IntS, IntS, IntS)

    def c(it2, a, k):
        names = ('self', 'rowx', 'colx')
        d = dict(zip(names, a))
        d.update(k)
        e.prove('pre:cell_xf_index in range', z3.And(T(d['rowx']) >= 0, T(d['rowx']) < g.nrows.t, T(d['colx']) >= 0,
                                                    T(d['colx']) < g.length(d['rowx'])))
        return SInt(xfx(T(d['rowx']), T(d['colx'])))
    it.contracts[it.resolve(S + 'cell_xf_index')] = c
    return it, g, ragged, fmt, xfx


def u_cell(e):
    it, g, ragged, fmt, xfx = acc_setup(e)
    r, c = e.int('rowx', lo=0, inp=True), e.int('colx', lo=0, inp=True)
    e.assume(g.row_ok(r.t))
    e.assume(z3.And(r.t < g.nrows.t, c.t < g.length(r)))
    k = e.choose('method', 5)
    from pyvc.ops import elem_term
    if k == 0:
        out = it.outcome(S + 'cell_value', g.o, r, c)
        ok(e, out)
        e.prove('cell_value', elem_term(it, 'pv', out[1]) == g.view(r, c)[1])
    elif k == 1:
        out = it.outcome(S + 'cell_type', g.o, r, c)
        ok(e, out)
        e.prove('cell_type', T(out[1]) == g.view(r, c)[0])
    elif k == 2:
        out = it.outcome(S + 'cell', g.o, r, c)
        ok(e, out)
        same_cell(e, it, g, 'cell', out[1], r, c, fmt, xfx)
    elif k == 3:
        out = it.outcome(S + '__getitem__', g.o, (r, c))
        ok(e, out)
        same_cell(e, it, g, 'sheet[r,c]', out[1], r, c, fmt, xfx)
    else:
        out = it.outcome(S + 'row_len', g.o, r)
        ok(e, out)
        e.prove('row_len', T(out[1]) == g.length(r))
    e.cover('returns')
    e.expect_covers('returns')


named(u_cell, 'cell/cell_value/cell_type/row_len')


def ok(e, out):
    if out[0] != 'ok':
        e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)


def as_seq(e, it, v):
    return v


def check_list(e, it, g, name, res, n, elem, kind):
    """res is a list of n elements; elem(k) = (row, col) of element k"""
    from pyvc.ops import elem_term
    e.prove(name + '/is list', isinstance(res, (SymList, PList, RowView)))
    e.prove(name + '/length', T(it.length(res)) == n)
    k = e.int('k', lo=0)
    e.assume(k.t < n)
    if not e.feasible():
        return
    e.cover('nonempty')
    x = it.getitem(res, k)
    r, c = elem(k.t)
    kind(x, r, c)


def mk_args(e, kind):
    a = e.int('start', inp=True)
    b = None if e.choose('end None') else e.int('end', inp=True)
    return a, b


def u_rowslice(which):
    def unit(e):
        from pyvc.ops import elem_term
        it, g, ragged, fmt, xfx = acc_setup(e, None if which in ('row_slice', 'row', 'getitem', 'iter') else False)
        r = e.int('rowx', lo=0, inp=True)
        e.assume(g.row_ok(r.t))
        e.assume(r.t < g.nrows.t)
        n = g.length(r)
        if which in ('row', 'getitem'):
            if which == 'row':
                out = it.outcome(S + 'row', g.o, r)
            else:
                out = it.outcome(S + '__getitem__', g.o, r)
            first, cnt = z3.IntVal(0), n
        else:
            a, b = mk_args(e, which)
            first, cnt = pyslice(a.t, b.t if b is not None else None, n, b is None)
            out = it.outcome(S + which, g.o, r, a, b) if b is not None or e.choose('explicit None') else \
                it.outcome(S + which, g.o, r, a)
        ok(e, out)
        e.cover('returns')

        def kind(x, rr, cc):
            if which == 'row_types':
                e.prove('element', T(x) == g.view(rr, cc)[0])
            elif which == 'row_values':
                e.prove('element', elem_term(it, 'pv', x) == g.view(rr, cc)[1])
            else:
                same_cell(e, it, g, 'element', x, rr, cc, fmt, xfx)
        e.prove('a list of its own, not the row itself', not isinstance(out[1], RowView))
        check_list(e, it, g, which, out[1], cnt, lambda k: (r.t, first + k), kind)
        e.expect_covers('returns', 'nonempty')
    return named(unit, which)


def u_colslice(which):
    def unit(e):
        from pyvc.ops import elem_term
        it, g, ragged, fmt, xfx = acc_setup(e, None if which == 'col_slice' else False)
        c = e.int('colx', lo=0, inp=True)
        # every row is long enough to contain the column (true on any non-ragged sheet)
        q = z3.Int('q')
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < g.nrows.t),
                                           z3.And(g.length(q) > c.t, z3.Select(g.values.arrays[1], q) == g.length(q)))))
        n = g.nrows.t
        a, b = mk_args(e, which)
        first, cnt = pyslice(a.t, b.t if b is not None else None, n, b is None)
        out = it.outcome(S + which, g.o, c, a, b) if b is not None or e.choose('explicit None') else \
            it.outcome(S + which, g.o, c, a)
        ok(e, out)
        e.cover('returns')

        def kind(x, rr, cc):
            if which == 'col_types':
                e.prove('element', T(x) == g.view(rr, cc)[0])
            elif which == 'col_values':
                e.prove('element', elem_term(it, 'pv', x) == g.view(rr, cc)[1])
            else:
                same_cell(e, it, g, 'element', x, rr, cc, fmt, xfx)
        check_list(e, it, g, which, out[1], cnt, lambda k: (first + k, c.t), kind)
        e.expect_covers('returns', 'nonempty')
    return named(unit, which)


def u_alias(e):
    """Sheet.col is col_slice, iteration over a sheet is get_rows"""
    e.prove('col is col_slice', SHEET.__dict__['col'] is SHEET.__dict__['col_slice'])
    e.prove('__iter__ is get_rows', SHEET.__dict__['__iter__'] is SHEET.__dict__['get_rows'])


named(u_alias, 'aliases')


def u_iter(e):
    """iterating a sheet yields row(0), row(1), ..., row(nrows-1)"""
    it = Interp(e)
    g = Grid(e, it, bool(e.choose('ragged')), bool(e.choose('fmt')))

    class RowToken(object):
        pass

    def c(it2, a, k):
        d = dict(zip(('self', 'rowx'), a))
        d.update(k)
        e.prove('pre:row', z3.And(T(d['rowx']) >= 0, T(d['rowx']) < g.nrows.t))
        return PObj(RowToken, {'r': SInt(T(d['rowx']))})
    it.contracts[it.resolve(S + 'row')] = c
    out = it.outcome(S + 'get_rows', g.o)
    ok(e, out)
    e.cover('returns')
    e.prove('number of rows', T(it.length(out[1])) == g.nrows.t)
    k = e.int('k', lo=0)
    e.assume(k.t < g.nrows.t)
    if e.feasible():
        e.cover('nonempty')
        x = it.getitem(out[1], k)
        e.prove('row k', isinstance(x, PObj) and x.cls is RowToken)
        e.prove('row index', T(x.attrs['r']) == k.t)
    e.expect_covers('returns', 'nonempty')


named(u_iter, 'iter')
C09 = [u_cell, u_alias] + [u_rowslice(w) for w in ('row_types', 'row_values', 'row_slice', 'row', 'getitem')] + [u_iter] + \
      [u_colslice(w) for w in ('col_types', 'col_values', 'col_slice')]


# ------------------------------------------------------------------ C10
def obj_map(e, name, cls, attr, lo=None, hi=None):
    """a dict int -> object with one integer attribute"""
    has = z3.Function(e.name(name + '_has'), IntS, BoolS)
    val = z3.Function(e.name(name + '_' + attr), IntS, IntS)
    d = PDict()

    def base(eng, k):
        v = val(T(k))
        if lo is not None:
            e.assume(z3.And(v >= lo, v <= hi))
        return SBool(has(T(k))), PObj(cls, {attr: SInt(v)})
    d.base = base
    return d, has, val


def u_xfindex(e):
    it = Interp(e)
    g = Grid(e, it, bool(e.choose('ragged')), True)
    r, c = e.int('rowx', lo=0, inp=True), e.int('colx', lo=0, inp=True)
    e.assume(g.glob_ok())
    e.assume(g.row_ok(r.t))
    e.assume(z3.And(r.t < g.nrows.t, c.t < g.length(r)))
    rm, rhas, rval = obj_map(e, 'row', xlrd.sheet.Rowinfo, 'xf_index', -1, 4095)
    cm, chas, cval = obj_map(e, 'col', xlrd.sheet.Colinfo, 'xf_index', -1, 65535)
    g.o.attrs.update(rowinfo_map=rm, colinfo_map=cm, _xf_index_stats=PList([0, 0, 0, 0]))
    own = g.view(r, c)[2]
    e.assume(own >= -1)
    k = e.choose('formatting_info')
    if k == 0:
        g.o.attrs['formatting_info'] = 0
        out = it.outcome(S + 'cell_xf_index', g.o, r, c)
        e.prove('documented error without formatting_info', exc_is(out, 'XLRDError'))
        return
    out = it.outcome(S + 'cell_xf_index', g.o, r, c)
    ok(e, out)
    e.cover('returns')
    w = z3.If(own > -1, own,
              z3.If(z3.And(rhas(r.t), rval(r.t) > -1), rval(r.t),
                    z3.If(chas(c.t), z3.If(cval(c.t) == -1, 15, cval(c.t)), 15)))
    e.prove('xf index', T(out[1]) == w)
    e.expect_covers('returns')


named(u_xfindex, 'cell_xf_index')
C10 = [u_xfindex]
