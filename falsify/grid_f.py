"""Executable contracts of the cell grid (C07), the accessors (C09), the XF index (C10) and the
cell records (C26), on the real code."""
from . import sheetmodel as M
from .biff import outcome

EMPTY = (0, '', -1)


def cellv(m, r, c):
    return m['g'].get((r, c), EMPTY)


class Base(object):
    @staticmethod
    def from_model(i):
        return []


class C07(Base):
    """dimensions and rectangularity; every stored cell is where its record put it"""
    @staticmethod
    def test(case):
        m = M.expect(case)
        o = outcome(M.load, case)
        if o[0] != 'ok':
            return 'open_workbook raises %r' % (o[1:],)
        sh = o[1].sheet_by_index(0)
        if (sh.nrows, sh.ncols) != (m['nrows'], m['ncols']):
            return 'nrows, ncols = %r, want %r' % ((sh.nrows, sh.ncols), (m['nrows'], m['ncols']))
        for r in range(sh.nrows):
            L = m['rowlen'].get(r, 0) if case['ragged'] else m['ncols']
            if sh.row_len(r) != L or len(sh.row_types(r)) != L or len(sh.row_values(r)) != L:
                return 'row %d has %d cells, want %d' % (r, sh.row_len(r), L)
            for c in range(L):
                t, v, x = cellv(m, r, c)
                if sh.cell_type(r, c) != t or not M.same(sh.cell_value(r, c), v):
                    return 'cell (%d,%d) = (%r, %r), want (%r, %r)' % (r, c, sh.cell_type(r, c), sh.cell_value(r, c), t, v)
        o2 = outcome(lambda: sh.cell_value(m['nrows'], 0))
        if o2[0] == 'ok':
            return 'cell beyond the last row is accepted'

    @staticmethod
    def cases(rng, deep):
        yield dict(bv=80, fmt=1, ragged=0, items=[['merge', 0, 0, [[2, 4, 1, 3]]]])
        yield dict(bv=80, fmt=1, ragged=1, items=[['merge', 0, 0, [[2, 4, 1, 3]]]])
        yield dict(bv=80, fmt=1, ragged=0, items=[['num', 0, 0, 0, 0], ['num', 65535, 1, 0, 0]])
        yield dict(bv=80, fmt=1, ragged=0, items=[['num', 0, 255, 0, 0], ['num', 700, 3, 0, 0]])
        yield dict(bv=70, fmt=0, ragged=1, items=[['num', 16383, 255, 0, 0]])
        for a in range(3):
            for b in range(3):
                for c in range(3):
                    for d in range(3):
                        for fmt in (0, 1):
                            for rag in (0, 1):
                                yield dict(bv=80, fmt=fmt, ragged=rag, items=[['num', a, b, 17, 0], ['bool', c, d, 0, 1],
                                                                             ['num', b, a, 18, 1 << 62]])
        while True:
            yield M.gen(rng, bvs=(80, 80, 70, 30, 21))


class C09(Base):
    @staticmethod
    def test(case):
        o = outcome(M.load, case)
        if o[0] != 'ok':
            return 'open_workbook raises %r' % (o[1:],)
        sh = o[1].sheet_by_index(0)
        m = M.expect(case)
        nr, nc, fmt = m['nrows'], m['ncols'], case['fmt']

        def tup(cell):
            return (cell.ctype, cell.value, cell.xf_index)

        def want(r, c):
            t, v, x = cellv(m, r, c)
            return (t, v, M.xf_of(m, r, c) if fmt else None)

        def eq(a, b):
            return len(a) == len(b) and all(x[0] == y[0] and M.same(x[1], y[1]) and x[2] == y[2] for x, y in zip(a, b))

        def rowlen(r):
            return m['rowlen'].get(r, 0) if case['ragged'] else nc
        rows = [[want(r, c) for c in range(rowlen(r))] for r in range(nr)]
        got = [[tup(c) for c in row] for row in sh]
        got2 = [[tup(c) for c in row] for row in sh.get_rows()]
        if len(got) != nr or len(got2) != nr or not all(eq(a, b) and eq(c, b) for a, b, c in zip(got, rows, got2)):
            return 'iteration over the sheet differs from its cells'
        for r in range(nr):
            if not eq([tup(c) for c in sh.row(r)], rows[r]) or not eq([tup(c) for c in sh[r]], rows[r]):
                return 'row(%d) differs from its cells' % r
            if sh.row_len(r) != rowlen(r):
                return 'row_len(%d)' % r
            for c in range(rowlen(r)):
                w = rows[r][c]
                if not eq([tup(sh.cell(r, c)), tup(sh[r, c])], [w, w]) or sh.cell_type(r, c) != w[0] \
                        or not M.same(sh.cell_value(r, c), w[1]):
                    return 'cell(%d,%d) differs' % (r, c)
            for a, b in [(0, None)] + case['slices']:
                for nm, k in (('row_slice', None), ('row_types', 0), ('row_values', 1)):
                    f = getattr(sh, nm)
                    g = outcome(f, r, a, b) if b is not None else outcome(f, r, a)
                    w = rows[r][a:b]
                    if g[0] != 'ok':
                        return '%s(%d,%r,%r) raises %r' % (nm, r, a, b, g)
                    if k is None:
                        ok = eq([tup(c) for c in g[1]], w)
                    else:
                        ok = len(g[1]) == len(w) and all(M.same(x, y[k]) for x, y in zip(g[1], w))
                    if not ok:
                        return '%s(%d,%r,%r) wrong' % (nm, r, a, b)
                    del g[1][:]          # the caller's own list
        for r in range(nr):
            if not eq([tup(c) for c in sh.row(r)], rows[r]):
                return 'changing the lists returned for row %d changes the sheet' % r
        if not case['ragged']:
            for c in range(nc):
                col = [rows[r][c] for r in range(nr)]
                if not eq([tup(x) for x in sh.col(c)], col):
                    return 'col(%d) wrong' % c
                for a, b in case['slices']:
                    w = col[a:b]
                    for nm, k in (('col_slice', None), ('col_types', 0), ('col_values', 1)):
                        f = getattr(sh, nm)
                        g = outcome(f, c, a, b) if b is not None else outcome(f, c, a)
                        if g[0] != 'ok':
                            return '%s(%d,%r,%r) raises %r' % (nm, c, a, b, g)
                        if k is None:
                            ok = eq([tup(x) for x in g[1]], w)
                        else:
                            ok = len(g[1]) == len(w) and all(M.same(x, y[k]) for x, y in zip(g[1], w))
                        if not ok:
                            return '%s(%d,%r,%r) wrong' % (nm, c, a, b)
                        del g[1][:]

    @staticmethod
    def cases(rng, deep):
        sl = [(a, b) for a in (-4, -3, -2, -1, 0, 1, 2, 3, 4) for b in (None, -4, -3, -2, -1, 0, 1, 2, 3, 4)]
        items = [['num', r, c, 16 + c, (1 << 62) + r * 16 + c] for r in range(3) for c in range(3)]
        for fmt in (0, 1):
            yield dict(bv=80, fmt=fmt, ragged=0, items=items, slices=sl)
            yield dict(bv=80, fmt=fmt, ragged=1, items=items[1:4] + items[5:7], slices=sl)
            yield dict(bv=80, fmt=fmt, ragged=0, items=[], slices=sl)
        while True:
            c = M.gen(rng, bvs=(80, 70, 30), maxr=rng.choice([1, 2, 3, 5]), maxc=rng.choice([1, 2, 3, 5]))
            c['slices'] = [(rng.randint(-7, 7), rng.choice([None, rng.randint(-7, 7)])) for _ in range(6)]
            yield c


class C10(Base):
    @staticmethod
    def test(case):
        o = outcome(M.load, case)
        if o[0] != 'ok':
            return 'open_workbook raises %r' % (o[1:],)
        sh = o[1].sheet_by_index(0)
        m = M.expect(case)
        for r in range(m['nrows']):
            for c in range(sh.row_len(r)):
                if not case['fmt']:
                    g = outcome(sh.cell_xf_index, r, c)
                    if g[0] != 'exc' or g[1] != 'XLRDError':
                        return 'cell_xf_index without formatting_info -> %r' % (g,)
                    if sh.cell(r, c).xf_index is not None:
                        return 'Cell.xf_index is set without formatting_info'
                    continue
                w = M.xf_of(m, r, c)
                g = sh.cell_xf_index(r, c)
                if g != w or sh.cell(r, c).xf_index != w:
                    return 'cell_xf_index(%d,%d) = %r, want %r' % (r, c, g, w)

    @staticmethod
    def cases(rng, deep):
        for rx in (None, -1, 17, 0):
            for cx in (None, 18, 0):
                for fmt in (0, 1):
                    items = []
                    if rx is not None:
                        items.append(['row', 1, 0, rx])
                    if cx is not None:
                        items.append(['col', 1, 2, cx])
                    yield dict(bv=80, fmt=fmt, ragged=0, items=items + [['num', 0, 0, 20, 0], ['num', 2, 3, 0, 0], ['num', 1, 2, 19, 0]])
        while True:
            c = M.gen(rng, bvs=(80, 70, 50, 30, 21), maxr=6, maxc=6)
            c['fmt'] = int(rng.random() < .9)
            for _ in range(rng.randrange(4)):
                c['items'].insert(0, M.item(rng, c['bv'], 'row', 6, 6))
                if c['bv'] >= 50 or c['bv'] == 21:
                    c['items'].insert(0, M.item(rng, c['bv'], 'colw' if c['bv'] == 21 and rng.random() < .5 else 'col', 6, 6))
            yield c


class C26(Base):
    @staticmethod
    def test(case):
        m = M.expect(case)
        o = outcome(M.load, case)
        if o[0] != 'ok':
            return 'open_workbook raises %r' % (o[1:],)
        sh = o[1].sheet_by_index(0)
        for (r, c), (t, v, x) in m['g'].items():
            g = outcome(lambda: (sh.cell_type(r, c), sh.cell_value(r, c)))
            if g[0] != 'ok' or g[1][0] != t or not M.same(g[1][1], v):
                return 'cell (%d,%d) = %r, want (%r, %r)' % (r, c, g, t, v)
            if case['fmt'] and sh._cell_xf_indexes[r][c] != x:
                return 'xf of cell (%d,%d) = %r, want %r' % (r, c, sh._cell_xf_indexes[r][c], x)
        for r in range(sh.nrows):
            for c in range(sh.row_len(r)):
                if (r, c) not in m['g'] and (sh.cell_type(r, c) != 0 or sh.cell_value(r, c) != ''):
                    return 'cell (%d,%d) is not empty' % (r, c)
        if case['fmt']:
            runs = {k: [tuple(x) for x in v] for k, v in sh.rich_text_runlist_map.items()}
            if runs != m['runs']:
                return 'rich_text_runlist_map = %r, want %r' % (runs, m['runs'])
            if [tuple(x) for x in sh.merged_cells] != m['merged']:
                return 'merged_cells = %r, want %r' % (sh.merged_cells, m['merged'])

    @staticmethod
    def cases(rng, deep):
        for bv in (80, 70, 50, 45, 40, 30, 21):
            for k in M.allowed(bv):
                for j in range(4 if k != 'fstr' else 14):
                    it = M.item(rng, bv, k, 300, 256)
                    if k == 'fstr':
                        it[5] = j // 2
                    yield dict(bv=bv, fmt=j & 1, ragged=0, items=[it])
        for k in ('mulrk', 'mulblank'):
            for n in (255, 256):
                yield dict(bv=80, fmt=1, ragged=0, items=[[k, 3, 0, [[17, 4 * i + 2] if k == 'mulrk' else i % 20 for i in range(n)]]])
        while True:
            yield M.gen(rng)
