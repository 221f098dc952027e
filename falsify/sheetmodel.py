"""Abstract worksheets, their BIFF encoding (independent writer) and the grid they denote.

item = [kind, row, col, ...]; see emit() for the kinds."""
import struct
from . import biff as W
from .biff import rec, P, ustr, bstr

# number format keys of the cell XFs used in the generated files: xf 16..; 'd' marks date formats
XF_FMTS = [0, 1, 14, 22, 4, 0x31, 45, 9, 164, 165]
XF_DATE = [0, 0, 1, 1, 0, 0, 1, 0, 1, 0]
CUSTOM = [(164, 'yyyy-mm-dd'), (165, '0.00" days"')]
NBASE = 16


def nxf(bv):
    return len(XF_FMTS)


def rkval(r):
    if r & 2:
        v = struct.unpack('<i', P('<I', r))[0] >> 2
        v = float(v)
    else:
        v, = struct.unpack('<d', P('<Q', (r & 0xFFFFFFFC) << 32))
    return v / 100.0 if r & 1 else v


def xftype(bv, xf):
    """1 number / 2.. cell type of a numeric cell with this xf"""
    if bv < 50:
        return 2
    return 3 if xf >= NBASE and XF_DATE[xf - NBASE] else 2


def globs(bv):
    xfs = [0] * NBASE + XF_FMTS if bv >= 50 else [0] * (NBASE + 10)
    if bv >= 50:
        return W.std_globals(bv, CUSTOM, xfs)
    return W.std_globals(bv, [(i, 'General') for i in range(1)], xfs)


def cell3(bv, xf):
    return bytes([xf & 0x3F, 0, 0])


def fnum(bits):
    return struct.unpack('<d', P('<Q', bits))[0]


def formula(bv, r, c, xf, result8, extra=b''):
    code = {80: 6, 70: 6, 50: 6, 45: 0x406, 40: 0x406, 30: 0x206, 21: 6}[bv]
    tok = b'\x03\x00\x1e\x01\x00'
    if bv == 21:
        return rec(code, P('<HH', r, c) + cell3(bv, xf) + result8 + b'\x00' + b'\x03\x1e\x01\x00')
    if bv >= 50:
        return rec(code, P('<HHH', r, c, xf) + result8 + P('<HI', 0, 0) + tok)
    return rec(code, P('<HHH', r, c, xf) + result8 + P('<H', 0) + tok)


def string_rec(bv, text):
    if bv >= 80:
        return rec(0x207, ustr(text, 2))
    b = text.encode('latin-1')
    return rec(0x207 if bv >= 30 else 7, bstr(b, 2 if bv >= 30 else 1))


def emit(bv, it, sst):
    k, r, c = it[0], it[1], it[2]
    hd = (lambda xf: P('<HHH', r, c, xf)) if bv >= 30 else (lambda xf: P('<HH', r, c) + cell3(bv, xf))
    if k == 'num':
        return rec(0x203 if bv >= 30 else 3, hd(it[3]) + P('<Q', it[4]))
    if k == 'numx':          # trailing rubbish after the number
        return rec(0x203, hd(it[3]) + P('<Q', it[4]) + b'\x01\x02\x03') if bv >= 30 else emit(bv, ['num'] + it[1:], sst)
    if k == 'int':
        return rec(2, hd(it[3]) + P('<H', it[4])) if bv < 30 else emit(bv, ['num', r, c, it[3], struct.unpack('<Q', P('<d', float(it[4])))[0]], sst)
    if k == 'rk':
        return rec(0x27E, hd(it[3]) + P('<I', it[4]))
    if k == 'mulrk':
        return rec(0xBD, P('<HH', r, c) + b''.join(P('<HI', x, v) for x, v in it[3]) + P('<H', c + len(it[3]) - 1))
    if k == 'lab':
        if bv >= 80:
            return rec(0x204, hd(it[3]) + ustr(it[4], 2))
        b = it[4].encode('latin-1')
        return rec(0x204, hd(it[3]) + bstr(b, 2)) if bv >= 30 else rec(4, hd(it[3]) + bstr(b, 1))
    if k == 'sst':
        i = len(sst)
        sst.append((it[4], it[5]))
        return rec(0xFD, hd(it[3]) + P('<I', i))
    if k == 'rstr':
        runs = it[5]
        if bv >= 80:
            return rec(0xD6, hd(it[3]) + ustr(it[4], 2) + P('<H', len(runs)) + b''.join(P('<HH', *x) for x in runs))
        return rec(0xD6, hd(it[3]) + bstr(it[4].encode('latin-1'), 2) + P('<B', len(runs)) + b''.join(P('<BB', *x) for x in runs))
    if k in ('bool', 'err'):
        return rec(0x205 if bv >= 30 else 5, hd(it[3]) + bytes([it[4], 1 if k == 'err' else 0]))
    if k == 'blank':
        return rec(0x201 if bv >= 30 else 1, hd(it[3]))
    if k == 'mulblank':
        return rec(0xBE, P('<HH', r, c) + b''.join(P('<H', x) for x in it[3]) + P('<H', c + len(it[3]) - 1))
    if k == 'fnum':
        return formula(bv, r, c, it[3], P('<Q', it[4]))
    if k in ('fbool', 'ferr'):
        return formula(bv, r, c, it[3], bytes([1 if k == 'fbool' else 2, 0, it[4], 0, 0, 0, 255, 255]))
    if k == 'fempty':
        return formula(bv, r, c, it[3], bytes([3, 0, 0, 0, 0, 0, 255, 255]))
    if k == 'fstr':
        mid = b''
        if it[5] == 1 and bv >= 50:
            mid = rec(0x4BC, P('<HHBBBBH', r, r, c, c, 0, 1, 3) + b'\x1e\x01\x00')
        elif it[5] == 2 and bv >= 30:
            mid = rec(0x221, P('<HHBBHIH', r, r, c, c, 0, 0, 3) + b'\x1e\x01\x00')
        elif it[5] == 3 and bv >= 30:
            mid = rec(0x236, P('<HHBB', r, r, c, c) + b'\0' * 10)
        elif it[5] >= 4:
            mid = rec((0x37, 0x36, 0x21)[it[5] - 4], P('<HHBB', r, r, c, c) + b'\0' * 10)
        return formula(bv, r, c, it[3], bytes([0, 0, 0, 0, 0, 0, 255, 255])) + mid + string_rec(bv, it[4])
    if k == 'row':           # ['row', r, 0, xf or -1]
        xf = it[3]
        if bv < 30:
            if xf < 0:
                return rec(8, P('<HHHHHBH', r, 0, 1, 255, 0, 0, 0))
            return rec(8, P('<HHHHHBH', r, 0, 1, 255, 0, 1, 0) + cell3(bv, xf) + P('<H', xf))
        bits2 = (0 if xf < 0 else 0x80) | ((xf & 0xFFF) << 16 if xf >= 0 else 0x000F0000)
        return rec(0x208, P('<HHHHHHI', r, 0, 1, 255, 0, 0, bits2))
    if k == 'col' and bv < 30:               # COLUMNDEFAULT
        return rec(0x20, P('<HH', r, c + 1) + cell3(bv, it[3]) * (c + 1 - r))
    if k == 'colw':          # ['colw', first, last, width]: COLWIDTH, no format index (BIFF2)
        return rec(0x24, P('<BBH', r, c, it[3]))
    if k == 'chart':         # ['chart', 0, 0, items, tail of the EOF record]: an embedded stream with cells of its own
        bof = {80: W.bof(80, 0x20), 70: W.bof(70, 0x20)}.get(bv) or W.bof(bv, 0x20)
        return bof + b''.join(emit(bv, x, sst) for x in it[3]) + rec(0x0A, it[4].encode('latin-1'))
    if k == 'col':           # ['col', first, last, xf]
        return rec(0x7D, P('<HHHHHH', r, c, 2560, it[3], 0, 0))
    if k == 'merge':
        return rec(0xE5, P('<H', len(it[3])) + b''.join(P('<HHHH', a, b - 1, c2, d - 1) for a, b, c2, d in it[3]))
    raise KeyError(k)


def allowed(bv):
    ks = ['num', 'lab', 'bool', 'err', 'blank', 'fnum', 'fbool', 'ferr', 'fstr']
    if bv >= 30:
        ks += ['rk', 'numx', 'row']
    if bv >= 50:
        ks += ['mulrk', 'mulblank', 'rstr', 'fempty', 'col']
    if bv >= 80:
        ks += ['sst', 'merge']
    if bv == 21:
        ks += ['int', 'row', 'col', 'colw']
    ks += ['chart']
    return ks


def sst_rec(sst):
    return rec(0xFC, P('<II', len(sst), len(sst)) + b''.join(ustr(s, 2, runs=r) for s, r in sst))


def build(case):
    bv = case['bv']
    sst = []
    body = [W.dimension(bv, 0, 0)] + [emit(bv, it, sst) for it in case['items']]
    g = globs(bv)
    if bv >= 50:
        post = [sst_rec(sst)] if bv >= 80 else []
        return W.WB(bv, pre=g, post=post, codepage=1252 if bv < 80 else None).sheet('S', recs=body).bytes()
    if bv == 45:
        return W.WB(45, codepage=1252).sheet('S', recs=g + body).bytes()
    return W.WB(bv).sheet('S', recs=[rec(0x42, P('<H', 1252))] + g + body).bytes()



def expect(case):
    """grid denoted by the items: {(r,c): (type, value, xf)}, merged, runlists, nrows, ncols, rowlen"""
    bv, fmt = case['bv'], case['fmt']
    g = {}
    runs = {}
    rowxf, colxf = {}, {}
    merged = []
    rowlen = {}

    def put(r, c, t, v, xf):
        g[r, c] = (t, v, xf)
        rowlen[r] = max(rowlen.get(r, 0), c + 1)
    for it in case['items']:
        k, r, c = it[0], it[1], it[2]
        if k in ('num', 'numx', 'fnum'):
            put(r, c, xftype(bv, it[3]), fnum(it[4]), it[3])
        elif k == 'int':
            put(r, c, xftype(bv, it[3]), float(it[4]), it[3])
        elif k == 'rk':
            put(r, c, xftype(bv, it[3]), rkval(it[4]), it[3])
        elif k == 'mulrk':
            for i, (x, v) in enumerate(it[3]):
                put(r, c + i, xftype(bv, x), rkval(v), x)
        elif k in ('lab', 'fstr'):
            put(r, c, 1, it[4], it[3])
        elif k == 'sst':
            put(r, c, 1, it[4], it[3])
            if it[5] and fmt:
                runs[r, c] = [tuple(x) for x in it[5]]
        elif k == 'rstr':
            put(r, c, 1, it[4], it[3])
            runs[r, c] = [tuple(x) for x in it[5]]
        elif k in ('bool', 'fbool'):
            put(r, c, 4, it[4], it[3])
        elif k in ('err', 'ferr'):
            put(r, c, 5, it[4], it[3])
        elif k == 'fempty':
            put(r, c, 1, '', it[3])
        elif k == 'blank' and fmt:
            put(r, c, 6, '', it[3])
        elif k == 'mulblank' and fmt:
            for i, x in enumerate(it[3]):
                put(r, c + i, 6, '', x)
        elif k == 'row' and fmt:
            rowxf[r] = it[3]
        elif k == 'col' and fmt:
            for cc in range(r, min(c, 255) + 1):
                colxf[cc] = it[3]
        elif k == 'colw' and fmt:
            for cc in range(r, c + 1):
                colxf.setdefault(cc, -1)
        elif k == 'merge' and fmt:
            merged += [tuple(x) for x in it[3]]
    nrows = max([r + 1 for r, c in g] + [0])
    ncols = max([c + 1 for r, c in g] + [0])
    if merged:
        nr0 = nrows
        nrows = max([nrows] + [m[1] for m in merged])
        ncols = max([ncols] + [m[3] for m in merged])
        if nrows > nr0:
            rowlen[nrows - 1] = max(1, rowlen.get(nrows - 1, 0))
    return dict(g=g, runs=runs, merged=merged, rowxf=rowxf, colxf=colxf, nrows=nrows, ncols=ncols, rowlen=rowlen)


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return False
    if isinstance(a, float):
        return struct.pack('<d', a) == struct.pack('<d', b) or (a != a and b != b)
    return a == b


def xf_of(m, r, c):
    x = m['g'].get((r, c), (0, '', -1))[2]
    if x > -1:
        return x
    x = m['rowxf'].get(r, -1)
    if x > -1:
        return x
    x = m['colxf'].get(c, -1)
    return x if x > -1 else 15


def load(case):
    return W.open_bytes(build(case), formatting_info=bool(case['fmt']), ragged_rows=bool(case['ragged']))


# ------------------------------------------------------------------ generation
def ri(rng, hi, edges=()):
    if edges and rng.random() < .25:
        return rng.choice(edges)
    return rng.randint(0, hi)


TEXTS = ['', 'a', 'abc', 'h\xe9llo', 'x' * 300, '\xff', 'line\nbreak', ' ']
WTEXTS = ['\u20ac', '\u4e2d\u6587', 'a\u0100b', '\U0001F600x', 'mixed \u0416']


def text(rng, bv, n=None):
    if bv >= 80 and rng.random() < .4:
        return rng.choice(WTEXTS)
    t = rng.choice(TEXTS)
    if bv == 21:
        t = t[:200]
    return t


DBL = [0, 1 << 63, 0x3FF0000000000000, 0x7FEFFFFFFFFFFFFF, 1, 0x4059000000000000, 0xBFF8000000000000, 0x40E3880000000000,
       0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0x7FF8000000000001]


def dbl(rng, formula=False):
    while True:
        b = rng.choice(DBL) if rng.random() < .4 else rng.getrandbits(64)
        if not formula or b >> 48 != 0xFFFF:                # (a cached formula result with these bits is not a number)
            return b


def item(rng, bv, k, maxr, maxc):
    r = ri(rng, maxr - 1)
    c = ri(rng, maxc - 1)
    xf = (NBASE + rng.randrange(len(XF_FMTS))) if rng.random() < .7 else rng.randrange(NBASE)
    if k in ('num', 'numx', 'fnum'):
        b = dbl(rng, k == 'fnum')
        return [k, r, c, xf, b]
    if k == 'int':
        return [k, r, c, xf, rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)])]
    if k == 'rk':
        return [k, r, c, xf, rng.getrandbits(32)]
    if k == 'mulrk':
        n = rng.randint(1, 6) if rng.random() < .9 else rng.randint(250, 256)
        c = min(c, 256 - n)
        return [k, r, c, [[rng.randrange(NBASE + len(XF_FMTS)), rng.getrandbits(32)] for _ in range(n)]]
    if k == 'lab':
        return [k, r, c, xf, text(rng, bv)]
    if k == 'sst':
        return [k, r, c, xf, text(rng, bv), [[i, rng.randrange(5)] for i in range(rng.randrange(3))] or None]
    if k == 'rstr':
        t = text(rng, bv)
        return [k, r, c, xf, t, [[rng.randrange(250), rng.randrange(5)] for _ in range(rng.randrange(4))]]
    if k in ('bool', 'fbool'):
        return [k, r, c, xf, rng.randrange(2)]
    if k in ('err', 'ferr'):
        return [k, r, c, xf, rng.choice([0, 7, 0x0F, 0x17, 0x1D, 0x24, 0x2A])]
    if k == 'fstr':
        t = text(rng, bv)
        return [k, r, c, xf, t, rng.randrange(7)]
    if k in ('blank', 'fempty'):
        return [k, r, c, xf]
    if k == 'mulblank':
        n = rng.randint(1, 5) if rng.random() < .9 else rng.randint(250, 256)
        c = min(c, 256 - n)
        return [k, r, c, [rng.randrange(NBASE + len(XF_FMTS)) for _ in range(n)]]
    if k == 'row':
        return [k, r, 0, rng.choice([-1, rng.randrange(NBASE + len(XF_FMTS))])]
    if k == 'colw':
        return [k, c, min(255, c + rng.randrange(5)), rng.randrange(65536)]
    if k == 'chart':
        ks = [x for x in ('num', 'bool', 'lab', 'blank', 'row') if x in allowed(bv)]
        return [k, 0, 0, [item(rng, bv, rng.choice(ks), maxr, maxc) for _ in range(rng.randrange(4))], rng.choice(['', '', '\0\0'])]
    if k == 'col':
        c2 = min(256 if bv >= 30 else 255, c + rng.randrange(5))
        return [k, c, c2, rng.randrange(NBASE + len(XF_FMTS))]
    if k == 'merge':
        out = []
        for _ in range(rng.randrange(4)):
            a, b = ri(rng, maxr + 2), ri(rng, maxc - 1)
            out.append([a, a + rng.randint(1, 4), b, min(256, b + rng.randint(1, 4))])
        return [k, 0, 0, out]


def gen(rng, bvs=(80, 70, 50, 45, 40, 30, 21), kinds=None, n=None, maxr=None, maxc=None):
    bv = rng.choice(bvs)
    ks = [k for k in allowed(bv) if kinds is None or k in kinds]
    maxr = maxr or rng.choice([1, 3, 8, 30])
    maxc = maxc or rng.choice([1, 3, 8, 20, 256])
    items = [item(rng, bv, rng.choice(ks), maxr, maxc) for _ in range(n if n is not None else rng.choice([0, 1, 2, 4, 8, 20]))]
    order = rng.randrange(3)
    if order == 0:
        items.sort(key=lambda i: (i[1], i[2]) if i[0] not in ('row', 'col', 'colw', 'chart', 'merge') else (-1, 0))
    elif order == 1:
        items.sort(key=lambda i: i[1])
    return dict(bv=bv, fmt=rng.randrange(2), ragged=rng.randrange(2), items=items)
