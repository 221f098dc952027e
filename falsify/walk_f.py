"""C12 record framing, C13 BOF, C27 encoding, C33 sheet list, C37 encryption"""
import struct
import codecs
from . import biff as W
from . import sheetmodel as M
from .biff import rec, P, outcome, ustr, bstr
from .view import view, diff

# every record type xlrd gives a meaning to
KNOWN = set([0x203, 0xFD, 0x204, 0xD6, 0x27E, 0xBD, 0x208, 6, 0x206, 0x406, 0x205, 0x7D, 0x55, 0x99, 0xAB, 0x201, 0xBE, 0x200, 0,
             0x1B8, 0x800, 10, 0x5D, 0xEC, 0x1B6, 0x1C, 0x872, 0x809, 0x409, 0x209, 9, 0x8C, 0x15F, 0x221, 0x4BC, 0x1B0, 0x1B1,
             0x225, 0xE5, 0x23E, 0xA0, 0x41, 0x1B, 0x1A, 0x41E, 0x1E, 0x31, 0x231, 0x293, 0x92, 0x56, 0x443, 0x243, 0x43, 0x22, 0x42, 0x2F, 0x5C,
             0x44, 3, 2, 4, 5, 1, 7, 0x207, 0x45, 8, 0x24, 0x20, 0x25, 0x3E, 0x3C, 0xFC, 0xE0, 0x85, 0x23, 0x17, 0x8E, 0x8F, 0x1AE, 0x18, 0x236, 0x37, 0x36])
UNKNOWN = [0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x26, 0x2A, 0x2B, 0x3D, 0x40, 0x4D, 0x81, 0x83, 0xA1, 0xEB, 0xED, 0xFF, 0x1A8,
           0x1B7, 0x1C0, 0x863, 0x8C8, 0xEF, 0xFFFF, 0x2FE, 0x1234, 0x800A, 0x10A, 0x1031]


def bts(rng, n):
    return bytes(rng.choice([0, 10, 255, rng.randrange(256)]) for _ in range(n))


def junk(rng):
    c = rng.choice(UNKNOWN + [rng.randrange(65536)])
    while c in KNOWN or c & 0xFF == 9:
        c = rng.randrange(65536)
    n = rng.choice([0, 0, 1, 2, 4, rng.randrange(30), rng.randrange(300), 8224, 8225, rng.choice([20000, 65535])])
    if n < 40 and rng.random() < .3:
        return rec(c, (rec(10) * 10)[:n])            # content that looks like EOF records
    return rec(c, bts(rng, n) if n < 300 else bytes([rng.randrange(256)]) * n)


def mixed(rng, recs):
    out = []
    for r in recs:
        while rng.random() < .4:
            out.append(junk(rng))
        out.append(r)
    return out


def newbook(mem, pos=0):
    import xlrd.book
    b = xlrd.book.Book()
    b.mem, b._position, b.logfile, b.verbosity = mem, pos, W.NULL, 0
    b.base = 0
    return b


class C12(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(kind='direct', seed=rng.getrandbits(40))
            yield dict(kind='direct', seed=rng.getrandbits(40))
            yield dict(kind='book', seed=rng.getrandbits(40), model=M.gen(rng, n=rng.choice([0, 2, 6])))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        import random
        rng = random.Random(case['seed'])
        if case['kind'] == 'direct':
            pre = bts(rng, rng.randrange(5))
            recs, mem = [], pre
            for _ in range(rng.randrange(1, 6)):
                c, d = rng.choice([rng.randrange(65536), 0x3C, 10, 0]), bts(rng, rng.choice([0, 1, 3, 255, 256, 400]))
                recs.append((c, d))
                mem += rec(c, d)
            cut = rng.random() < .2 and len(recs[-1][1]) > 0
            if cut:
                k = rng.randrange(1, len(recs[-1][1]) + 1)
                recs[-1] = (recs[-1][0], recs[-1][1], recs[-1][1][:len(recs[-1][1]) - k])
                mem = mem[:-k]
            b = newbook(mem, len(pre))
            pos = len(pre)
            for i, r in enumerate(recs):
                c, d = r[0], r[1]
                want = (c, len(d), r[-1])
                if rng.random() < .4:
                    rq = rng.choice([c, c ^ 1, 0x3C, rng.randrange(65536)])
                    o = outcome(b.get_record_parts_conditional, rq)
                    w = want if rq == c else (None, 0, b'')
                    if o != ('ok', w):
                        return 'conditional read of record %d for type %r gives %r, the record is %r' % (i, rq, o, want)
                    if rq != c:
                        if b._position != pos:
                            return 'conditional read of another type moved the position from %d to %d' % (pos, b._position)
                        o = outcome(b.get_record_parts)
                        if o != ('ok', want):
                            return 'record %d read as %r instead of %r' % (i, o, want)
                else:
                    o = outcome(b.get_record_parts)
                    if o != ('ok', want):
                        return 'record %d read as %r instead of %r' % (i, o, want)
                pos += 4 + len(d)
                if b._position != pos:
                    return 'position %d after record %d, the next record starts at %d' % (b._position, i, pos)
            return None
        m = case['model']
        bv, fmt = m['bv'], m['fmt']
        sst = []
        body = [W.dimension(bv, 0, 0)]
        for it in m['items']:
            body.append(M.emit(bv, it, sst))
        g = M.globs(bv)
        post = [M.sst_rec(sst), rec(0x8C, P('<HH', 1, 49)), rec(0x22, P('<H', 1))] if bv >= 80 else []
        strcont = None

        def make(mx):
            if bv >= 50:
                w = W.WB(bv, pre=mx(g), post=mx(post), codepage=1252 if bv < 80 else None)
                w.sheet('One', recs=mx(body)).sheet('Chart', typ=2, recs=mx([rec(0x1001), rec(0x203, b'\0' * 14)]), kind=0x20)
                w.sheet('Two', vis=1, recs=mx([body[0]] + body[1:][::-1]))
                return w.bytes()
            if bv == 45:
                return W.WB(45, codepage=1252).sheet('One', recs=mx(g + body)).bytes()
            return W.WB(bv).sheet('S', recs=mx([rec(0x42, P('<H', 1252))] + g + body)).bytes()
        a = outcome(W.open_bytes, make(list), formatting_info=bool(fmt))
        b = outcome(W.open_bytes, make(lambda r: mixed(rng, r)), formatting_info=bool(fmt))
        if a[0] != b[0]:
            return 'a workbook with uninterpreted records opens differently: %r / %r' % (a, b)
        if a[0] == 'exc':
            return None if a[1] == b[1] else 'different errors %r / %r' % (a, b)
        d = diff(view(a[1]), view(b[1]))
        if d:
            return 'uninterpreted records between the others change %s' % d
        if bv >= 50:
            got = (a[1].sheet_names(), a[1].nsheets)
            if got != (['One', 'Two'], 2):
                return 'sheets %r' % (got,)
        want = M.expect(m)['g']
        for sh in a[1].sheets()[:1]:
            for (r, c), (t, v, x) in want.items():
                if not M.same(sh.cell_value(r, c), v):
                    return 'cell (%d, %d) is %r instead of %r' % (r, c, sh.cell_value(r, c), v)


# ------------------------------------------------------------------ C13
OPS = [0x809, 0x409, 0x209, 9]


def bofspec(mem, pos, rqd):
    m = mem[pos:]
    if len(m) < 4:
        return None
    op, ln = struct.unpack('<HH', m[:4])
    if op not in OPS or not 4 <= ln <= 20 or len(m) < 4 + ln:
        return None
    d = m[4:4 + ln] + b'\0' * 8
    vers, kind, build, year = struct.unpack('<HHHH', d[:8])
    if op == 0x809:
        if vers == 0x600:
            v = 80
        elif vers == 0x500:
            v = 50 if year < 1994 or build in (2412, 3218, 3321) else 70
        else:
            v = {0: 21, 7: 21, 0x200: 21, 0x300: 30, 0x400: 40}.get(vers, 0)
    else:
        v = {0x409: 40, 0x209: 30, 9: 21}[op]
    if v == 40 and kind == 0x100:
        v = 45
    if rqd == 5 and (kind == 5 or (v == 45 and kind == 0x100)) or kind == rqd or (v < 50 and kind == 0x10):
        return v, pos + 4 + ln
    return None


class C13(object):
    @staticmethod
    def cases(rng, deep):
        base = []
        for op in OPS:
            for vers in (0x600, 0x500, 0, 7, 0x200, 0x300, 0x400, 0x601):
                for kind in (5, 0x10, 0x100, 0x20):
                    for ln in (4, 5, 6, 7, 8, 16, 20):
                        for by in ((0, 0), (2412, 1996), (3218, 1995), (3321, 1997), (1, 1993), (1, 1994), (9, 1998)):
                            base.append((op, vers, kind, ln, by))
        rng.shuffle(base)
        for op, vers, kind, ln, by in base:
            body = (P('<HHHH', vers, kind, *by) + b'\x11' * 12)[:ln]
            pre = rng.choice([0, 0, 3])
            yield dict(mem=(b'\x55' * pre + rec(op, body) + b'\x01' * rng.choice([0, 8])).hex(), pos=pre, rqd=rng.choice([5, 0x10]))
        while True:
            op = rng.choice(OPS + [0x809, 0x10, 0x8, rng.randrange(65536)])
            ln = rng.choice([0, 3, 4, 8, 16, 20, 21, rng.randrange(40)])
            vers = rng.choice([0x600, 0x500, 0x400, rng.randrange(65536)])
            body = P('<HHHH', vers, rng.choice([5, 0x10, 0x100, 0x20, 0x40, 6, rng.randrange(300)]), rng.choice([2412, 3218, 3321, 3320, rng.randrange(65536)]),
                     rng.choice([1993, 1994, 0, 1900, 2000, rng.randrange(65536)])) + bts(rng, 32)
            mem = rec(op, body[:ln])
            if rng.random() < .3:
                mem = mem[:rng.randrange(len(mem) + 1)]
            pre = rng.randrange(4)
            yield dict(mem=(bts(rng, pre) + mem).hex(), pos=pre, rqd=rng.choice([5, 0x10]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        mem = bytes.fromhex(case['mem'])
        b = newbook(mem, case['pos'])
        o = outcome(b.getbof, case['rqd'])
        w = bofspec(mem, case['pos'], case['rqd'])
        if w is None:
            if o[0] == 'ok' or o[1] != 'XLRDError':
                return 'BOF that has to be rejected with XLRDError gives %r' % (o,)
        else:
            if o != ('ok', w[0]):
                return 'BOF of version %r gives %r' % (w[0], o)
            if b._position != w[1]:
                return 'position %d after the BOF instead of %d' % (b._position, w[1])
        if case['pos'] == 0 and case['rqd'] == 5 and (w is None or w[0] == 0):
            o = outcome(W.open_bytes, mem or b'\0')
            if o[0] == 'ok' or o[1] != 'XLRDError':
                return 'open_workbook of a stream without acceptable BOF gives %r' % (o,)
        elif case['pos'] == 0 and case['rqd'] == 5 and w[0] >= 50:
            tail = W.font(w[0]) * 4 + W.xfrec(w[0]) * 16 + W.EOF
            o = outcome(W.open_bytes, mem[:w[1]] + tail)
            if o[0] != 'ok' or o[1].biff_version != w[0]:
                return 'workbook of version %r opens as %r' % (w[0], o[1].biff_version if o[0] == 'ok' else o)


# ------------------------------------------------------------------ C27
SPECIAL = {1200: 'utf_16_le', 10000: 'mac_roman', 10006: 'mac_greek', 10007: 'mac_cyrillic', 10029: 'mac_latin2', 10079: 'mac_iceland',
           10081: 'mac_turkish', 32768: 'mac_roman', 32769: 'cp1252'}


def encspec(bv, cp, ov):
    if ov:
        return ov
    if cp is None:
        return 'iso-8859-1' if bv < 80 else None
    if cp in SPECIAL:
        return SPECIAL[cp]
    if 300 <= cp <= 1999:
        return 'cp%d' % cp
    return 'utf_16_le' if bv >= 80 else 'unknown_codepage_%d' % cp


class C27(object):
    CPS = [None, 1252, 1251, 437, 850, 1250, 1253, 1254, 866, 874, 932, 936, 949, 1200, 10000, 10006, 10007, 10029, 10081, 32768, 32769, 367, 1361,
           299, 300, 1999, 2000, 0, 65001, 65535, 10079, 1201, 720, 1258, 1255]

    @staticmethod
    def cases(rng, deep):
        for bv in (80, 70, 50, 45, 40, 30, 21):
            for cp in C27.CPS:
                yield dict(bv=bv, cp=cp, ov=None, raw=[65, 233, 228, 66], user=1)
        while True:
            yield dict(bv=rng.choice([80, 70, 50, 45, 40, 30, 21]), cp=rng.choice(C27.CPS + [rng.randrange(65536), rng.randrange(300, 2000)]),
                       ov=rng.choice([None, None, '', 'cp1251', 'koi8_r', 'latin-1', 'no_such_codec', 'cp437']),
                       raw=[rng.randrange(32, 256) for _ in range(rng.randrange(1, 9))], user=rng.randrange(3))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        bv, cp, ov = case['bv'], case['cp'], case['ov']
        if bv < 80 and cp == 1200:
            return None                                 # byte strings in UTF-16: not a format
        enc = encspec(bv, cp, ov)
        raw = bytes(case['raw'])
        cprec = rec(0x42, P('<H', cp)) if cp is not None else b''
        user = rec(0x5C, bstr(raw) + b' ' * 10) if bv < 80 else rec(0x5C, ustr('User', 2) + b' ' * 20)
        head = [b'', user + cprec, cprec + user][case['user']] or cprec
        g = M.globs(bv)
        lab = M.emit(bv, ['lab', 0, 0, 0, raw.decode('latin-1')], []) if bv < 80 else M.emit(bv, ['num', 0, 0, 0, 0], [])
        body = [W.dimension(bv, 0, 0), lab]
        raw2 = raw[:20]
        if bv >= 50:
            data = W.WB(bv, pre=[head] + g).sheet('S', recs=body, rawname=None if bv >= 80 else bstr(raw2)).bytes()
        elif bv == 45:
            data = W.WB(45, pre=[head]).sheet(raw2.decode('latin-1'), recs=g + body).bytes()
        else:
            data = W.WB(bv).sheet('S', recs=[head] + g + body).bytes()
        o = outcome(W.open_bytes, data, encoding_override=ov)
        unchecked = cp == 1200 or (bv >= 80 and not ov and (cp is None or enc == 'utf_16_le'))
        try:
            if not unchecked:
                b'trial'.decode(enc)
        except (LookupError, UnicodeError):
            return None if o[0] == 'exc' and o[1] in ('LookupError', 'UnicodeDecodeError') else 'unusable codec %r: %r' % (enc, o)
        if bv < 80:
            try:
                want = raw.decode(enc)
                wname = raw2.decode(enc)
                bstr_user = raw.decode(enc)
            except UnicodeDecodeError:
                return None if o[0] == 'exc' else 'undecodable bytes were decoded: %r' % (o,)
        if o[0] != 'ok':
            return 'opening fails with %r, encoding %r' % (o, enc)
        bk = o[1]
        if enc is not None and bk.encoding != enc:
            return 'encoding %r instead of %r' % (bk.encoding, enc)
        if bk.encoding:
            again = outcome(bk.derive_encoding)
            if again != ('ok', bk.encoding):
                return 'derive_encoding() gives %r, the encoding is %r' % (again, bk.encoding)
        if bv < 80:
            if bk.sheet_by_index(0).cell_value(0, 0) != want:
                return 'label %r instead of %r' % (bk.sheet_by_index(0).cell_value(0, 0), want)
            if bv >= 45 and bk.sheet_names() != [wname]:
                return 'sheet name %r instead of %r' % (bk.sheet_names(), wname)
            if case['user'] and bk.user_name != want.rstrip():
                return 'user name %r instead of %r' % (bk.user_name, want.rstrip())
        elif case['user'] and bk.user_name != 'User':
            return 'user name %r' % bk.user_name


# ------------------------------------------------------------------ C33
NAMES = ['A', 'Sheet1', 'x' * 31, '\u20ac\u0416', 'a\xe9', "it's", 'B', 'C c', 'Z', 'Data', '\u4e2d']


class C33(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice([80, 80, 70, 50, 45, 40, 30, 21])
            n = rng.choice([1, 2, 3, 6]) if bv >= 45 else 1
            names = rng.sample(NAMES if bv >= 80 else [x for x in NAMES if max(map(ord, x)) < 256], n)
            sheets = [[nm, rng.randrange(3), rng.choice([0, 0, 0, 1, 2, 6, 5]), rng.randrange(1000)] for nm in names]
            order = list(range(n))
            rng.shuffle(order)
            yield dict(bv=bv, sheets=sheets, order=order, gaps=[rng.choice([0, 0, 3, 40]) for _ in range(n)], od=rng.randrange(2), wide=rng.randrange(2),
                       base=0)

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        bv, sheets = case['bv'], case['sheets']
        g = M.globs(bv)

        def body(s):
            d = struct.unpack('<Q', P('<d', float(s[3])))[0]
            return [W.dimension(bv, 0, 0), M.emit(bv, ['num', 0, 0, 0, d], [])]
        if bv >= 50:
            head = W.bof(bv, 5) + (rec(0x42, P('<H', 1252)) if bv < 80 else b'') + b''.join(g)
            parts, pos = {}, []
            bs = [rec(0x85, P('<iBB', 0, s[1], s[2]) + (ustr(s[0], 1, wide=True if case['wide'] else None) if bv >= 80 else bstr(s[0].encode('latin-1')))) for s in sheets]
            off = len(head) + sum(map(len, bs)) + len(W.EOF)
            tail = b''
            where = {}
            for k in case['order']:
                tail += b'\xEE' * case['gaps'][k]
                where[k] = off + len(tail)
                tail += W.bof(bv, 0x10 if sheets[k][2] == 0 else 0x20) + b''.join(body(sheets[k])) + W.EOF
            bs = [x[:4] + P('<i', where[k]) + x[8:] for k, x in enumerate(bs)]
            data = head + b''.join(bs) + W.EOF + tail
            want = [s for s in sheets if s[2] == 0]
        elif bv == 45:
            w = W.WB(45, codepage=1252)
            for s in sheets:
                w.sheet(s[0], recs=g + body(s))
            data = w.bytes()
            want = [[s[0], 0, 0, s[3]] for s in sheets]
        else:
            data = W.WB(bv).sheet('S', recs=g + body(sheets[0])).bytes()
            want = [['Sheet 1', 0, 0, sheets[0][3]]]
        o = outcome(W.open_bytes, data, on_demand=bool(case['od']))
        if o[0] != 'ok':
            return 'opening fails: %r' % (o,)
        bk = o[1]
        if bk.nsheets != len(want) or bk.sheet_names() != [s[0] for s in want]:
            return 'sheets %r, nsheets %d instead of %r' % (bk.sheet_names(), bk.nsheets, [s[0] for s in want])
        order = list(range(len(want)))
        for i in order[::-1] if case['od'] else order:
            o = outcome(bk.sheet_by_index, i)
            if o[0] != 'ok':
                return 'sheet %d cannot be read: %r' % (i, o)
            sh = o[1]
            got = (sh.name, sh.visibility, sh.number, sh.nrows, sh.cell_value(0, 0))
            if got != (want[i][0], want[i][1], i, 1, float(want[i][3])):
                return 'sheet %d: %r instead of %r' % (i, got, want[i])
            if bk.sheet_by_name(want[i][0]) is not sh:
                return 'sheet_by_name gives another sheet'


# ------------------------------------------------------------------ C37
class C37(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice([80, 80, 70, 50, 45, 40, 30, 21])
            if bv >= 80:
                k = rng.randrange(4)
                d = [P('<HHH', 0, rng.randrange(65536), rng.randrange(65536)), P('<HHH', 1, 1, 1) + bts(rng, 48), P('<HHH', 1, 2, rng.randrange(5)) + bts(rng, 80),
                     P('<H', rng.randrange(2, 65536)) + bts(rng, rng.randrange(60))][k]
            else:
                d = bts(rng, rng.choice([4, 4, 0, 6, 16]))
            yield dict(bv=bv, data=d.hex(), at=rng.randrange(4), verb=rng.choice([0, 1, 2, 3]), od=rng.randrange(2), fmt=rng.randrange(2), seed=rng.getrandbits(30))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        import random
        import xlrd
        rng = random.Random(case['seed'])
        bv = case['bv']
        fp = rec(0x2F, bytes.fromhex(case['data']))
        # the records after FILEPASS are encrypted: types and lengths intact, contents garbage
        g = M.globs(bv)
        enc = [r[:4] + bts(rng, len(r) - 4) for r in g]
        at = min(case['at'], len(g)) if bv >= 50 else 0
        pre = g[:at] + [fp] + (enc[at:] if at == 0 else g[at:])
        body = [W.dimension(bv, 0, 0)]
        if bv >= 50:
            data = W.WB(bv, pre=pre).sheet('S', recs=body).bytes()
        elif bv == 45:
            data = W.WB(45, pre=[fp]).sheet('S', recs=g + body).bytes()
        else:
            data = W.WB(bv).sheet('S', recs=pre + body).bytes()
        o = outcome(W.open_bytes, data, on_demand=bool(case['od']), formatting_info=bool(case['fmt']), verbosity=case['verb'])
        if o[0] == 'ok':
            return 'an encrypted workbook was opened'
        if o[1] != 'XLRDError' or 'encrypted' not in o[2]:
            return 'an encrypted workbook is refused with %r' % (o[1:],)
