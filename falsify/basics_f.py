"""Executable contracts of the byte-level decoders, run on the real code."""
import struct
import random
from . import biff as W
from .biff import outcome, P


def hx(s):
    return bytes.fromhex(s[4:]) if isinstance(s, str) and s.startswith('hex:') else None


def rb(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


EDGE = (0, 1, 2, 3, 4, 127, 128, 255, 256, 16383, 16384, 32767, 32768, 65534, 65535)


def pick(rng, hi=65535):
    if rng.random() < .5:
        return min(hi, rng.choice(EDGE))
    return rng.randint(0, hi)


class C04(object):
    @staticmethod
    def ref(b):
        r, = P and struct.unpack('<I', b)
        if r & 2:
            i = struct.unpack('<i', b)[0] >> 2
            return i / 100.0 if r & 1 else float(i)
        d, = struct.unpack('<d', struct.pack('<Q', (r & ~3) << 32))
        return d / 100.0 if r & 1 else d

    @staticmethod
    def test(case):
        import xlrd.sheet
        b = bytes.fromhex(case['rk'])
        w = C04.ref(b)
        g = outcome(xlrd.sheet.unpack_RK, b)
        if g[0] != 'ok' or type(g[1]) is not float or struct.pack('<d', g[1]) != struct.pack('<d', w):
            if not (g[0] == 'ok' and g[1] != g[1] and w != w):
                return 'unpack_RK(%s) -> %r, want %r' % (case['rk'], g, w)
        if 'file' in case:
            row, col, n = case['file']
            recs = [W.dimension(80)]
            if n == 0:
                recs.append(W.rec(0x27E, P('<HHH', row, col, 0) + b))
                cells = {(row, col): w}
            else:
                body = P('<HH', row, col)
                cells = {}
                for i in range(n):
                    bb = struct.pack('<I', (struct.unpack('<I', b)[0] + i * 0x10003) & 0xFFFFFFFF)
                    body += P('<H', 0) + bb
                    cells[row, col + i] = C04.ref(bb)
                recs.append(W.rec(0xBD, body + P('<H', col + n - 1)))
            wb = W.WB(80, pre=W.std_globals(80)).sheet('S', recs=recs)
            bk = W.open_bytes(wb.bytes())
            sh = bk.sheet_by_index(0)
            for (r, c), v in cells.items():
                x = sh.cell_value(r, c)
                if struct.pack('<d', x) != struct.pack('<d', v) and not (x != x and v != v):
                    return 'cell (%d,%d) -> %r, want %r' % (r, c, x, v)

    @staticmethod
    def cases(rng, deep):
        for hi in (0, 1, 2, 3, 0x80, 0xC0, 0xFF, 0x7F, 0x40, 0x3F):
            for lo in range(8):
                yield dict(rk=bytes([lo, 0, 0, hi]).hex())
                yield dict(rk=bytes([lo | 0xF8, 0xFF, 0xFF, hi]).hex())
        while True:
            b = rb(rng, 4)
            for f in range(4):
                yield dict(rk=bytes([b[0] & ~3 | f]).hex() + b[1:].hex())
            if rng.random() < .02:
                yield dict(rk=b.hex(), file=[rng.randrange(100), rng.randrange(100), rng.randrange(5)])

    @staticmethod
    def from_model(i):
        b = hx(i.get('rk'))
        return [dict(rk=b.hex())] if b else []


class C05(object):
    @staticmethod
    def ref_u(d, pos, lenlen, known):
        """(text, end position) or None when the bytes are not a complete string"""
        if known is None:
            n = int.from_bytes(d[pos:pos + lenlen], 'little')
            if pos + lenlen > len(d):
                return None
            pos += lenlen
        else:
            n = known
        if n == 0 and pos >= len(d):
            return ('', pos)
        if pos >= len(d):
            return None
        f = d[pos]
        pos += 1
        rt = sz = 0
        if f & 8:
            if pos + 2 > len(d):
                return None
            rt = int.from_bytes(d[pos:pos + 2], 'little')
            pos += 2
        if f & 4:
            if pos + 4 > len(d):
                return None
            sz = int.from_bytes(d[pos:pos + 4], 'little')
            pos += 4
            if sz >= 2 ** 31:
                return None
        nb = n * 2 if f & 1 else n
        if pos + nb > len(d):
            return None
        try:
            s = d[pos:pos + nb].decode('utf-16-le' if f & 1 else 'latin-1')
        except UnicodeDecodeError:
            return None
        return (s, pos + nb + 4 * rt + sz)

    @staticmethod
    def test(case):
        from xlrd import biffh
        d = bytes.fromhex(case['data'])
        pos, lenlen, known, enc = case['pos'], case['lenlen'], case.get('known'), case.get('enc')
        if enc is None:
            w = C05.ref_u(d, pos, lenlen, known)
            if w is None:
                return
            g = outcome(biffh.unpack_unicode_update_pos, d, pos, lenlen, known)
            if g != ('ok', w):
                return 'unicode string at %d of %s (length size %d, known %r) -> %r, want %r' % (pos, d.hex(), lenlen, known, g, w)
            if known is None:
                g = outcome(biffh.unpack_unicode, d, pos, lenlen)
                if g != ('ok', w[0]):
                    return 'unicode string at %d of %s (length size %d) -> %r, want %r' % (pos, d.hex(), lenlen, g, w[0])
        else:
            p = pos
            if known is None:
                n = int.from_bytes(d[p:p + lenlen], 'little')
                p += lenlen
            else:
                n = known
            if p + n > len(d):
                return
            try:
                s = d[p:p + n].decode(enc)
            except UnicodeDecodeError:
                return
            g = outcome(biffh.unpack_string_update_pos, d, pos, enc, lenlen, known)
            if g != ('ok', (s, p + n)):
                return 'byte string at %d of %s (%s) -> %r, want %r' % (pos, d.hex(), enc, g, (s, p + n))
            if known is None:
                g = outcome(biffh.unpack_string, d, pos, enc, lenlen)
                if g != ('ok', s):
                    return 'byte string at %d of %s (%s) -> %r, want %r' % (pos, d.hex(), enc, g, s)

    @staticmethod
    def cases(rng, deep):
        while True:
            pre = rb(rng, rng.randrange(4))
            lenlen = rng.choice((1, 2))
            known = rng.random() < .3
            if rng.random() < .3:
                enc = rng.choice(('latin-1', 'cp1252', 'cp1251', 'mac_roman', 'utf-8', 'cp932'))
                n = rng.choice((0, 1, 2, 5, 20, 200, 255))
                b = rb(rng, n) if enc != 'utf-8' else bytes(rng.randrange(32, 127) for _ in range(n))
                d = pre + (b'' if known else int.to_bytes(n, lenlen, 'little')) + b + rb(rng, rng.randrange(5))
                yield dict(data=d.hex(), pos=len(pre), lenlen=lenlen, known=n if known else None, enc=enc)
                continue
            n = rng.choice((0, 0, 1, 2, 3, 17, 100, 127, 128, 255)) if lenlen == 1 or known else rng.choice((0, 1, 2, 3, 200, 255, 256, 300, 2000))
            kind = rng.randrange(4)
            pool = {0: (32, 126), 1: (1, 255), 2: (0x100, 0xD7FF), 3: (0x10000, 0x10FFFF)}[kind]
            s = ''
            while len(s.encode('utf-16-le')) // 2 < n:
                left = n - len(s.encode('utf-16-le')) // 2
                s += chr(rng.randint(*pool)) if not (kind == 3 and (left == 1 or rng.random() < .5)) else chr(rng.randint(32, 0x3000))
            wide = kind >= 2 or rng.random() < .3
            runs = [(rng.randrange(65536), rng.randrange(65536)) for _ in range(rng.choice((0, 1, 3)))] if rng.random() < .4 else None
            ph = rb(rng, rng.choice((0, 1, 12, 300))) if rng.random() < .4 else None
            b = W.ustr(s, lenlen, wide, runs, ph)
            if known:
                b = b[lenlen:]
            if n == 0 and rng.random() < .3:
                b = b'' if known else b[:lenlen]
                d = pre + b
            else:
                if rng.random() < .2:
                    b = b[:lenlen if not known else 0] + bytes([b[lenlen if not known else 0] | rng.choice((2, 0x10, 0xF0))]) + b[(lenlen if not known else 0) + 1:]
                d = pre + b + rb(rng, rng.randrange(6))
            yield dict(data=d.hex(), pos=len(pre), lenlen=lenlen, known=n if known else None)

    @staticmethod
    def from_model(i):
        d = hx(i.get('data'))
        if d is None:
            return []
        return [dict(data=d.hex(), pos=i.get('pos', 0), lenlen=i.get('lenlen', 1), known=i.get('known_len'), enc=e)
                for e in (None, 'latin-1', 'cp1252')]


def a1(n):
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def relref(r, c, rr, cr, br, bc, rc):
    if (rr or cr) and br is None:
        rc = 1
    if rc:
        return 'R' + (('[%d]' % r if r else '') if rr else '%d' % (r + 1)) + \
            'C' + (('[%d]' % c if c else '') if cr else '%d' % (c + 1))
    return ('' if cr else '$') + a1((bc + c) % 256 if cr else c) + ('' if rr else '$') + \
        '%d' % ((br + r) % 65536 + 1 if rr else r + 1)


class C14(object):
    @staticmethod
    def test(case):
        import xlrd
        import xlrd.formula as F
        import xlrd.book as B
        k = case['op']
        a = case['args']
        if k == 'col':
            g, w = outcome(xlrd.colname, a[0]), a1(a[0])
        elif k == 'bcol':
            g, w = outcome(B.colname, a[0]), a1(a[0])
        elif k == 'cell':
            g, w = outcome(xlrd.cellname, *a), a1(a[1]) + str(a[0] + 1)
        elif k == 'cellabs':
            g, w = outcome(xlrd.cellnameabs, *a), '$%s$%d' % (a1(a[1]), a[0] + 1)
            if len(a) > 2 and a[2]:
                w = 'R%dC%d' % (a[0] + 1, a[1] + 1)
        elif k == 'range':
            g = outcome(F.rangename2d, *a)
            w = '$%s$%d' % (a1(a[2]), a[0] + 1)
            if not (a[1] == a[0] + 1 and a[3] == a[2] + 1):
                w += ':$%s$%d' % (a1(a[3] - 1), a[1])
        elif k == 'rel':
            g, w = outcome(F.cellnamerel, *a), relref(*a)
        elif k == 'rangerel':
            (rlo, rhi, clo, chi), (a1_, a2, a3, a4), br, bc, rc = a
            g = outcome(F.rangename2drel, (rlo, rhi, clo, chi), (a1_, a2, a3, a4), br, bc, rc)
            if (a1_ or a2 or a3 or a4) and br is None:
                if (a1_ or a2) and not (a3 or a4) or (a3 or a4) and not (a1_ or a2):
                    pass
                rc = 1
            w = relref(rlo, clo, a1_, a3, br, bc, rc) + ':' + relref(rhi - 1, chi - 1, a2, a4, br, bc, rc)
        if g != ('ok', w):
            return '%s%r -> %r, want %r' % (k, tuple(a), g, w)

    @staticmethod
    def cases(rng, deep):
        for c in range(702):
            yield dict(op='col', args=[c])
        for c in list(range(20000)):
            yield dict(op='bcol', args=[c])
        for c in range(0, 256):
            yield dict(op='cell', args=[c * 256 + c, c])
            yield dict(op='cellabs', args=[c * 7, c])
        while True:
            r, c = pick(rng), rng.randrange(256)
            k = rng.randrange(5)
            if k == 0:
                yield dict(op='cell', args=[r, c])
            elif k == 1:
                yield dict(op='cellabs', args=[r, c, rng.randrange(2)])
            elif k == 2:
                yield dict(op='range', args=[r, r + rng.choice((1, 2, 100)), c, c + rng.choice((1, 1, 2, 50))])
            else:
                rel = [rng.randrange(2) for _ in range(4)]
                base = rng.randrange(2)
                br, bc = (rng.randrange(65536), rng.randrange(256)) if base else (None, None)
                rc = rng.randrange(2)

                def rv(f):
                    return rng.choice((0, 1, -1, rng.randint(-32768, 32767))) if f else rng.randrange(65536)

                def cv(f):
                    return rng.choice((0, 1, -1, rng.randint(-128, 127))) if f else rng.randrange(256)
                if k == 3:
                    yield dict(op='rel', args=[rv(rel[0]), cv(rel[1]), rel[0], rel[1], br, bc, rc])
                else:
                    yield dict(op='rangerel', args=[[rv(rel[0]), rv(rel[1]) + 1, cv(rel[2]), cv(rel[3]) + 1], rel, br, bc, rc])

    @staticmethod
    def from_model(i):
        out = []
        if 'rowrel' in i:
            b = i.get('hasr')
            out.append(dict(op='rel', args=[i['rowx'], i['colx'], i['rowrel'], i['colrel'],
                                            i['browx'] if b else None, i['bcolx'] if b else None, i['r1c1']]))
        elif 'rlo' in i:
            out.append(dict(op='range', args=[i['rlo'], i['rhi'], i['clo'], i['chi']]))
        elif 'rowx' in i:
            out.append(dict(op='cell', args=[i['rowx'], i['colx']]))
            out.append(dict(op='cellabs', args=[i['rowx'], i['colx'], 0]))
            out.append(dict(op='cellabs', args=[i['rowx'], i['colx'], 1]))
        return out


class C15(object):
    @staticmethod
    def ref(bv, rv, cv, reldelta, br, bc):
        if bv >= 80:
            rr, cr, row, col, nr = cv >> 15 & 1, cv >> 14 & 1, rv, cv & 255, 65536
        else:
            rr, cr, row, col, nr = rv >> 15 & 1, rv >> 14 & 1, rv & 0x3FFF, cv, 16384
        if reldelta:
            if rr and row >= nr // 2:
                row -= nr
            if cr and col >= 128:
                col -= 256
        else:
            row -= br if rr else 0
            col -= bc if cr else 0
        return (row, col, rr, cr)

    @staticmethod
    def test(case):
        import xlrd.formula as F
        d = bytes.fromhex(case['data'])
        pos, bv, rd, br, bc = case['pos'], case['bv'], case['reldelta'], case['br'], case['bc']
        f = '<HH' if bv >= 80 else '<HB'
        n = struct.calcsize(f)
        if pos + n <= len(d):
            w = C15.ref(bv, *struct.unpack_from(f, d, pos), rd, br, bc)
            g = outcome(F.get_cell_addr, d, pos, bv, rd, br, bc)
            if g[0] != 'ok' or tuple(g[1]) != w:
                return 'cell address %s at %d (BIFF%d, delta %d, base %d,%d) -> %r, want %r' % (d.hex(), pos, bv, rd, br, bc, g, w)
        f = '<HHHH' if bv >= 80 else '<HHBB'
        n = struct.calcsize(f)
        if pos + n <= len(d):
            r1, r2, c1, c2 = struct.unpack_from(f, d, pos)
            w = (C15.ref(bv, r1, c1, rd, br, bc), C15.ref(bv, r2, c2, rd, br, bc))
            g = outcome(F.get_cell_range_addr, d, pos, bv, rd, br, bc)
            if g[0] != 'ok' or tuple(map(tuple, g[1])) != w:
                return 'area address %s at %d (BIFF%d, delta %d, base %d,%d) -> %r, want %r' % (d.hex(), pos, bv, rd, br, bc, g, w)

    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice((80, 80, 70, 50, 45, 40, 30, 21))
            pre = rb(rng, rng.randrange(3))
            if bv >= 80:
                d = P('<HHHH', pick(rng), pick(rng), pick(rng), pick(rng))
            else:
                d = P('<HHBB', pick(rng), pick(rng), pick(rng, 255), pick(rng, 255))
            yield dict(data=(pre + d).hex(), pos=len(pre), bv=bv, reldelta=rng.randrange(2), br=pick(rng), bc=pick(rng, 255))

    @staticmethod
    def from_model(i):
        d = hx(i.get('data'))
        return [dict(data=d.hex(), pos=i['pos'], bv=i['bv'], reldelta=i['reldelta'], br=i['browx'], bc=i['bcolx'])] if d else []


class C30(object):
    @staticmethod
    def test(case):
        from xlrd import biffh
        d = bytes.fromhex(case['data'])
        pos, size = case['pos'], case['size']
        if pos + 2 > len(d):
            return
        n, = struct.unpack_from('<H', d, pos)
        if pos + 2 + n * size > len(d):
            return
        w = [(9, 9, 9, 9)]
        for i in range(n):
            a = struct.unpack_from('<HHHH' if size == 8 else '<HHBB', d, pos + 2 + i * size)
            w.append((a[0], a[1] + 1, a[2], a[3] + 1))
        out = [(9, 9, 9, 9)]
        g = outcome(biffh.unpack_cell_range_address_list_update_pos, out, d, pos, case['bv'], size)
        if g != ('ok', pos + 2 + n * size) or [tuple(x) for x in out] != w:
            return 'range list %s at %d (entry size %d) -> %r %r, want %r' % (d.hex()[:200], pos, size, g, out[:6], w[:6])
        if case.get('file') and size == 8:
            bv = case['bv']
            ranges = [x for x in w[1:]]
            recs = W.std_globals(bv) if bv < 50 else []
            recs = recs + [W.dimension(bv)]
            body = d[pos:pos + 2 + n * 8]
            good = all(a < b <= (65536 if bv >= 80 else 16384) and c < e <= 256 for a, b, c, e in ranges)
            if good and case['file'] == 1:
                recs.append(W.rec(0xE5, body))
            else:
                recs.append(W.rec(0x15F, body + body))
            wb = W.WB(bv, pre=W.std_globals(bv) if bv >= 50 else []).sheet('S', recs=recs)
            bk = W.open_bytes(wb.bytes(), formatting_info=True, ragged_rows=True)
            sh = bk.sheet_by_index(0)
            if good and case['file'] == 1:
                if [tuple(x) for x in sh.merged_cells] != ranges:
                    return 'merged cells -> %r, want %r' % (sh.merged_cells[:5], ranges[:5])
                if ranges and (sh.nrows, sh.ncols) != (max(r[1] for r in ranges), max(r[3] for r in ranges)):
                    return 'sheet size %r does not cover merged ranges %r' % ((sh.nrows, sh.ncols), ranges[:4])
            elif [tuple(x) for x in sh.row_label_ranges] != ranges or [tuple(x) for x in sh.col_label_ranges] != ranges:
                return 'label ranges -> %r %r, want %r' % (sh.row_label_ranges[:4], sh.col_label_ranges[:4], ranges[:4])

    @staticmethod
    def cases(rng, deep):
        k = 0
        while True:
            k += 1
            size = rng.choice((6, 8))
            n = rng.choice((0, 1, 2, 3, 10, 50))
            pre = rb(rng, rng.randrange(4))
            d = P('<H', n)
            for _ in range(n):
                if rng.random() < .5:
                    a, b, c, e = rng.randrange(300), rng.randrange(300), rng.randrange(256), rng.randrange(256)
                    a, b, c, e = min(a, b), max(a, b), min(c, e), max(c, e)
                else:
                    a, b, c, e = pick(rng), pick(rng), pick(rng, 255), pick(rng, 255)
                    a, b, c, e = min(a, b), max(a, b), min(c, e), max(c, e)
                d += P('<HHHH' if size == 8 else '<HHBB', a, b, c, e)
            yield dict(data=(pre + d + rb(rng, rng.randrange(3))).hex(), pos=len(pre), size=size,
                       file=rng.choice((1, 2)) if k % 20 == 0 else 0, bv=rng.choice((80, 80, 70, 50)))

    @staticmethod
    def from_model(i):
        d = hx(i.get('data'))
        return [dict(data=d.hex(), pos=i.get('pos', 0), size=i.get('addr_size', 8), bv=i.get('bv', 80))] if d else []
