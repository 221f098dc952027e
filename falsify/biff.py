"""Independent writer of BIFF streams (written from the file format documentation),
used to produce inputs for the executable contracts."""
import struct
import io
import os
import sys

P = struct.pack
NULL = open(os.devnull, 'w')


def rec(code, data=b''):
    assert len(data) <= 0xFFFF
    return P('<HH', code, len(data)) + data


def bof(bv, kind):
    """kind: 5 globals, 0x10 worksheet, 0x20 chart, 0x40 macro, 0x100 4W globals"""
    if bv == 80:
        return rec(0x809, P('<HHHHII', 0x600, kind, 3515, 1996, 0, 0x600))
    if bv == 70:
        return rec(0x809, P('<HHHH', 0x500, kind, 4000, 1995))
    if bv == 50:
        return rec(0x809, P('<HHHH', 0x500, kind, 2412, 1993))
    if bv in (40, 45):
        return rec(0x409, P('<HHH', 0x400, kind, 0))
    if bv == 30:
        return rec(0x209, P('<HHH', 0x300, kind, 0))
    return rec(0x009, P('<HH', 0x200, kind))


EOF = rec(0x0A)


def ustr(s, lenlen=2, wide=None, runs=None, phon=None):
    """BIFF8 unicode string; s: str"""
    u16 = s.encode('utf-16-le', 'surrogatepass')
    n = len(u16) // 2
    if wide is None:
        wide = any(ord(c) > 255 for c in s)
    flags = (1 if wide else 0) | (8 if runs is not None else 0) | (4 if phon is not None else 0)
    out = P('<' + 'BH'[lenlen - 1], n) + bytes([flags])
    if runs is not None:
        out += P('<H', len(runs))
    if phon is not None:
        out += P('<i', len(phon))
    out += u16 if wide else s.encode('latin-1')
    for r in runs or ():
        out += P('<HH', *r)
    out += phon or b''
    return out


def bstr(b, lenlen=1):
    return P('<' + 'BH'[lenlen - 1], len(b)) + b


class WB(object):
    """workbook assembled from raw records.  sheets: [name, visibility, type, [records]]"""

    def __init__(self, bv=80, pre=(), post=(), codepage=None, base=0):
        self.bv = bv
        self.pre = list(pre)       # global records before BOUNDSHEET
        self.post = list(post)     # global records after BOUNDSHEET
        self.sheets = []
        self.codepage = codepage

    def sheet(self, name='Sheet1', vis=0, typ=0, recs=(), kind=0x10, dim=None, rawname=None):
        self.sheets.append(dict(name=name, vis=vis, typ=typ, recs=list(recs), kind=kind, raw=rawname))
        return self

    def bytes(self):
        bv = self.bv
        if bv <= 40:
            s = self.sheets[0]
            return bof(bv, s['kind']) + b''.join(self.pre) + b''.join(s['recs']) + EOF
        if bv == 45:
            return self.bytes45()
        for attempt in (0, 1):
            out = bof(bv, 5)
            if self.codepage is not None:
                out += rec(0x42, P('<H', self.codepage))
            out += b''.join(self.pre)
            offs = []
            for i, s in enumerate(self.sheets):
                offs.append(len(out) + 4)
                nm = s['raw']
                if nm is None:
                    nm = ustr(s['name'], 1) if bv == 80 else bstr(s['name'].encode('latin-1'), 1)
                out += rec(0x85, P('<iBB', 0, s['vis'], s['typ']) + nm)
            out += b''.join(self.post) + EOF
            b = bytearray(out)
            for i, s in enumerate(self.sheets):
                b[offs[i]:offs[i] + 4] = P('<i', len(b))
                b += bof(bv, s['kind']) + b''.join(s['recs']) + EOF
            return bytes(b)

    def bytes45(self):
        out = bof(45, 0x100)
        if self.codepage is not None:
            out += rec(0x42, P('<H', self.codepage))
        out += b''.join(self.pre)
        offp = len(out) + 4
        out += rec(0x8E, P('<i', 0))
        for s in self.sheets:
            out += rec(0x85, bstr(s['name'].encode('latin-1'), 1))
        out += b''.join(self.post)
        b = bytearray(out)
        b[offp:offp + 4] = P('<i', len(b))
        for s in self.sheets:
            body = bof(40, 0x10) + b''.join(s['recs']) + EOF
            b += rec(0x8F, P('<i', len(body)) + bstr(s['name'].encode('latin-1'), 1)) + body
        b += EOF
        return bytes(b)


def open_bytes(data, **kw):
    import xlrd
    kw.setdefault('logfile', NULL)
    return xlrd.open_workbook(file_contents=data, **kw)


def outcome(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as x:
        if type(x).__name__ == 'Hang':
            raise
        return ('exc', type(x).__name__, str(x)[:200])


# ------------------------------------------------------------------ fonts/XF
def font(bv, name='Arial', height=200, options=0, colour=0x7FFF, weight=400, escapement=0, underline=0, family=0, charset=0):
    nm = name.encode('latin-1')
    if bv >= 50:
        d = P('<HHHHHBBBB', height, options, colour, weight, escapement, underline, family, charset, 0)
        return rec(0x31, d + (ustr(name, 1) if bv == 80 else bstr(nm)))
    if bv >= 30:
        return rec(0x231, P('<HHH', height, options, colour) + bstr(nm))
    return rec(0x31, P('<HH', height, options) + bstr(nm))


def xf8(font=0, fmt=0, prot=1, parent=0, style=0, align=0x20, rot=0, indent=0, attr=0, b1=0, b2=0, pat=0x20C0):
    return rec(0xE0, P('<HHHBBBBIIH', font, fmt, (prot & 3) | (style << 2) | (parent << 4),
                       align, rot, indent, attr, b1, b2, pat))


def xf5(font=0, fmt=0, prot=1, parent=0, style=0, align=0x20, attr=0, area=0, b2=0):
    return rec(0xE0, P('<HHHBBII', font, fmt, (prot & 3) | (style << 2) | (parent << 4), align, attr, area, b2))


def xf4(font=0, fmt=0, prot=1, parent=0, style=0, align=0x20, attr=0, area=0, brd=0):
    return rec(0x443, P('<BBHBBHI', font, fmt, (prot & 3) | (style << 2) | (parent << 4), align, attr, area, brd))


def xf3(font=0, fmt=0, prot=1, parent=0, style=0, align=0, attr=0, area=0, brd=0):
    return rec(0x243, P('<BBBBHHI', font, fmt, (prot & 3) | (style << 2), attr, (align & 15) | (parent << 4), area, brd))


def xf2(font=0, fmt=0, lock=1, hidden=0, hal=0):
    return rec(0x43, P('<BBBB', font, 0, (fmt & 0x3F) | (lock << 6) | (hidden << 7), hal))


def xfrec(bv, **kw):
    return {80: xf8, 70: xf5, 50: xf5, 45: xf4, 40: xf4, 30: xf3, 21: xf2, 20: xf2}[bv](**kw)


def fmtrec(bv, key, s):
    if bv >= 80:
        return rec(0x41E, P('<H', key) + ustr(s, 2))
    b = s.encode('latin-1')
    if bv >= 50:
        return rec(0x41E, P('<H', key) + bstr(b, 1))
    if bv >= 40:
        return rec(0x41E, P('<H', 0) + bstr(b, 1))
    return rec(0x1E, bstr(b, 1))


def std_globals(bv, fmts=(), xfs=None):
    """fonts, formats and XFs good enough for xlrd to load (BIFF<=4: goes into the sheet stream)"""
    out = [font(bv) for _ in range(4)]
    for k, s in fmts:
        out.append(fmtrec(bv, k, s))
    for f in (xfs if xfs is not None else [0] * 16):
        out.append(xfrec(bv, fmt=f))
    return out


def dimension(bv, nrows=0, ncols=0):
    if bv >= 80:
        return rec(0x200, P('<IIHHH', 0, nrows, 0, ncols, 0))
    if bv >= 30:
        return rec(0x200, P('<HHHHH', 0, nrows, 0, ncols, 0))
    return rec(0x000, P('<HHHH', 0, nrows, 0, ncols))
