"""C28: hyperlinks; C29: notes"""
import struct
from . import biff as W
from . import sheetmodel as M
from .biff import rec, P

GUID0 = b'\xD0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
URLM = b'\xE0\xC9\xEA\x79\xF9\xBA\xCE\x11\x8C\x82\x00\xAA\x00\x4B\xA9\x0B'
FILEM = b'\x03\x03\x00\x00\x00\x00\x00\x00\xC0\x00\x00\x00\x00\x00\x00\x46'
PIECES = ['a', 'http://', 'x.y/z?', '\xe9', '\u20ac', '\u4e2d', '\U0001F600', '\U00010000', 'B2', '#', ' ', '\xff', '..\\', 'mailto:', '\u0100', '\ufffd', '\x80\x9f']


def u16(s):
    return s.encode('utf-16-le')


def words(rng, hi=6, empty=True):
    n = rng.choice([0, 1, 1, 2, 3, hi])
    s = ''.join(rng.choice(PIECES) for _ in range(n))
    return s if s or empty else 'q'


def counted(s):
    b = u16(s) + b'\0\0'
    return P('<I', len(b) // 2) + b


def inner(rng, s):
    return s if rng.random() < .9 else s + '\0' * rng.randrange(1, 3)


# ---------------------------------------------------------------- hyperlinks
def gen_link(rng):
    r, c = rng.choice([0, 1, 5, 300, 65530]), rng.choice([0, 1, 2, 250, 254])
    g = [r, r + rng.choice([0, 0, 0, 1, 4]), c, c + rng.choice([0, 0, 1, 3])]
    t = rng.choice(['url', 'url', 'file', 'file', 'unc', 'workbook', 'unknown'])
    return dict(range=g, type=t, desc=inner(rng, words(rng)) if rng.random() < .5 else None, descbits=rng.choice([0x14, 0x10, 4]), target=words(rng) if rng.random() < .3 else None,
                mark=inner(rng, words(rng)) if rng.random() < .4 or t == 'workbook' else None, url=words(rng, 20), extra=rng.choice([None, None, 0x190, 0, 0x41]),
                up=rng.choice([0, 0, 1, 2, 7, 256, 300]), short=''.join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([0, 1, 8, 12]))),
                long=words(rng, empty=False) if rng.random() < .6 else None, bits=rng.choice([0, 2, 0x40, 0x20, 0x62, 0x200]), pad=rng.choice([0, 0, 0, 2]), odd=rng.choice([2, 0x20, 0x40, 0x100, 0x123, 0x143]),
                quick=words(rng) if rng.random() < .3 else None)


def link_bytes(k):
    o = 0
    b = b''
    if k['desc'] is not None:
        o |= k['descbits']
        b += counted(k['desc'])
    if k['target'] is not None:
        o |= 0x80
        b += counted(k['target'])
    if k['type'] == 'url':
        o |= 1 | k['bits']
        x = u16(k['url']) + b'\0\0'
        if k['extra'] is not None:
            x += P('<H', k['extra']) * 12
        b += URLM + P('<I', len(x)) + x
    elif k['type'] == 'file':
        o |= 1 | k['bits']
        s = k['short'].encode('latin-1') + b'\0'
        b += FILEM + P('<HI', k['up'], len(s)) + s + b'\xff\xff\xad\xde' + b'\0' * 20
        if k['long'] is None:
            b += P('<I', 0)
        else:
            x = u16(k['long'])
            b += P('<IIH', len(x) + 6, len(x), 3) + x
    elif k['type'] == 'unc':
        o |= 0x103
        b += counted(k['url'])
    elif k['type'] == 'unknown':
        o |= k['bits'] | (k['odd'] if k['mark'] is not None or k['bits'] else 0)
    if k['mark'] is not None:
        o |= 8
        b += counted(k['mark'])
    g = k['range']
    return rec(0x1B8, P('<HHHH', *g) + GUID0 + P('<II', 2, o) + b + b'V\0' * (k['pad'] // 2))


def tip(k):
    return rec(0x800, P('<HHHHH', 0x800, *k['range']) + u16(k['quick']) + b'\0\0')


NAMES = ('frowx', 'lrowx', 'fcolx', 'lcolx')
TYPES = dict(file='local file')


def link_want(k):
    w = dict(zip(NAMES, [k['range'][0], k['range'][1], k['range'][2], k['range'][3]]))
    w.update(type=TYPES.get(k['type'], k['type']), desc=k['desc'], target=k['target'], textmark=k['mark'], quicktip=k['quick'], url_or_path=None)
    if k['type'] in ('url', 'unc'):
        w['url_or_path'] = k['url']
    elif k['type'] == 'file':
        w['url_or_path'] = b'..\\' * k['up'] + k['short'].encode('latin-1') if k['long'] is None else k['long']
    return w


def cells(g):
    return [(r, c) for r in range(g[0], g[1] + 1) for c in range(g[2], g[3] + 1)]


def show(d):
    return 'no record' if d is None else {k: v for k, v in sorted(d.items())}


class C28(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(sheets=[[gen_link(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))] for _ in range(rng.choice([1, 1, 2]))], fmt=rng.randrange(2))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        wb = W.WB(80, pre=M.globs(80))
        for i, links in enumerate(case['sheets']):
            body = [W.dimension(80, 0, 0)]
            for k in links:
                body.append(link_bytes(k))
                if k['quick'] is not None:
                    body.append(tip(k))
            wb = wb.sheet('S%d' % i, recs=body)
        out = W.outcome(W.open_bytes, wb.bytes(), formatting_info=bool(case['fmt']))
        if out[0] != 'ok':
            return 'opening fails: %r' % (out,)
        for i, links in enumerate(case['sheets']):
            s = out[1].sheet_by_index(i)
            if len(s.hyperlink_list) != len(links):
                return 'sheet %d: %d links instead of %d' % (i, len(s.hyperlink_list), len(links))
            for n, (h, k) in enumerate(zip(s.hyperlink_list, links)):
                for a, v in link_want(k).items():
                    x = getattr(h, a)
                    if x != v or type(x) is not type(v):
                        return 'sheet %d, link %d: %s is %r instead of %r' % (i, n, a, x, v)
            want = {}
            for h, k in zip(s.hyperlink_list, links):
                for rc in cells(k['range']):
                    want[rc] = h
            if set(s.hyperlink_map) != set(want):
                return 'sheet %d: cells with a link: %r instead of %r' % (i, sorted(s.hyperlink_map), sorted(want))
            for rc, h in want.items():
                if s.hyperlink_map[rc] is not h:
                    return 'sheet %d: the link of cell %r is not the last one that covers it' % (i, rc)
        return None


# ---------------------------------------------------------------- notes
def w16(rng):
    return rng.choice([0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF, rng.randrange(65536)])


def gen_obj(rng, i):
    sub = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice([0xC, 0xD, 0x6, 0x4])
        n = {0xC: 20, 0xD: 22}.get(k, rng.choice([2, 6, 5]))
        sub.append([k, [rng.choice([0, 21, 255]) for _ in range(n)]])
    return ['obj', i, rng.choice([0x19, 5, 0, 0x14]), w16(rng), sub, rng.choice([0, 4, 4, 8])]


def gen_txo(rng):
    t = words(rng, rng.choice([6, 6, 60, 5000]))
    units = len(u16(t)) // 2
    cuts = sorted(rng.randrange(units + 1) for _ in range(rng.choice([0, 0, 1, 2, 4])))
    wide = [rng.random() < .5 for _ in range(len(cuts) + 1)]
    runs = []
    for _ in range(rng.choice([0, 1, 2, 3, 6, 6, 1100 if units > 100 else 2]) if units else 0):
        runs.append([rng.randrange(units + 1), rng.randrange(30), rng.getrandbits(32)])
    runs.sort()
    for _ in range(rng.choice([0, 1, 1, 2])):
        runs.append([units, rng.randrange(30), 0])
    return ['txo', t, cuts, wide, runs, sorted(rng.randrange(len(runs) + 1) for _ in range(rng.choice([0, 0, 1, 2]))), w16(rng), rng.choice([0, 4])]


def txo_bytes(r):
    x, t, cuts, wide, runs, rcuts, flags, nf = r
    b = u16(t)
    us = [b[k:k + 2] for k in range(0, len(b), 2)]
    out = [rec(0x1B6, P('<HH6sHHH', flags, 0, b'\0' * 6, len(us), 8 * len(runs), 0) + b'\x07' * nf)]
    ends = cuts + [len(us)]
    at = 0
    for e, w in zip(ends, wide):
        while at < e:                       # a record holds at most 8224 bytes
            n = min(e - at, 4000)
            ch = us[at:at + n]
            if not w and all(c[1] == 0 for c in bytearrays(ch)):
                out.append(rec(0x3C, b'\0' + b''.join(c[:1] for c in ch)))
            else:
                out.append(rec(0x3C, b'\1' + b''.join(ch)))
            at += n
    rs = [P('<HHI', *q) for q in runs]
    at = 0
    for e in rcuts + [len(rs)]:
        while e > at:
            n = min(e - at, 1028)
            out.append(rec(0x3C, b''.join(rs[at:at + n])))
            at += n
    return b''.join(out)


def bytearrays(ch):
    return [bytearray(c) for c in ch]


def obj_bytes(r):
    x, i, ty, fl, sub, zeros = r
    b = P('<HHHHH', 0x15, 18, ty, i, fl) + b'\x05' * 12
    for k, d in sub:
        b += P('<HH', k, len(d)) + bytes(bytearray(d))
    return rec(0x5D, b + b'\0' * zeros)


def note8_bytes(r):
    x, row, col, fl, i, author, wide, pad = r
    a = W.ustr(author, 2, wide=wide or None)
    return rec(0x1C, P('<HHHH', row, col, fl, i) + a + b'\x6b' * pad)


def note_bytes(r):
    x, row, col, pieces = r
    bs = [bytes(bytearray(p)) for p in pieces]
    out = [rec(0x1C, P('<HHH', row, col, sum(len(b) for b in bs)) + bs[0])]
    for b in bs[1:]:
        out.append(rec(0x1C, P('<HHH', 0xFFFF, 0, len(b)) + b))
    return b''.join(out)


def gen8(rng):
    ids = rng.sample(range(1, 65536), 3)
    recs = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        i = rng.choice(ids)
        k = rng.random()
        if k < .7:
            recs += [gen_obj(rng, i), gen_txo(rng)]
        elif k < .8:
            recs.append(gen_txo(rng))
        elif k < .9:
            recs.append(gen_obj(rng, i))
        else:
            recs += [gen_obj(rng, rng.choice(ids)), ['old'], gen_txo(rng)]
        if rng.random() < .3:
            recs.append(['junk'])
        if rng.random() < .6:
            recs.append(gen_note(rng, rng.choice(ids + [i, i, i])))
    for _ in range(rng.choice([0, 1, 2])):
        recs.append(gen_note(rng, rng.choice(ids)))
    return recs


def gen_note(rng, i):
    return ['note8', rng.choice([0, 1, 65535]), rng.choice([0, 3, 255]), w16(rng), i, words(rng), rng.random() < .5, rng.randrange(2)]


def gen5(rng, cp):
    recs = []
    for _ in range(rng.choice([1, 2, 4])):
        n = rng.choice([1, 1, 1, 2, 3])
        pieces = []
        for k in range(n):
            m = rng.choice([0, 1, 7, 2048]) if k == 0 else rng.choice([1, 7, 300, 2048, 2049, 5000])
            pieces.append([rng.choice(range(0x20, 0x7F)) if cp == 932 else rng.choice([c for c in range(1, 256) if c not in (0x81, 0x8d, 0x8f, 0x90, 0x9d)]) for _ in range(m)])
        if cp == 932:           # a character of two bytes cut by the record boundary
            for a, b in list(zip(pieces, pieces[1:]))[:1]:
                if a and b and rng.random() < .7:
                    a[-1:], b[:1] = [0x93], [0xFA]
            for p in pieces:
                if len(p) > 4:
                    p[1:3] = [0x83, 0x41]
        recs.append(['note', rng.choice([0, 1, 16383, 65534]), rng.choice([0, 3, 255]), pieces])
    return recs


def note_want(case, recs):
    saved, txos, want = None, {}, {}
    for r in recs:
        if r[0] == 'obj':
            saved = r[1]
        elif r[0] == 'old':
            saved = None
        elif r[0] == 'txo':
            n = len(u16(r[1])) // 2
            runs = [tuple(q[:2]) for q in r[4]]
            while runs and runs[-1][0] == n:
                runs.pop()
            if saved is not None:
                txos[saved], saved = (r[1], runs), None
        elif r[0] == 'note8':
            x, row, col, fl, i, author, wide, pad = r
            if i in txos:
                want[row, col] = dict(rowx=row, colx=col, text=txos[i][0], rich_text_runlist=txos[i][1], author=author, show=fl >> 1 & 1,
                                      row_hidden=fl >> 7 & 1, col_hidden=fl >> 8 & 1)
        elif r[0] == 'note':
            x, row, col, pieces = r
            t = b''.join(bytes(bytearray(p)) for p in pieces).decode('cp%d' % case['cp'])
            want[row, col] = dict(rowx=row, colx=col, text=t, rich_text_runlist=[(0, 0)], author='', show=0, row_hidden=0, col_hidden=0)
    return want


EMIT = dict(obj=obj_bytes, txo=txo_bytes, note8=note8_bytes, note=note_bytes, old=lambda r: rec(0x5D, b'\x01\0\0\0' + b'\0' * 20), junk=lambda r: rec(0xEC, b'\x0f\0' * 8))


class C29(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice([80, 80, 80, 70, 50, 45, 40, 30, 21])
            cp = rng.choice([1252, 1252, 932])
            n = rng.choice([1, 1, 2]) if bv >= 50 else 1
            sheets = [gen8(rng) if bv == 80 else gen5(rng, cp) for _ in range(n)]
            if n == 2 and rng.random() < .3:            # the numbers of objects are those of their sheet
                sheets[1] = [r for r in sheets[0] if r[0] == 'note8'] or sheets[1]
            yield dict(bv=bv, cp=cp, sheets=sheets, fmt=rng.randrange(2))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        bv = case['bv']
        bodies = [[W.dimension(bv, 0, 0)] + [EMIT[r[0]](r) for r in recs] for recs in case['sheets']]
        g = M.globs(bv)
        if bv >= 50:
            wb = W.WB(bv, pre=g, codepage=case['cp'] if bv < 80 else None)
            for i, b in enumerate(bodies):
                wb = wb.sheet('S%d' % i, recs=b)
        elif bv == 45:
            wb = W.WB(45, codepage=case['cp']).sheet('S', recs=g + bodies[0])
        else:
            wb = W.WB(bv).sheet('S', recs=[rec(0x42, P('<H', case['cp']))] + g + bodies[0])
        out = W.outcome(W.open_bytes, wb.bytes(), formatting_info=bool(case['fmt']))
        if out[0] != 'ok':
            return 'opening fails: %r' % (out,)
        for i, recs in enumerate(case['sheets']):
            s = out[1].sheet_by_index(i)
            want = note_want(case, recs)
            if set(s.cell_note_map) != set(want):
                return 'sheet %d: cells with a note: %r instead of %r' % (i, sorted(s.cell_note_map), sorted(want))
            for rc, w in want.items():
                for a, v in w.items():
                    x = getattr(s.cell_note_map[rc], a)
                    if x != v:
                        return 'sheet %d, note of %r: %s is %r instead of %r' % (i, rc, a, x, v)
        return None
