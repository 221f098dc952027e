"""C06 shared string table, C25 string results of formulas"""
import random
import struct
from . import biff as W
from .biff import rec, P, outcome, bstr

ALPHA = ['abcXYZ 019', '\xe9\xff\x80\x00', 'a\u20ac\u0100', '\u4e2d\u6587\uffff\u0001', '\U0001F600\U00010000\U0010FFFFa', '\r\n\t']


def mktext(rng, n):
    k = rng.random()
    if k < .3:
        pool = ALPHA[0]
    elif k < .5:
        pool = ALPHA[0] + ALPHA[1]
    elif k < .6:
        pool = ALPHA[4]
    else:
        pool = ''.join(ALPHA)
    return ''.join(rng.choice(pool) for _ in range(n))


def units(s):
    b = s.encode('utf-16-le')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


class Split(object):
    """writes data into records of limited size"""

    def __init__(self, rng, limit, first=b''):
        self.rng, self.limit = rng, limit
        self.recs = []
        self.cur = bytearray(first)
        self.lim = max(24, self.size())

    def size(self):
        return self.rng.choice([self.limit, self.limit, max(12, self.limit - self.rng.randrange(10)), self.rng.randrange(12, self.limit + 1)])

    def room(self):
        return self.lim - len(self.cur)

    def next(self):
        self.recs.append(bytes(self.cur))
        self.cur = bytearray()
        self.lim = self.size()

    def whole(self, b):
        """b may not be split"""
        if self.room() < len(b):
            self.next()
        self.cur += b

    def anywhere(self, b):
        b = bytes(b)
        while b:
            r = self.room()
            if r <= 0:
                self.next()
                continue
            self.cur += b[:r]
            b = b[r:]

    def chars(self, us, head):
        """head(wide) -> the bytes before the first chunk"""
        rng = self.rng
        pos = 0
        first = True
        while True:
            rest = us[pos:]
            narrow_ok = not rest or max(rest[:max(1, self.lim)]) < 256
            wide = not narrow_ok or rng.random() < .3
            if first:
                self.whole(head(wide))
                # the record may have changed
                if not wide and rest and max(rest[:max(0, self.room())] or [0]) >= 256:
                    raise AssertionError
            else:
                if self.room() < 3 or self.cur:
                    self.next()
                self.cur.append(wide | (rng.choice([2, 8, 0xF4, 4]) if rng.random() < .1 else 0))
            n = min(len(rest), max(0, self.room()) // (2 if wide else 1))
            if rng.random() < .15:
                n = rng.randrange(n + 1) if first else max(1, rng.randrange(n + 1)) if n else 0
            part = rest[:n]
            if not wide and part and max(part) > 255:
                q = [u > 255 for u in part].index(True)
                part = part[:q]
            for u in part:
                self.cur += P('<H', u) if wide else bytes([u])
            pos += len(part)
            first = False
            if pos == len(us):
                return

    def records(self):
        return self.recs + [bytes(self.cur)]


def sst(rng, strings, limit):
    """strings: (text, runs or None, phonetic bytes or None) -> list of record contents"""
    w = Split(rng, limit, P('<ii', rng.choice([len(strings), len(strings) * 3]), len(strings)))
    for t, runs, ph in strings:
        us = units(t)

        def head(wide):
            return (P('<HB', len(us), (1 if wide else 0) | (8 if runs is not None else 0) | (4 if ph is not None else 0)) +
                    (P('<H', len(runs)) if runs is not None else b'') + (P('<i', len(ph)) if ph is not None else b''))
        w.chars(us, head)
        for r in runs or ():
            w.whole(P('<HH', *r)) if w.room() >= 4 or w.room() == 0 else (w.next(), w.whole(P('<HH', *r)))
        w.anywhere(ph or b'')
    return w.records()


class C06(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(seed=rng.getrandbits(40), n=rng.choice([0, 1, 2, 5, 20, 60]), limit=rng.choice([24, 30, 47, 100, 500, 8224]), fi=rng.randrange(2),
                       big=rng.random() < .15)

    @staticmethod
    def build(c):
        rng = random.Random(c['seed'])
        strings = []
        for i in range(c['n']):
            ln = rng.choice([0, 1, 2, 5, 20, 60, 300, rng.randrange(40)])
            if c['big'] and rng.random() < .1:
                ln = rng.choice([5000, 8300, 20000])
            t = mktext(rng, ln)
            runs = None
            if rng.random() < .4:
                runs = [[rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)]), rng.randrange(65536)]
                        for _ in range(rng.choice([0, 1, 2, 7, 40]))]
            ph = None
            if rng.random() < .4:
                ph = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 20, 100, 400])))
            if ph == b'' and rng.random() < .5:
                ph = None
            strings.append((t, runs, ph))
        # runs at an odd distance from the end of a record: the writer ends the record before them
        recs = sst(rng, strings, c['limit'])
        cells = [rng.randrange(c['n']) for _ in range(min(200, 2 * c['n']))] + list(range(c['n'])) if c['n'] else []
        return strings, recs, cells

    @staticmethod
    def test(c):
        try:
            strings, recs, cells = C06.build(c)
        except AssertionError:
            return None
        pre = W.std_globals(80)
        post = [rec(0xFC, recs[0])] + [rec(0x3C, r) for r in recs[1:]]
        sh = [W.dimension(80, len(cells), 1)] + [rec(0xFD, P('<HHHI', i, 0, 15, k)) for i, k in enumerate(cells)]
        wb = W.WB(80, pre=pre, post=post, codepage=1200).sheet(recs=sh)
        r = outcome(W.open_bytes, wb.bytes(), formatting_info=bool(c['fi']))
        # the reader requires each run to be whole, and the cursor to be at a record end or at the run
        if r[0] != 'ok':
            return 'a well formed shared string table was refused: %s' % (r[1:],)
        s = r[1].sheet_by_index(0)
        if s.nrows != len(cells):
            return '%d rows of %d' % (s.nrows, len(cells))
        for i, k in enumerate(cells):
            if s.cell_type(i, 0) != 1 or s.cell_value(i, 0) != strings[k][0]:
                v = s.cell_value(i, 0)
                return 'shared string %d (%d units): %r instead of %r' % (k, len(strings[k][0]), v[:40], strings[k][0][:40])
            want = [tuple(x) for x in strings[k][1] or ()] if c['fi'] else []
            got = s.rich_text_runlist_map.get((i, 0))
            if [tuple(x) for x in got or ()] != want:
                return 'formatting runs of string %d: %r instead of %r' % (k, (got or [])[:4], want[:4])
        return None


class C25(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(seed=rng.getrandbits(40), bv=rng.choice([80, 80, 80, 70, 50, 45, 40, 30, 21]), cp=rng.choice([1252, 1251, 437, 1250, None]),
                       err=rng.choice([None, None, None, None, 'short', 'long']), pre=rng.choice([None, None, 'shr', 'arr', 'tab']))

    @staticmethod
    def test(c):
        rng = random.Random(c['seed'])
        bv = c['bv']
        cells = []
        recs = []
        split = False
        bad = rng.randrange(4) if c['err'] else -1
        for i in range(4):
            n = rng.choice([0, 1, 2, 5, 30, 100, 255 if bv == 21 else 300, rng.randrange(50)])
            if bv != 21 and rng.random() < .05:
                n = rng.choice([8300, 20000, 32767])
            if i == bad:
                n = rng.choice([1, 2, 20, 100])
            if bv == 80:
                t = mktext(rng, n)
                us = units(t)
                if len(us) > 65535:
                    return None
                w = Split(rng, rng.choice([13, 20, 64, 8224]))
                w.chars(us, lambda wide: P('<HB', len(us) + C25.delta(c, i, bad, n), wide | rng.choice([0, 0, 0, 0x10, 4, 8])))
                rs = w.records()
            else:
                cp = c['cp'] or 1252
                enc = 'cp%d' % cp if c['cp'] or bv >= 50 else 'iso-8859-1'
                if c['cp'] is None:
                    enc = 'iso-8859-1'
                t = ''
                while len(t) < n:
                    b = bytes([rng.choice([32, 65, 0xE9, 0xC0, rng.randrange(256)])])
                    try:
                        t += b.decode(enc)
                    except UnicodeDecodeError:
                        pass
                raw = t.encode(enc)
                w = Split(rng, rng.choice([13, 20, 64, 8224]), P('<B' if bv == 21 else '<H', (n + C25.delta(c, i, bad, n)) & (255 if bv == 21 else 65535)))
                w.anywhere(raw)
                rs = w.records()
            cells.append(t)
            split = split or len(rs) > 1
            if bv == 21:
                recs.append(rec(6, P('<HH3s', i, 0, b'\0\0\0') + b'\0\0\0\0\0\0\xff\xff' + b'\0' + P('<B', 0)))
            else:
                recs.append(rec({30: 0x206, 40: 0x406, 45: 0x406}.get(bv, 6), P('<HHH', i, 0, 15) + b'\0\0\0\0\0\0\xff\xff' + P('<HIH', 0, 0, 0)[:2 if bv < 50 else 8] + P('<H', 0) * 2))
            if c['pre'] == 'shr' and bv >= 50:
                recs.append(rec(0x4BC, P('<HHBBBBH', i, i, 0, 0, 0, 1, 0)))
            elif c['pre'] == 'arr' and bv >= 50:
                recs.append(rec(0x221, P('<HHBBHIH', i, i, 0, 0, 0, 0, 0)))
            elif c['pre'] == 'tab' and bv >= 50:
                recs.append(rec(0x236, bytes(16)))
            recs.append(rec(0x7 if bv == 21 else 0x207, rs[0]))
            recs += [rec(0x3C, r) for r in rs[1:]]
        if bv >= 45:
            pre = W.std_globals(bv)
            sh = [W.dimension(bv, 4, 1)] + recs
            wb = W.WB(bv, pre=pre, codepage=1200 if bv == 80 else c['cp']).sheet(recs=sh)
        else:
            pre = ([rec(0x42, P('<H', c['cp']))] if c['cp'] else []) + [W.dimension(bv, 4, 1)] + W.std_globals(bv)
            wb = W.WB(bv).sheet(recs=pre + recs)
        r = outcome(W.open_bytes, wb.bytes())
        if c['err']:
            if r[0] == 'ok' and c['err'] == 'long' and split:
                return None              # the excess may be a CONTINUE record of its own
            if r[0] == 'ok' or r[1] not in ('XLRDError',):
                return 'announced %s length: %s' % (c['err'], r[1:] if r[0] == 'exc' else 'accepted')
            return None
        if r[0] != 'ok':
            return 'well formed formula results were refused: %s' % (r[1:],)
        s = r[1].sheet_by_index(0)
        for i, t in enumerate(cells):
            if s.cell_type(i, 0) != 1 or s.cell_value(i, 0) != t:
                return 'BIFF%d formula result %d: %r instead of %r' % (bv, i, s.cell_value(i, 0)[:40], t[:40])
        return None

    @staticmethod
    def delta(c, i, bad, n):
        if i != bad:
            return 0
        return {'short': 3, 'long': -1, None: 0}[c['err']]
