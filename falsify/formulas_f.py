"""C17 the values and texts of the formulas of defined names: random formulas against a reference evaluator"""
import math
import random
from .biff import rec, P, bstr, ustr
from .names_f import Model, namerec, op
from contracts.functable import FUNCS

REL, REF, UNK, STR, NUM, BOOL, ERR, MSNG = -2, -1, 0, 1, 2, 3, 4, 5
ERRT = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!', 0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}
BIN = {3: ('+', 30), 4: ('-', 30), 5: ('*', 40), 6: ('/', 40), 7: ('^', 50), 8: ('&', 20), 9: ('<', 10), 10: ('<=', 10), 11: ('=', 10),
       12: ('>=', 10), 13: ('>', 10), 14: ('<>', 10)}
UN = {0x12: ('+', '', 70), 0x13: ('-', '', 70), 0x14: ('', '%', 60)}


class N(object):
    """a subformula: its tokens, and what it should evaluate to"""

    def __init__(self, b, kind, value=None, text=None, rank=90, rel=False, err=False):
        self.b, self.kind, self.value, self.text, self.rank, self.rel, self.err = b, kind, value, text, rank, rel, err

    def paren(self, rank):
        return '(%s)' % self.text if self.rank < rank else self.text


def num2s(x):
    s = str(x)
    return s[:-2] if s.endswith('.0') else s


def colname(c):
    return (chr(64 + c // 26) if c >= 26 else '') + chr(65 + c % 26)


def quoted(nm):
    if "'" in nm or ' ' in nm:
        return "'%s'" % nm.replace("'", "''")
    return nm


def binop(opc, a, b):
    sym, rank = BIN[opc]
    kind = NUM if opc < 8 else STR if opc == 8 else BOOL
    r = N(a.b + b.b + bytes([opc]), kind, None, a.paren(rank) + sym + b.paren(rank), rank, a.rel or b.rel, a.err or b.err)
    if a.kind not in (NUM, STR) or b.kind not in (NUM, STR) or a.value is None or b.value is None:
        return r
    x, y = a.value, b.value
    try:
        if opc < 8:
            x, y = float(x), float(y)
            r.value = [x + y, x - y, x * y, None if opc != 6 else x / y, None if opc != 7 else math.pow(x, y)][opc - 3]
        elif opc == 8:
            r.value = ''.join(v if isinstance(v, str) else num2s(v) for v in (x, y))
        else:
            if isinstance(x, str) != isinstance(y, str):
                if opc in (11, 14):
                    r.value = int(opc == 14)
            else:
                r.value = int([x < y, x <= y, x == y, x >= y, x > y, x != y][opc - 9])
    except (ValueError, ArithmeticError):
        pass
    return r


def unop(opc, a):
    pre, post, rank = UN[opc]
    r = N(a.b + bytes([opc]), NUM, None, pre + a.paren(rank) + post, rank, a.rel, a.err)
    v = a.value
    if v is not None and a.kind in (NUM, STR, BOOL):
        try:
            v = float(v) if isinstance(v, str) else v
            r.value = v if opc == 0x12 else -v if opc == 0x13 else v / 100.0
        except ValueError:
            pass
    return r


def refop(opc, a, b):
    r = N(a.b + b.b + bytes([opc]), REF, None, a.paren(80) + {15: ' ', 16: ',', 17: ':'}[opc] + b.paren(80), None if opc == 15 else 80,
          a.rel or b.rel, a.err or b.err)
    r.rank = 0 if opc == 15 else 80
    if ERR in (a.kind, b.kind):
        r.kind = ERR
        return r
    refs = a.kind in (REF, REL) and b.kind in (REF, REL)
    if opc == 16:
        if refs:
            r.kind = REL if REL in (a.kind, b.kind) else REF
            if a.value is not None and b.value is not None:
                r.value = a.value + b.value
        return r
    if refs and a.kind == b.kind:
        r.kind = a.kind
        if a.value is not None and b.value is not None:
            (c, f), (d, g) = a.value[0], b.value[0]
            if f == g:
                lo, hi = (max, min) if opc == 15 else (min, max)
                r.value = [(tuple((lo, hi)[k % 2](p, q) for k, (p, q) in enumerate(zip(c, d))), f)]
    return r


class Gen(object):
    def __init__(self, rng, m):
        self.rng, self.m, self.bv = rng, m, m.bv
        self.names = []

    def leaf(self):
        rng, bv = self.rng, self.bv
        k = rng.randrange(9)
        if k == 0:
            v = rng.choice([0, 1, 2, 3, 10, 255, 256, 65535, rng.randrange(65536)])
            return N(b'\x1e' + P('<H', v), NUM, float(v), str(float(v)))
        if k == 1:
            v = rng.choice([0.0, 1.0, -1.0, 2.5, 0.1, 1e300, 1e16, 123456789.25, -8.0, 0.5])
            return N(b'\x1f' + P('<d', v), NUM, v, str(v))
        if k == 2:
            v = rng.choice(['', 'abc', '12', ' 3.5 ', 'say "hi"', 'Zz', '1e3', 'caf\xe9', 'x' * 200])
            if bv >= 80 and rng.random() < .3:
                v += '\u20ac\u4e2d'
            b = ustr(v, 1) if bv >= 80 else bstr(v.encode('latin-1'), 1)
            return N(b'\x17' + b, STR, v, '"%s"' % v.replace('"', '""'))
        if k == 3:
            v = rng.choice([0, 1])
            return N(bytes([0x1d, v]), BOOL, v, ['FALSE', 'TRUE'][v])
        if k == 4 and rng.random() < .5:
            v = rng.choice(list(ERRT))
            return N(bytes([0x1c, v]), ERR, v, '"%s"' % ERRT[v])
        if k == 5 and rng.random() < .2:
            return N(bytes([rng.choice([0x20, 0x40, 0x60])]) + bytes(7), UNK, None, '?', 0)
        if k == 6 and rng.random() < .1:
            nm, sz = rng.choice([(0x0A, (4, 5)), (0x0B, (7, 9)), (0x1C, (18, 7)), (0x1D, (21, 11)), (7, (7, 7)), (8, (7, 7))])
            return N(bytes([nm + rng.choice([0x20, 0x40, 0x60])]) + bytes(sz[bv >= 80] - 1), ERR, None, '?', 0, err=True)
        if k == 7 and self.names:
            return self.name()
        return self.ref()

    def ref(self, same=None):
        rng, bv, m = self.rng, self.bv, self.m
        top = 65535 if bv >= 80 else 16383
        r, c = rng.choice([0, 1, 5, top, top - 3, 8192, 300]), rng.choice([0, 1, 25, 26, 127, 128, 255])
        r2, c2 = min(top, r + rng.choice([0, 1, 7])), min(255, c + rng.choice([0, 1, 3]))
        area = rng.random() < .5
        if not area:
            r2, c2 = r, c
        rel = [0, 0, 0, 0]
        if rng.random() < .4:
            rel = [rng.choice([0, 1]) for _ in range(4)]
            if not area:
                rel = [rel[0], rel[0], rel[2], rel[2]]
        cls = rng.choice([1, 1, 1, 2, 3])

        def off(v, f, w):
            return v - w if f and v >= w // 2 else v
        wr = top + 1
        box = (off(r, rel[0], wr), off(r2, rel[1], wr) + 1, off(c, rel[2], 256), off(c2, rel[3], 256) + 1)
        if bv >= 80:
            cc = lambda v, a, b: v | b << 14 | a << 15
            addr = P('<HHHH', r, r2, cc(c, rel[0], rel[2]), cc(c2, rel[1], rel[3])) if area else P('<HH', r, cc(c, rel[0], rel[2]))
        else:
            rr = lambda v, a, b: v | b << 14 | a << 15
            addr = P('<HHBB', rr(r, rel[0], rel[2]), rr(r2, rel[1], rel[3]), c, c2) if area else P('<HB', rr(r, rel[0], rel[2]), c)
        rf = (rel[0], rel[1], rel[2], rel[3])
        t = None
        for _ in range(40 if rng.random() < .85 else 0):
            x, t = m.target()
            if t is not None:
                break
        if t is None:
            n = N(bytes([(5 if area else 4) | cls << 5]) + addr, REL if cls == 1 else UNK, None, '?', 0, rel=True)
            if cls == 1:
                n.value = [((0, 1) + box, (1, 1) + rf)]
            return n
        head = P('<H', x) if bv >= 80 else P('<h8xhh', *x)
        n = N(bytes([(0x1B if area else 0x1A) | cls << 5]) + head + addr, REL if any(rel) else REF, None, None, 90, rel=any(rel), err=t[0] < -1)
        if cls == 1:
            n.value = [((t[0], t[1] + 1) + box, (0, 0) + rf if any(rel) else (0,) * 6)]
        special = {-1: '?internal; any sheet?', -2: 'internal; deleted sheet', -3: 'internal; macro sheet', -4: '<<external>>', -5: '?error -5?'}
        sn = lambda k: quoted(m.ws[k] if k >= 0 else special[k])
        sh = sn(t[0]) + (':' + sn(t[1]) if t[0] != t[1] else '')

        def p(row, col, fr, fc, r1c1):
            if r1c1:
                f = lambda L, v, q: L + ('%d' % (v + 1) if not q else '[%d]' % v if v else '')
                return f('R', row, fr) + f('C', col, fc)
            return '$%s$%d' % (colname(col), row + 1)
        if any(rel):
            n.text = '%s!%s:%s' % (sh, p(box[0], box[2], rel[0], rel[2], not (not rel[0] and not rel[2]) or 1), p(box[1] - 1, box[3] - 1, rel[1], rel[3], 1))
        elif box[1] == box[0] + 1 and box[3] == box[2] + 1:
            n.text = '%s!%s' % (sh, p(box[0], box[2], 0, 0, 0))
        else:
            n.text = '%s!%s:%s' % (sh, p(box[0], box[2], 0, 0, 0), p(box[1] - 1, box[3] - 1, 0, 0, 0))
        return n

    def name(self):
        i = self.rng.randrange(len(self.names))
        w = self.names[i]
        b = bytes([0x03 | self.rng.choice([1, 2, 3]) << 5]) + P('<H', w['pos'] + 1) + bytes(2 if self.bv >= 80 else 12)
        if self.bv >= 80 and 'own' in self.m.books and self.rng.random() < .3:
            ok = [j for j, (bk, lo, hi) in enumerate(self.m.refs) if self.m.books[bk] == 'own' and (lo, hi) == (0xFFFE, 0xFFFE)]
            if ok:
                b = bytes([0x19 | self.rng.choice([1, 2, 3]) << 5]) + P('<HHH', self.rng.choice(ok), w['pos'] + 1, 0)
        t = w['node']
        text = w['name'] if w['scope'] < 0 else '%s!%s' % (self.m.ws[w['scope']], w['name'])
        if w['bad'] or t.err:
            return N(b, UNK, None, text, 90, rel=t.rel, err=True)
        n = N(b, t.kind, t.value, text, 90)
        return n

    def expr(self, d):
        rng = self.rng
        if d <= 0 or rng.random() < .2:
            n = self.leaf()
        else:
            k = rng.random()
            if k < .35:
                n = binop(rng.choice(list(BIN)), self.expr(d - 1), self.expr(d - 1))
            elif k < .5:
                n = unop(rng.choice(list(UN)), self.expr(d - 1))
            elif k < .62:
                a, b = self.ref(), self.ref()
                opc = rng.choice([15, 16, 17])
                if opc == 16 and rng.random() < .3:
                    a = refop(16, self.ref(), a)
                n = refop(opc, a, b)
            else:
                n = self.func(d)
        if rng.random() < .1:
            # source cosmetics
            n.b += rng.choice([b'\x15', b'\x19\x40\x00\x01', b'\x19\x08\x03\x00', b'\x19\x02\x07\x00', b'\x19\x04\x02\x00' + bytes(6)])
        return n

    def func(self, d):
        rng = self.rng
        k = rng.random()
        if k < .1:
            a = self.expr(d - 1)
            return N(a.b + b'\x19\x10\x00\x00', NUM, None, 'SUM(%s)' % a.text, 90, a.rel, a.err)
        fid = rng.choice([1, 1, 1, 100, 100] + [rng.choice(list(FUNCS)) for _ in range(6)])
        unknown = rng.random() < .05
        if unknown:
            fid = rng.choice([255, 40000 % 32768, 53, 500])
            lo, hi = 0, 4
        else:
            nm, lo, hi = FUNCS[fid]
        n = rng.randint(lo, min(hi, lo + 4) if rng.random() < .9 else hi)
        args = []
        for i in range(n):
            if fid in (1, 100) and i == 0:
                c = rng.random()
                if c < .4:
                    v = rng.choice([0, 1])
                    args.append(N(bytes([0x1d, v]), BOOL, v, ['FALSE', 'TRUE'][v]))
                    continue
                if c < .8:
                    v = rng.choice([0.0, 1.0, 1.5, 2.0, 3.0, -1.0, n - 1.0, float(n), n - .5])
                    args.append(N(b'\x1f' + P('<d', v), NUM, v, str(v)))
                    continue
            if rng.random() < .1:
                args.append(N(b'\x16', MSNG, None, ''))
            else:
                args.append(self.expr(d - 1 if n < 6 else 0))
        b = b''.join(a.b for a in args)
        rel, err = any(a.rel for a in args), any(a.err for a in args)
        cls = rng.choice([0x20, 0x40, 0x60])
        if lo == hi and not unknown and rng.random() < .8:
            b += bytes([1 + cls]) + P('<H', fid)
        else:
            b += bytes([2 + cls, n | rng.choice([0, 0, 128])]) + P('<H', fid | rng.choice([0, 0, 0, 32768]))
        if unknown:
            return N(b, UNK, None, '?', 0, rel, err)
        r = N(b, UNK, None, '%s(%s)' % (nm, ','.join(a.text for a in args)), 90, rel, err)
        pick = None
        if fid == 1:
            t = args[0]
            if t.kind in (NUM, BOOL) and t.value is not None and t.value in (0, 1):
                if t.value == 0 and n == 2:
                    r.kind, r.value = BOOL, 0
                else:
                    pick = args[1] if t.value == 1 else args[2]
        elif fid == 100:
            t = args[0]
            if t.kind == NUM and t.value is not None and 1 <= t.value < n:
                pick = args[int(t.value)]
        if pick is not None:
            r.kind, r.value = (NUM, 0) if pick.kind == MSNG else (pick.kind, pick.value)
        return r


def view(v):
    if isinstance(v, list):
        return [(tuple(x.coords), tuple(x.relflags)) for x in v]
    return v


def same(a, b):
    if isinstance(a, float) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b if not isinstance(a, int) else a == b


class C17(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(seed=rng.getrandbits(40), bv=rng.choice([80, 80, 70, 50]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        rng = random.Random(case['seed'])
        m = Model(rng, case['bv'])
        g = Gen(rng, m)
        bv = m.bv
        ns = len(m.sheets)
        n = rng.choice([1, 3, 6, 12])
        place = list(range(n))
        rng.shuffle(place)
        for i in range(n):
            node = g.expr(rng.choice([0, 1, 2, 3]))
            while len(node.b) > 1500:
                node = g.expr(1)
            flags, bad = (8 if rng.random() < .04 else 0), False
            scope, s = -1, 0
            if bv >= 80 and rng.random() < .2:
                s = rng.randrange(1, ns + 1)
                scope = m.map[s - 1] if m.map[s - 1] >= 0 else -2
            if flags:
                bad = True
            # a name without a formula has no known value
            if rng.random() < .05:
                node = N(b'', UNK, None, '?', 0)
            g.names.append(dict(name='N%d' % i, scope=scope, node=node, bad=bad, flags=flags, s=s, pos=place[i]))
        circular = rng.random() < .04
        recs = []
        for w in sorted(g.names, key=lambda w: w['pos']):
            recs.append(namerec(bv, w['name'], w['flags'], w['s'], w['node'].b, extra=bytes(rng.choice([0, 0, 5]))))
        if circular:
            k = len(recs)
            recs.append(namerec(bv, 'loop1', fm=b'\x23' + P('<H', k + 2) + bytes(2 if bv >= 80 else 12)))
            recs.append(namerec(bv, 'loop2', fm=b'\x23' + P('<H', k + 1) + bytes(2 if bv >= 80 else 12)))
        o = op(m.file(recs), dict(verbosity=rng.choice([0, 0, 0, 0, 1, 2])))
        if circular:
            if o[:2] != ('exc', 'XLRDError'):
                return 'names that refer to each other: %r' % (o[:3],)
            return None
        if o[0] != 'ok':
            return 'opening: %r' % (o[1:],)
        bk = o[1]
        for w in g.names:
            q = bk.name_map[w['name'].lower()][0]
            t = w['node']
            if w['bad']:
                continue
            r = q.result
            hx = t.b.hex()[:200]
            if r is None:
                return 'formula %s (%s): no result' % (hx, t.text)
            if r.kind != t.kind or not same(view(r.value), t.value):
                return 'formula %s (%s): kind %r, value %r instead of %r, %r' % (hx, t.text, r.kind, view(r.value), t.kind, t.value)
            if t.text is not None and '?' not in t.text and r.text != t.text:
                return 'formula %s: text %r instead of %r' % (hx, r.text, t.text)
            if bool(q.any_err) != bool(t.err):
                return 'formula %s (%s): any_err is %r' % (hx, t.text, q.any_err)
            if t.rel is not None and bool(q.any_rel) != bool(t.rel):
                return 'formula %s (%s): any_rel is %r' % (hx, t.text, q.any_rel)
        return None
