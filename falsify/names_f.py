"""C16 external sheet references, C22 Name.cell / Name.area2d, C34 defined names"""
import io
import random
from . import biff as W
from .biff import rec, P, outcome, bstr, ustr

BUILTIN = {0: 'Consolidate_Area', 1: 'Auto_Open', 2: 'Auto_Close', 3: 'Extract', 4: 'Database', 5: 'Criteria', 6: 'Print_Area', 7: 'Print_Titles',
           8: 'Recorder', 9: 'Data_Form', 10: 'Auto_Activate', 11: 'Auto_Deactivate', 12: 'Sheet_Title', 13: '_FilterDatabase'}
SHEETS = ['Sheet1', 'Data', "It's", 'a b', 'Q4', 'Totals', 'Caf\xe9', 'x', 'Sheet 2', 'END']
NAMES = ['alpha', 'Alpha', 'ALPHA', 'beta', '\xc9t\xe9', '\xe9T\xc9', 'x1', 'X1', 'Rate_2', 'a.b', 'A.B']


def namerec(bv, name, flags=0, scope=0, fm=b'', fmlen=None, extra=b'', tail=(0, 0, 0, 0)):
    n = len(fm) if fmlen is None else fmlen
    a, b = (0, scope) if bv >= 80 else (scope, scope)
    if bv >= 80:
        wide = any(ord(c) > 255 for c in name)
        u = name.encode('utf-16-le')
        body = bytes([1 if wide else 0]) + (u if wide else name.encode('latin-1'))
        ln = len(u) // 2
    else:
        body = name.encode('latin-1')
        ln = len(body)
    return rec(0x18, P('<HBBHHH4B', flags, 0, ln, n, a, b, *tail) + body + fm + extra)


def addr8(r, c, rr, cr):
    return P('<HH', r & 0xFFFF, (c & 0xFF) | (cr << 14) | (rr << 15))


def tok(bv, f):
    """tokens of a formula tree"""
    k = f[0]
    if k == 'ref':
        _, x, r, c, rr, cr, cls = f
        if bv >= 80:
            return bytes([0x1A | cls << 5]) + P('<H', x) + P('<HH', r & 0xFFFF, (c & 0xFF) | (cr << 14) | (rr << 15))
        return bytes([0x1A | cls << 5]) + P('<h8xhh', *x) + P('<HB', (r & 0x3FFF) | (cr << 14) | (rr << 15), c & 0xFF)
    if k == 'area':
        _, x, r1, r2, c1, c2, rel, cls = f
        if bv >= 80:
            return bytes([0x1B | cls << 5]) + P('<H', x) + P('<HHHH', r1 & 0xFFFF, r2 & 0xFFFF, (c1 & 0xFF) | (rel[1] << 14) | (rel[0] << 15), (c2 & 0xFF) | (rel[3] << 14) | (rel[2] << 15))
        return bytes([0x1B | cls << 5]) + P('<h8xhh', *x) + P('<HHBB', (r1 & 0x3FFF) | (rel[1] << 14) | (rel[0] << 15), (r2 & 0x3FFF) | (rel[3] << 14) | (rel[2] << 15), c1 & 0xFF, c2 & 0xFF)
    if k == 'int':
        return b'\x1e' + P('<H', f[1])
    if k == 'list':
        return tok(bv, f[1]) + tok(bv, f[2]) + b'\x10'
    if k == 'str':
        return b'\x17' + (ustr(f[1], 1) if bv >= 80 else bstr(f[1].encode('latin-1'), 1))
    raise AssertionError(k)


class Model(object):
    """a workbook with references between its sheets"""

    def __init__(self, rng, bv):
        self.rng, self.bv = rng, bv
        n = rng.choice([1, 2, 3, 5, 8])
        types = [0] + [rng.choice([0, 0, 0, 1, 2, 6]) for _ in range(n - 1)]
        rng.shuffle(types)
        self.sheets = list(zip(rng.sample(SHEETS, n), types))
        self.map, k = [], 0
        for _, t in self.sheets:
            self.map.append(k if t == 0 else -1)
            k += t == 0
        self.ws = [nm for nm, t in self.sheets if t == 0]
        # external books and references
        self.books = [rng.choice(['own', 'addin', 'ext', 'dde']) for _ in range(rng.choice([0, 1, 3]))]
        one = []
        for b in self.books:
            if b in ('own', 'addin') and b in one:
                b = 'ext'
            one.append(b)
        self.books = one if 'own' in one else one[:1] + ['own'] + one[1:]
        self.refs = []
        if bv >= 80:
            for _ in range(rng.choice([1, 4, 12, rng.choice([30, 1500])])):
                b = rng.randrange(len(self.books)) if rng.random() < .4 else self.books.index('own')
                k = self.books[b]
                if k == 'addin':
                    lo = hi = 0xFFFE
                elif k != 'own':
                    lo, hi = rng.choice([(0, 0), (0xFFFE, 0xFFFE), (1, 2), (0xFFFF, 0xFFFF)])
                else:
                    a, z = rng.randrange(n), rng.randrange(n)
                    lo, hi = rng.choice([(a, a), (a, a), (min(a, z), max(a, z)), (min(a, z), max(a, z)), (0xFFFE, 0xFFFE), (0xFFFF, 0xFFFF), (a, n), (n, n), (z, a), (0, 0xFFFF), (0xFFFF, 0), (0xFFFF, 0xFFFE), (0xFFFE, 0xFFFF), (0xFFFE, 0)])
                self.refs.append((b, lo, hi))
        else:
            for nm, t in self.sheets:
                if rng.random() < .8:
                    self.refs.append((3, nm))
                if rng.random() < .2:
                    self.refs.append((rng.choice([1, 2, 4, 0, 9]), 'zz'))
            if not any(t == 3 for t, _ in self.refs):
                self.refs.append((3, self.sheets[0][0]))
            rng.shuffle(self.refs)

    def target(self):
        """-> (operand for tok, expected (first, last) sheets)"""
        rng, n = self.rng, len(self.sheets)
        if self.bv >= 80:
            i = rng.randrange(len(self.refs) + (rng.random() < .1) * 3)
            if i >= len(self.refs):
                return i, None
            b, lo, hi = self.refs[i]
            k = self.books[b]
            if k == 'addin':
                return i, (-5, -5)
            if k != 'own':
                return i, (-4, -4)
            if (lo, hi) == (0xFFFE, 0xFFFE):
                return i, (-1, -1)
            if (lo, hi) == (0xFFFF, 0xFFFF):
                return i, (-2, -2)
            x = i
        else:
            raw = rng.choice([0, -1, -2, -1, -1, 3])
            a, z = rng.randrange(n), rng.randrange(n)
            lo, hi = rng.choice([(a, a), (a, a), (min(a, z), max(a, z)), (-1, -1), (-1, a), (a, -1), (a, n), (z, a), (n, n)])
            x = (raw, lo, hi)
            if raw > 0:
                return x, (-4, -4)
            if (lo, hi) == (-1, -1):
                return x, (-2, -2)
        if not 0 <= lo <= hi < n:
            return x, None
        s1, s2 = self.map[lo], self.map[hi]
        if not 0 <= s1 <= s2:
            return x, (-3, -3)
        return x, (s1, s2)

    def links(self):
        rng, out = self.rng, []
        if self.bv < 80:
            for t, nm in self.refs:
                b = nm.encode('latin-1')
                out.append(rec(0x17, bytes([len(b), t]) + b))
            return out
        for b in self.books:
            if b == 'own':
                out.append(rec(0x1AE, P('<H', len(self.sheets)) + b'\x01\x04'))
            elif b == 'addin':
                out.append(rec(0x1AE, b'\x01\x00\x01\x3A'))
                for i in range(rng.choice([0, 1, 2])):
                    nm = 'FUNC%d' % rng.randrange(99)
                    self.addins = getattr(self, 'addins', []) + [nm]
                    out.append(rec(0x23, P('<HI', 0, 0) + ustr(nm, 1) + P('<H', 2) + b'\x1c\x17'))
            else:
                names = ['T%d' % i for i in range(rng.choice([1, 3]))] if b == 'ext' else []
                out.append(rec(0x1AE, P('<H', len(names)) + ustr('\x01book.xls', 2) + b''.join(ustr(x, 2) for x in names)))
                if rng.random() < .3:
                    out.append(rec(0x23, P('<HI', 0, 0) + ustr('extname', 1)))
        k = rng.randrange(len(self.refs) + 1) if rng.random() < .2 else 0       # one or two EXTERNSHEET sequences
        late = rng.randrange(len(out) + 1)
        if k:
            out[late:late] = self.externsheet(self.refs[:k])
        out += self.externsheet(self.refs[k:])
        return out

    def externsheet(self, refs):
        rng, out = self.rng, []
        d = P('<H', len(refs)) + b''.join(P('<HHH', *r) for r in refs)
        first = 2 + 6 * rng.randrange(len(refs) + 1) if rng.random() < .3 else rng.choice([len(d), len(d), rng.randrange(2, len(d) + 1)])
        first = min(first, 8224)
        out.append(rec(0x17, d[:first]))
        d = d[first:]
        while d:
            k = min(8224, rng.choice([len(d), rng.randrange(1, len(d) + 1)]))
            out.append(rec(0x3C, d[:k]))
            d = d[k:]
        return out

    def file(self, names, recs=()):
        bv = self.bv
        g = W.std_globals(bv)
        if bv >= 80:
            w = W.WB(bv, pre=g, post=self.links() + names)
        else:
            w = W.WB(bv, pre=g + self.links() + names, codepage=1252)
        for nm, t in self.sheets:
            w.sheet(nm, typ=t, kind={0: 0x10, 2: 0x20}.get(t, 0x40 if t == 1 else 0x06), recs=recs if t == 0 else [])
        return w.bytes()


def op(bk, kw=()):
    return outcome(W.open_bytes, bk, **dict(kw))


class C16(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(seed=rng.getrandbits(40), bv=rng.choice([80, 80, 70, 50]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        rng = random.Random(case['seed'])
        m = Model(rng, case['bv'])
        names, want = [], []
        for i in range(rng.choice([1, 3, 8])):
            x, t = m.target()
            r, c = rng.choice([0, 1, 255, 16383 if m.bv < 80 else 65535]), rng.choice([0, 3, 255])
            if rng.random() < .5:
                fm = ('ref', x, r, c, 0, 0, 1)
                box = (r, r + 1, c, c + 1)
            else:
                r2, c2 = min(r + rng.choice([0, 5]), 16383 if m.bv < 80 else 65535), min(c + rng.choice([0, 2]), 255)
                fm = ('area', x, r, r2, c, c2, (0, 0, 0, 0), 1)
                box = (r, r2 + 1, c, c2 + 1)
            names.append(namerec(m.bv, 'N%d' % i, fm=tok(m.bv, fm)))
            want.append((x, t, box))
        data = m.file(names)
        o = op(data, dict(verbosity=rng.choice([0, 0, 1, 2])))
        if o[0] != 'ok':
            return 'opening: %r' % (o[1:],)
        bk = o[1]
        if m.bv >= 80 and bk.addin_func_names != getattr(m, 'addins', []):
            return 'add-in functions %r instead of %r' % (bk.addin_func_names, getattr(m, 'addins', []))
        for i, (x, t, box) in enumerate(want):
            n = bk.name_obj_list[i]
            res = n.result
            if res is None or res.kind != -1 or not res.value:
                return 'name %d: result %r for a reference to %r' % (i, res, x)
            co = res.value[0].coords
            if t is None:
                if not (co[0] <= -100 and co[1] <= -99):
                    return 'name %d refers to sheets %r that do not exist, resolved to %r' % (i, x, co)
            elif tuple(co[:2]) != (t[0], t[1] + 1):
                return 'name %d refers to %r: sheets %r, resolved to %r (sheet types %r)' % (i, m.refs[x] if m.bv >= 80 and x < len(m.refs) else x, t, co[:2], m.sheets)
            if tuple(co[2:]) != box:
                return 'name %d: box %r instead of %r' % (i, co[2:], box)
        return None


class C22(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(seed=rng.getrandbits(40), bv=rng.choice([80, 80, 70, 50]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        rng = random.Random(case['seed'])
        m = Model(rng, case['bv'])
        bv = m.bv
        nr, nc = rng.choice([(a, b) for a in (1, 4, 9) for b in (1, 3, 6)] + [(0, 0)])
        names, want = [], []
        for i in range(rng.choice([1, 3, 8])):
            x, t = m.target()
            r, c = rng.choice([0, max(nr - 1, 0), max(nr - 1, 0), nr, nr + 4]), rng.choice([0, max(nc - 1, 0), max(nc - 1, 0), nc, nc + 3])
            r2, c2 = r + rng.choice([0, 0, 1, 3, 9]), c + rng.choice([0, 0, 1, 4])
            cls = rng.choice([1, 1, 1, 1, 2, 3])
            k = rng.choice(['ref', 'area', 'area', 'relref', 'relarea', 'int', 'str', 'list', 'none'])
            t2 = t if t is not None and t[0] >= 0 and t[0] == t[1] and cls == 1 else None
            box = None
            if k == 'ref':
                fm, box = ('ref', x, r, c, 0, 0, cls), (r, r + 1, c, c + 1)
            elif k == 'area':
                fm, box = ('area', x, r, r2, c, c2, (0, 0, 0, 0), cls), (r, r2 + 1, c, c2 + 1)
            elif k == 'relref':
                fm = ('ref', x, r, c, rng.choice([0, 1]), 1, cls)
            elif k == 'relarea':
                rel = [0, 0, 0, 0]
                rel[rng.randrange(4)] = 1
                fm = ('area', x, r, r2, c, c2, rel, cls)
            elif k == 'int':
                fm = ('int', 5)
            elif k == 'str':
                fm = ('str', 'text')
            elif k == 'list':
                fm = ('list', ('ref', x, r, c, 0, 0, 1), ('ref', x, r2, c2, 0, 0, 1))
            else:
                fm = None
            names.append(namerec(bv, 'N%d' % i, fm=tok(bv, fm) if fm else b''))
            want.append((t2, box))
        cells = [rec(0x203, P('<HHHd', a, b, 0, 100.0 * a + b)) for a in range(nr) for b in range(nc)]
        o = op(m.file(names, cells), dict(on_demand=rng.random() < .5))
        if o[0] != 'ok':
            return 'opening: %r' % (o[1:],)
        bk = o[1]
        for i, (t, box) in enumerate(want):
            n = bk.name_obj_list[i]
            good = t is not None and box is not None
            one = good and box[1] == box[0] + 1 and box[3] == box[2] + 1
            r = outcome(n.cell)
            if not one:
                if r[:2] != ('exc', 'XLRDError'):
                    return 'cell() of %r gives %r' % (n.result, r)
            elif box[0] < nr and box[2] < nc:
                if r[0] != 'ok' or r[1].value != 100.0 * box[0] + box[2]:
                    return 'cell() of %r gives %r' % (n.result, r)
            for clip in (None, True, False):
                r = outcome(n.area2d, *([] if clip is None else [clip]))
                if not good:
                    if r[:2] != ('exc', 'XLRDError'):
                        return 'area2d() of %r gives %r' % (n.result, r)
                    continue
                sh = bk.sheet_by_index(t[0])
                if clip is False:
                    w = box
                else:
                    w = (min(box[0], nr), max(min(box[0], nr), min(box[1], nr)), min(box[2], nc), max(min(box[2], nc), min(box[3], nc)))
                if r[0] != 'ok' or r[1][0] is not sh or tuple(r[1][1:]) != w:
                    return 'area2d(%r) of %r in a %d x %d sheet gives %r instead of %r' % (clip, n.result, nr, nc, r, w)
        return None


class C34(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(seed=rng.getrandbits(40), bv=rng.choice([80, 80, 80, 70, 50]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        rng = random.Random(case['seed'])
        m = Model(rng, case['bv'])
        bv = m.bv
        recs, want = [], []
        ns = len(m.sheets)
        own = [i for i, (t, _) in enumerate(m.refs) if t == 3] if bv < 80 else []
        for i in range(rng.choice([0, 1, 3, 8, 20])):
            flags = 0
            for bit in (0, 1, 2, 4):
                if rng.random() < .2:
                    flags |= 1 << bit
            if rng.random() < .1:
                flags |= 8
            if rng.random() < .1:
                flags |= 0x1000
            if rng.random() < .1:
                flags |= rng.randrange(8) << 13             # reserved
            if rng.random() < .3:
                flags |= rng.randrange(64) << 6
            if rng.random() < .3:
                flags |= 0x20
                code = rng.choice(list(BUILTIN) + [6, 7, 13])
                nm, name = chr(code), BUILTIN[code]
            else:
                nm = name = rng.choice(NAMES + (['\u0391bc', '\u03b1BC', '\u4e2d'] if bv >= 80 else []))
            if bv >= 80:
                s = rng.choice([0, 0, 0, rng.randrange(1, ns + 1), rng.randrange(1, ns + 1), ns + 1, 65535])
                scope = -1 if s == 0 else -3 if s > ns else (m.map[s - 1] if m.map[s - 1] >= 0 else -2)
            else:
                s = rng.choice([0, 0, rng.choice(own) + 1, rng.choice(own) + 1])
                if s == 0:
                    scope = -1
                else:
                    k = [q for q, _ in m.sheets].index(m.refs[s - 1][1])
                    scope = m.map[k] if m.map[k] >= 0 else -2
            fm = rng.choice([b'', b'\x1e' + P('<H', i), b'\x17' + (ustr('v%d' % i, 1) if bv >= 80 else bstr(b'v%d' % i, 1)), b'\x1f' + P('<d', i / 4.0)])
            extra = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 3])))
            tail = tuple(rng.choice([0, 0, 5]) for _ in range(4))
            recs.append(namerec(bv, nm, flags, s, fm, extra=extra, tail=tail))
            ev = not flags & 0x1008
            val = None
            if ev and fm[:1] == b'\x1e':
                val = (2, float(i))
            elif ev and fm[:1] == b'\x17':
                val = (1, 'v%d' % i)
            elif ev and fm[:1] == b'\x1f':
                val = (2, i / 4.0)
            elif ev:
                val = (0, None)
            want.append(dict(name=name, scope=scope, flags=flags, raw=fm + extra, n=len(fm), val=val))
        o = op(m.file(recs), dict(verbosity=rng.choice([0, 0, 0, 1, 2])))
        if o[0] != 'ok':
            return 'opening: %r' % (o[1:],)
        bk = o[1]
        L = bk.name_obj_list
        if len(L) != len(want):
            return '%d names instead of %d' % (len(L), len(want))
        byk, bys = {}, {}
        for i, (n, w) in enumerate(zip(L, want)):
            f = w['flags']
            got = dict(name=n.name, scope=n.scope, index=n.name_index, hidden=n.hidden, func=n.func, vbasic=n.vbasic, macro=n.macro, complex=n.complex,
                       builtin=n.builtin, funcgroup=n.funcgroup, binary=n.binary, raw=n.raw_formula, ln=n.basic_formula_len)
            exp = dict(name=w['name'], scope=w['scope'], index=i, hidden=f & 1, func=f >> 1 & 1, vbasic=f >> 2 & 1, macro=f >> 3 & 1, complex=f >> 4 & 1,
                       builtin=f >> 5 & 1, funcgroup=f >> 6 & 63, binary=f >> 12 & 1, raw=w['raw'], ln=w['n'])
            if got != exp:
                return 'name %d is %r instead of %r' % (i, {k: got[k] for k in got if got[k] != exp[k]}, {k: exp[k] for k in got if got[k] != exp[k]})
            if n.book is not bk:
                return 'name %d belongs to another book' % i
            res = None if n.result is None else (n.result.kind, n.result.value)
            if res != w['val']:
                return 'name %d has the result %r instead of %r' % (i, res, w['val'])
            byk[(w['name'].lower(), w['scope'])] = n
            bys.setdefault(w['name'].lower(), []).append((w['scope'], i, n))
        if set(bk.name_and_scope_map) != set(byk) or any(bk.name_and_scope_map[k] is not byk[k] for k in byk):
            return 'name_and_scope_map has the keys %r, expected %r' % (sorted(bk.name_and_scope_map), sorted(byk))
        for k in bys:
            bys[k] = [x[2] for x in sorted(bys[k], key=lambda x: x[:2])]
        if set(bk.name_map) != set(bys):
            return 'name_map has the keys %r, expected %r' % (sorted(bk.name_map), sorted(bys))
        for k, v in bys.items():
            g = bk.name_map[k]
            if len(g) != len(v) or any(a is not b for a, b in zip(g, v)):
                return 'name_map[%r] is not in scope order: %r' % (k, [(x.scope, x.name_index) for x in g])
        return None
