"""C18 number formats, C19 colours, C20 XF/font/style records, C24 column widths, C36 BIFF2 cell attributes"""
import struct
from . import biff as W
from .biff import rec, P, ustr, bstr
from contracts.xftables import *

BVS = [80, 80, 70, 50, 45, 40, 30, 21]
ALPHA = 'ymdhsYMDHS00##??"\\_*[]$-+/(): ;;.,%@EgG\t\xa0'
KNOWN = ['0.00E+00', '##0.0E+0', 'General', 'GENERAL', 'general', '@']
DATEFMT = set(KNOWN)


def is_date(s):
    """classification of a number format text, written from its documentation"""
    kept, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = s.find('"', i + 1)
            i = len(s) if j < 0 else j + 1
        elif c in '\\_*':
            i += 2
        else:
            if c not in '$-+/(): ':
                kept.append(c)
            i += 1
    t = ''.join(kept)
    while True:
        a = t.find('[')
        b = t.find(']', a) if a >= 0 else -1
        if a < 0 or b < 0:
            break
        t2 = t[b + 1:]
        rest = strip(t2)
        t = t[:a] + rest
        break
    if t in DATEFMT:
        return False
    return sum(c in 'ymdhsYMDHS' for c in t) > sum(c in '0#?' for c in t)


def strip(t):
    out = ''
    while True:
        a = t.find('[')
        b = t.find(']', a) if a >= 0 else -1
        if b < 0:
            return out + t
        out, t = out + t[:a], t[b + 1:]


def gen_fmt(rng):
    r = rng.random()
    if r < .15:
        return rng.choice(['', '', '', ' ', '\t']) + rng.choice(KNOWN) + rng.choice(['', '', ' ', '\t', '\n', '\xa0', '\x00', '"x"', '[Red]', ';@'])
    if r < .3:
        return rng.choice(['yyyy-mm-dd', '[h]:mm:ss', 'd/m/yy;@', '0.00', '"days" 0', '\\y0', 'mm:ss.0', '[$-409]d-mmm', '_(* 0_)', '[Red]General', 's00', '0s'])
    return ''.join(rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 2, 3, 5, 9])))


def word(b, f):
    off, size, lo, n = f
    return int.from_bytes(bytes(b[off:off + size]), 'little') >> lo & ((1 << n) - 1)


def value(b, f):
    if isinstance(f, int):
        return f
    if f[0] == 'orient':
        return (0, 255, 90, 180)[word(b, f[1:])]
    if f[0] == 'if':
        return f[3] if b[f[1]] >> f[2] & 1 else f[4]
    return word(b, f)


def get(o, path):
    for p in path.split('.'):
        o = getattr(o, p)
    return o


XFCODE = {80: 0xE0, 70: 0xE0, 50: 0xE0, 45: 0x443, 40: 0x443, 30: 0x243, 21: 0x43}


def gen(rng, what):
    bv = rng.choice(BVS if what != 'C19' else [80, 80, 70, 50, 45, 40, 30])
    c = dict(bv=bv, fi=rng.choice([0, 1, 1, 1]), fonts=[], fmts=[], xfs=[], styles=[], pal=None, cells=[], efonts=[])
    for _ in range(rng.choice([1, 4, 5, 6])):
        c['fonts'].append([rng.randrange(65536), rng.choice([0, 1, 2, 4, 8, 16, 32, 63, rng.randrange(65536)]), rng.choice([8, 9, 0x7FFF, rng.randrange(80)]),
                           rng.randrange(65536), rng.randrange(65536), rng.randrange(256), rng.randrange(256), rng.randrange(256),
                           rng.choice(['Arial', '', 'A', 'Caf\xe9'])])
    n = rng.randrange(6) if what == 'C18' else rng.randrange(3)
    keys = [164, 165, 166, 200, 1, 14, 49, 300, 5, 65535]
    for i in range(n):
        c['fmts'].append([rng.choice(keys) if bv >= 50 else i, gen_fmt(rng) if i or bv >= 50 else 'General'])
    size = XFSPEC[bv][0]
    for _ in range(rng.choice([1, 2, 3])):
        b = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(size)]
        k = rng.choice([f[0] for f in c['fmts']] or [0]) if rng.random() < .6 else rng.choice([0, 1, 14, 22, 27, 37, 45, 49, 50, 57, 81, 82, 163, 999])
        if bv >= 50:
            b[2:4] = [k & 255, k >> 8]
        elif bv > 21:
            b[1] = k & 255
        else:
            b[2] = b[2] & 0xC0 | k & 0x3F
        c['xfs'].append(b)
    if what == 'C20' and bv >= 50:
        for _ in range(rng.randrange(4)):
            c['styles'].append(rng.choice([['b', rng.randrange(3), rng.randrange(10), rng.choice([0, 1, 6, 254])],
                                           ['u', rng.randrange(3), rng.choice(['x', 'My style', '\u20ac' if bv == 80 else 'e'])], ['z']]))
    if what == 'C19' or rng.random() < .2:
        if rng.random() < .75 and bv > 21:
            n = rng.choice([56 if bv >= 50 else 16, 56 if bv >= 50 else 16, 0, 1, 8, 16, 57, 60])
            c['pal'] = [[rng.randrange(256) for _ in range(4)] for _ in range(n)]
            c['pad'] = rng.choice([0, 0, 4, 3, 5, -1 if n else 0])
    for i in range(rng.randrange(4)):
        c['cells'].append([i, i, rng.randrange(len(c['xfs']))])
    if bv == 21:
        c['efonts'] = [rng.randrange(70) for _ in c['fonts']]
    return c


def fontrec(bv, f):
    h, o, col, w, esc, ul, fam, cs, name = f
    nb = name.encode('latin-1')
    if bv >= 50:
        return rec(0x31, P('<HHHHHBBBB', h, o, col, w, esc, ul, fam, cs, 0) + (ustr(name, 1) if bv == 80 else bstr(nb)))
    if bv >= 30:
        return rec(0x231, P('<HHH', h, o, col) + bstr(nb))
    return rec(0x31, P('<HH', h, o) + bstr(nb))


def build(c):
    bv = c['bv']
    g = []
    for i, f in enumerate(c['fonts']):
        g.append(fontrec(bv, f))
        if c['efonts']:
            g.append(rec(0x45, P('<H', c['efonts'][i])))
    g += [W.fmtrec(bv, k, s) for k, s in c['fmts']]
    g += [rec(XFCODE[bv], bytes(b)) for b in c['xfs']]
    for s in c['styles']:
        if s[0] == 'b':
            g.append(rec(0x293, P('<HBB', 0x8000 | s[1], s[2], s[3])))
        elif s[0] == 'u':
            g.append(rec(0x293, P('<H', s[1]) + (ustr(s[2], 2) if bv == 80 else bstr(s[2].encode('latin-1'), 1))))
        else:
            g.append(rec(0x293, b'\0\0\0\0'))
    if c['pal'] is not None:
        b = P('<H', len(c['pal'])) + b''.join(bytes(x) for x in c['pal'])
        g.append(rec(0x92, b + b'\0' * c['pad'] if c['pad'] >= 0 else b[:c['pad']]))
    body = [W.dimension(bv, 0, 0)]
    for r, col, xf in c['cells']:
        if bv == 21:
            body.append(rec(3, P('<HH', r, col) + bytes([xf & 0x3F, 0, 0]) + P('<d', 40000.5)))
        else:
            body.append(rec(0x203, P('<HHHd', r, col, xf, 40000.5)))
    if bv >= 50:
        return W.WB(bv, pre=g, codepage=1252 if bv < 80 else None).sheet('S', recs=body).bytes()
    if bv == 45:
        return W.WB(45, codepage=1252).sheet('S', recs=g + body).bytes()
    return W.WB(bv).sheet('S', recs=[rec(0x42, P('<H', 1252))] + g + body).bytes()


def formats_of(c):
    """format map the records define: key -> (type, text)"""
    bv, m = c['bv'], {}
    for i, (k, s) in enumerate(c['fmts']):
        key = k if bv >= 50 else i
        m[key] = (FDT if is_date(s) else FGE, s)
    explicit = dict(m)
    if bv >= 50 and c['xfs']:
        for k in range(0, 120):
            if k not in m and std_class(k) is not None:
                m[k] = (std_class(k), STDTEXT.get(k))
    return m, explicit


def standard(e, k, bv):
    return bv >= 50 and k not in e


def palette_ok(c):
    return c['pal'] is None or c['pad'] in (0, 3, 4)


def common(c):
    out = W.outcome(W.open_bytes, build(c), formatting_info=bool(c['fi']))
    if c['pal'] is not None and c['fi'] and not palette_ok(c):
        if out[0] != 'exc' or out[1] != 'XLRDError':
            return None, 'PALETTE record of the wrong size is not refused: %r' % (out[:2],)
        return None, None
    if out[0] != 'ok':
        return None, 'opening fails: %r' % (out,)
    return out[1], None


class Base(object):
    @staticmethod
    def from_model(h):
        return []

    @classmethod
    def cases(cls, rng, deep):
        while True:
            yield gen(rng, cls.__name__)


class C18(Base):
    @staticmethod
    def cases(rng, deep):
        while True:
            for _ in range(20):
                yield dict(text=gen_fmt(rng))
            yield gen(rng, 'C18')

    @staticmethod
    def from_model(h):
        t = h.get('fmt')
        return [dict(text=t)] if isinstance(t, str) and len(t) < 5000 else []

    @staticmethod
    def test(c):
        if 'text' in c:
            import xlrd.formatting as F
            import xlrd.book
            b = xlrd.book.Book()
            b.logfile, b.verbosity = W.NULL, 0
            got = F.is_date_format_string(b, c['text'])
            if got is not is_date(c['text']):
                return 'format %r: date is %r, not %r' % (c['text'], got, is_date(c['text']))
            return None
        b, msg = common(c)
        if b is None:
            return msg
        m, explicit = formats_of(c)
        got = {k: (f.type, f.format_str) for k, f in b.format_map.items()}
        for k in set(got) | set(m):
            if k not in explicit and c['bv'] < 50:
                continue
            if k == 0 and k not in explicit:
                continue
            if got.get(k) != m.get(k):
                return 'format %r is %r, the file says %r' % (k, got.get(k), m.get(k))
        s = b.sheet_by_index(0)
        for r, col, xf in c['cells']:
            raw = value(c['xfs'][xf], XFSPEC[c['bv']][1]['format_key'])
            ty = m.get(raw, (FGE, ''))[0]
            want = 3 if ty == FDT else 2
            if s.cell_type(r, col) != want:
                return 'number with format key %d (%r) has cell type %d, not %d' % (raw, m.get(raw), s.cell_type(r, col), want)
            if s.cell_value(r, col) != 40000.5:
                return 'number changed: %r' % s.cell_value(r, col)
        return None


class C19(Base):
    @staticmethod
    def cases(rng, deep):
        while True:
            if rng.random() < .2:
                yield dict(near=[[rng.choice([0, 255, rng.randrange(256)]) for _ in range(3)],
                                 [[rng.randrange(70), None if rng.random() < .2 else [rng.choice([0, 255, rng.randrange(256)]) for _ in range(3)]]
                                  for _ in range(rng.choice([0, 1, 2, 6]))]])
            else:
                yield gen(rng, 'C19')

    @staticmethod
    def test(c):
        if 'near' in c:
            import xlrd.formatting as F
            m = {k: None if v is None else tuple(v) for k, v in c['near'][1]}
            got = F.nearest_colour_index(m, tuple(c['near'][0]))
            d = lambda v: sum((a - b) ** 2 for a, b in zip(c['near'][0], v))
            known = [v for v in m.values() if v is not None]
            if known and (m.get(got) is None or d(m[got]) > min(d(v) for v in known)):
                return 'colour %r: index %r (%r) is not the nearest of %r' % (c['near'][0], got, m.get(got), m)
            if not known and got != 0:
                return 'no known colour, yet index %r' % got
            return None
        b, msg = common(c)
        if b is None:
            return msg
        want, pal = (default_map(c['bv']), []) if c['fi'] else ({}, [])
        if c['fi'] and c['pal'] is not None:
            pal = [tuple(x[:3]) for x in c['pal']]
            want.update({8 + i: x for i, x in enumerate(pal)})
        if b.palette_record != pal:
            return 'palette_record is %r, not %r' % (b.palette_record, pal)
        for k in set(b.colour_map) | set(want):
            if k not in b.colour_map or k not in want or b.colour_map[k] != want[k]:
                return 'colour %d is %r, not %r' % (k, b.colour_map.get(k, 'missing'), want.get(k, 'missing'))
        return None


STYLES = ['Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent', 'Comma [0]', 'Currency [0]', 'Hyperlink', 'Followed Hyperlink']


class C20(Base):
    @staticmethod
    def test(c):
        b, msg = common(c)
        if b is None:
            return msg
        bv = c['bv']
        m, explicit = formats_of(c)
        if len(b.xf_list) != len(c['xfs']):
            return '%d XF entries, %d records' % (len(b.xf_list), len(c['xfs']))
        for i, raw in enumerate(c['xfs']):
            x = b.xf_list[i]
            if x.xf_index != i:
                return 'XF %d has xf_index %r' % (i, x.xf_index)
            for path, f in XFSPEC[bv][1].items():
                v = value(raw, f)
                if path == 'format_key' and v not in m and not (v == 0):
                    v = 0
                if path == 'parent_style_index':
                    continue
                if get(x, path) != v:
                    return 'XF %d: %s is %r, the record says %r' % (i, path, get(x, path), v)
        if c['fi']:
            fonts = list(c['fonts'])
            if len(fonts) > 4:
                fonts.insert(4, None)
            if len(b.font_list) != len(fonts):
                return '%d fonts, %d expected' % (len(b.font_list), len(fonts))
            for i, f in enumerate(fonts):
                x = b.font_list[i]
                if x.font_index != i:
                    return 'font %d has font_index %r' % (i, x.font_index)
                if f is None:
                    continue
                h, o, col, w, esc, ul, fam, cs, name = f
                want = dict(height=h, bold=o & 1, italic=o >> 1 & 1, underlined=o >> 2 & 1, struck_out=o >> 3 & 1, name=name)
                if bv >= 30:
                    want.update(outline=o >> 4 & 1, shadow=o >> 5 & 1, colour_index=col)
                if bv >= 50:
                    want.update(weight=w, escapement=esc, underline_type=ul, family=fam, character_set=cs)
                else:
                    want.update(weight=700 if o & 1 else 400, escapement=0, underline_type=o >> 2 & 1, family=0, character_set=1)
                if bv == 21:
                    want['colour_index'] = c['efonts'][i if i < 4 else i - 1]
                for a, v in want.items():
                    if getattr(x, a) != v:
                        return 'font %d: %s is %r, the record says %r' % (i, a, getattr(x, a), v)
        elif b.font_list:
            return 'fonts kept without formatting_info'
        want = {}
        for s in c['styles']:
            if s[0] == 'b':
                want[STYLES[s[2]] + (str(s[3] + 1) if s[2] in (1, 2) else '')] = (1, s[1])
            elif s[0] == 'u':
                want[s[2]] = (0, s[1])
            elif 'Normal' not in want:
                want['Normal'] = (1, 0)
            else:
                want[''] = (0, 0)
        if b.style_name_map != (want if c['fi'] else {}):
            return 'styles %r, the records say %r' % (b.style_name_map, want)
        return None


class C24(object):
    from_model = staticmethod(lambda h: [])

    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice(BVS)
            c = dict(bv=bv, fi=rng.choice([0, 1, 1, 1, 1]), std=rng.choice([None, rng.randrange(65536), 0, 1]) if bv >= 40 else None,
                     dfl=rng.choice([None, rng.randrange(65536), 0]), gcw=None, cols=[])
            if 40 <= bv < 80 and rng.random() < .8:
                c['gcw'] = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(32)]
            for _ in range(rng.randrange(4)):
                a = rng.randrange(256)
                c['cols'].append([a, min(255, a + rng.choice([0, 1, 5, 200])), rng.choice([0, rng.randrange(65536)])])
            yield c

    @staticmethod
    def test(c):
        bv = c['bv']
        g = W.std_globals(bv, [(0, 'General')], [0] * 16)
        body = [W.dimension(bv)]
        width = {}
        if c['dfl'] is not None:
            body.append(rec(0x55, P('<H', c['dfl'])))
        for a, z, w in c['cols']:
            body.append(rec(0x7D, P('<HHHHHH', a, z, w, 15, 0, 0)) if bv >= 30 else rec(0x24, P('<BBH', a, z, w)))
            for x in range(a, z + 1):
                width[x] = w
        if c['std'] is not None:
            body.append(rec(0x99, P('<H', c['std'])))
        if c['gcw'] is not None:
            body.append(rec(0xAB, P('<H', 32) + bytes(c['gcw'])))
        if bv >= 50:
            data = W.WB(bv, pre=g, codepage=1252 if bv < 80 else None).sheet('S', recs=body).bytes()
        elif bv == 45:
            data = W.WB(45, codepage=1252).sheet('S', recs=g + body).bytes()
        else:
            data = W.WB(bv).sheet('S', recs=[rec(0x42, P('<H', 1252))] + g + body).bytes()
        out = W.outcome(W.open_bytes, data, formatting_info=bool(c['fi']))
        if out[0] != 'ok':
            return 'opening fails: %r' % (out,)
        s = out[1].sheet_by_index(0)
        if not c['fi']:
            r = W.outcome(s.computed_column_width, 0)
            return None if r[:2] == ('exc', 'XLRDError') else 'no formatting_info, yet %r' % (r,)
        dfl = 2048 if c['dfl'] is None else 256 * c['dfl']
        std = dfl if c['std'] is None else c['std']
        for x in range(256):
            if bv >= 80:
                w = width.get(x, std)
            elif bv >= 40:
                w = std if c['gcw'] and c['gcw'][x // 8] >> (x % 8) & 1 else width.get(x, dfl)
            elif bv == 30:
                w = width.get(x, dfl)
            else:
                w = dfl
            r = W.outcome(s.computed_column_width, x)
            if r != ('ok', w):
                return 'column %d: width %r instead of %d' % (x, r, w)
        return None


class C36(object):
    from_model = staticmethod(lambda h: [])

    @staticmethod
    def cases(rng, deep):
        while True:
            with_xf = rng.random() < .5
            fmts = [gen_fmt(rng) for _ in range(rng.choice([1, 3, 5]))]
            c = dict(xf=[[rng.randrange(4), 0, rng.randrange(256), rng.randrange(256)] for _ in range(rng.choice([1, 5, 64]))] if with_xf else [],
                     fmts=fmts, cells=[])
            pool = [[rng.choice([0, 0x40, 0x80, 0xC0]), rng.choice([0, 1, 2, 0x41, rng.randrange(256)]), rng.randrange(256)] for _ in range(3)] + [[0x40, 0, 0]]
            for i in range(rng.choice([1, 3, 8])):
                if with_xf:
                    c['cells'].append([rng.choice([0, 1, 62, 63, 63, rng.randrange(64)]) | rng.choice([0, 0x40, 0x80]), rng.randrange(256), rng.randrange(256),
                                       rng.choice([None, None, rng.randrange(len(c['xf']))])])
                else:
                    c['cells'].append(rng.choice(pool) + [None])
            c['kinds'] = [rng.choice(['num', 'int', 'label', 'bool', 'blank']) for _ in c['cells']]
            c['fi'] = rng.choice([0, 1, 1])
            yield c

    @staticmethod
    def test(c):
        body = [W.dimension(21)] + [W.font(21) for _ in range(4)]
        body += [rec(0x1E, bstr(f.encode('latin-1'))) for f in c['fmts']]
        body += [rec(0x43, bytes(x)) for x in c['xf']]
        ixfe, want, seen, fails = None, [], {}, False
        nfake = 0
        for i, (a, k) in enumerate(zip(c['cells'], c['kinds'])):
            if a[3] is not None:
                ixfe = a[3]
                body.append(rec(0x44, P('<H', ixfe)))
            at = bytes(a[:3])
            hd = P('<HH', i, 1) + at
            body.append({'num': rec(3, hd + P('<d', 4.5)), 'int': rec(2, hd + P('<H', 7)), 'label': rec(4, hd + bstr(b'abc')),
                         'bool': rec(5, hd + b'\x01\0'), 'blank': rec(1, hd)}[k])
            if k == 'blank' and not c['fi']:
                want.append(None)
                continue
            if c['xf']:
                x = a[0] & 0x3F
                if x == 63:
                    if ixfe is None:
                        fails = True
                        break
                    x = ixfe
                if x >= len(c['xf']):
                    return None
                want.append((x, c['xf'][x]))
            else:
                want.append((None, at))
        data = W.WB(21).sheet('S', recs=[rec(0x42, P('<H', 1252))] + body).bytes()
        out = W.outcome(W.open_bytes, data, formatting_info=bool(c['fi']))
        if fails:
            return None if out[:2] == ('exc', 'XLRDError') else 'index 63 without IXFE: %r' % (out[:2],)
        if out[0] != 'ok':
            return 'opening fails: %r' % (out,)
        b = out[1]
        s = b.sheet_by_index(0)
        if b.biff_version != (21 if c['xf'] or not any(want) else 20):
            return 'BIFF version %r' % b.biff_version
        idx = {}
        for i, (w, k) in enumerate(zip(want, c['kinds'])):
            if w is None:
                continue
            ct = s.cell_type(i, 1)
            if w[0] is None:
                key = w[1][1] & 0x3F
            else:
                key = w[1][2] & 0x3F
            date = key < len(c['fmts']) and is_date(c['fmts'][key])
            t = {'num': 3 if date else 2, 'int': 3 if date else 2, 'label': 1, 'bool': 4, 'blank': 6}[k]
            if ct != t:
                return 'cell %d (%s, format %r) has type %d, not %d' % (i, k, c['fmts'][key] if key < len(c['fmts']) else None, ct, t)
            if not c['fi']:
                continue
            x = s.cell_xf_index(i, 1)
            if w[0] is not None:
                if x != w[0]:
                    return 'cell %d: XF index %d instead of %d' % (i, x, w[0])
                continue
            if idx.setdefault(w[1], x) != x:
                return 'cell attributes %r: XF %d, then %d' % (w[1], idx[w[1]], x)
            if not 0 <= x < len(b.xf_list):
                return 'cell %d: XF index %d is not in the list' % (i, x)
            xf = b.xf_list[x]
            if xf.xf_index != x:
                return 'XF %d has index %r' % (x, xf.xf_index)
            for path, f in B20.items():
                if get(xf, path) != value(w[1], f):
                    return 'attributes %r: %s is %r instead of %r' % (w[1], path, get(xf, path), value(w[1], f))
            if b.format_map[xf.format_key].format_key != xf.format_key:
                return 'format of XF %d missing' % x
        if c['fi'] and not c['xf'] and len(set(idx.values())) != len(idx):
            return 'different attributes share an XF: %r' % idx
        return None
