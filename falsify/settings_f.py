"""C31: sheet settings"""
import struct
from . import biff as W
from . import sheetmodel as M
from .biff import rec, P

OPT = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values', 'automatic_grid_line_colour',
       'columns_from_right_to_left', 'show_outline_symbols', 'remove_splits_if_pane_freeze_is_removed', 'sheet_selected',
       'sheet_visible', 'show_in_page_break_preview']
DEF = dict(zip(OPT, [0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0]))
BVS = [80, 80, 70, 50, 45, 40, 30, 21]


def rb(rng, n):
    return [rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(n)]


def w16(rng):
    return rng.choice([0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF, rng.randrange(65536)])


KINDS = {
    'window2': None, 'pane': None, 'scl': lambda bv: bv >= 40, 'drh': lambda bv: bv >= 30, 'defcol': None,
    'stdw': lambda bv: bv >= 40, 'gcw': lambda bv: bv >= 40, 'dim': None, 'row': None, 'col': None, 'hbr': lambda bv: bv >= 30,
    'vbr': lambda bv: bv >= 30, 'merge': lambda bv: bv >= 80, 'labr': lambda bv: bv >= 80, 'junk': None, 'chart': lambda bv: bv >= 50,
    'coldef': lambda bv: bv == 21, 'cell': None}


def gen_rec(rng, bv, k):
    if k == 'window2':
        if bv >= 80:
            m = [rng.choice([0, 9, 10, 60, 100, 400, 401, 65535]) for _ in range(2)]
            return [k, rng.randrange(65536), w16(rng), w16(rng), w16(rng), m[0], m[1]]
        if bv >= 30:
            return [k, rng.randrange(65536), w16(rng), w16(rng), rb(rng, 3)]
        return [k, rb(rng, 5), w16(rng), w16(rng), rng.randrange(2), rb(rng, 3)]
    if k == 'pane':
        return [k] + [w16(rng) for _ in range(4)] + [rng.randrange(4)]
    if k == 'scl':
        return [k] + rng.choice([[4, 1], [401, 100], [1, 10], [9, 100], [400, 100], [rng.choice([0, 1, 3, 75, 100, w16(rng)]), rng.choice([0, 1, 4, 100, w16(rng)])]])
    if k == 'drh':
        return [k, rng.randrange(16), w16(rng)] if rng.random() < .7 else [k, None, w16(rng)]
    if k in ('defcol', 'stdw'):
        return [k, w16(rng)]
    if k == 'gcw':
        return [k, rb(rng, 32)]
    if k == 'dim':
        return [k, rng.randrange(3000), rng.randrange(257)]
    if k == 'row':
        return [k, rng.choice([0, 1, 5, rng.randrange(70), 16383, 16384, 65535]), w16(rng), rng.getrandbits(32), rng.choice([0, 0x19, rng.getrandbits(32)])]
    if k == 'col':
        a = rng.choice([0, 1, 5, 254, 255, 256, rng.randrange(256)])
        b = rng.choice([a, a + 1, a + 3, 255, 256, 257, a - 1 if a else 0])
        if bv == 21:
            a, b = min(a, 255), min(b, 255)
        return [k, a, b, w16(rng), w16(rng), w16(rng)]
    if k in ('hbr', 'vbr'):
        return [k, [[w16(rng), w16(rng), w16(rng)] for _ in range(rng.choice([0, 1, 2, 5, 30]))]]
    if k == 'merge':
        return [k, [[rng.randrange(30), rng.randrange(30), rng.randrange(20), rng.randrange(20)] for _ in range(rng.randrange(4))]]
    if k == 'labr':
        return [k] + [[[rng.randrange(30), rng.randrange(30), rng.randrange(20), rng.randrange(20)] for _ in range(rng.randrange(4))] for _ in (0, 1)]
    if k == 'junk':
        return [k, rng.choice([0x1A8, 0xEF, 0x0C, 0x0D, 0x11, 0x2A, 0x83, 0x14D, 0x1234]), rb(rng, rng.randrange(20))]
    if k == 'chart':
        return [k, [[rng.choice([0x1001, 0x203, 0x27E, 0x208]), rb(rng, rng.randrange(20))] for _ in range(rng.randrange(5))]]
    if k == 'coldef':
        a = rng.randrange(250)
        return [k, a, min(256, a + 1 + rng.randrange(5)), [rng.randrange(16) for _ in range(6)]]
    if k == 'cell':
        return [k, rng.randrange(5), rng.randrange(5)]


def ranges(rs):
    out = []
    for a, b, c, d in rs:
        out.append([min(a, b), max(a, b) + 1, min(c, d), max(c, d) + 1])
    return out


def prg(rs):
    return P('<H', len(rs)) + b''.join(P('<HHHH', a, b - 1, c, d - 1) for a, b, c, d in rs)


def emit(bv, r):
    k = r[0]
    if k == 'window2':
        if bv >= 80:
            return rec(0x23E, P('<HHHHHHHI', r[1], r[2], r[3], r[4], 0, r[5], r[6], 0))
        if bv >= 30:
            return rec(0x23E, P('<HHH', r[1], r[2], r[3]) + bytes(r[4]) + b'\0')
        return rec(0x3E, bytes(r[1]) + P('<HHB', r[2], r[3], r[4]) + bytes(r[5]) + b'\0')
    if k == 'pane':
        return rec(0x41, P('<HHHHB', *r[1:]) + b'\0')
    if k == 'scl':
        return rec(0xA0, P('<HH', r[1], r[2]))
    if k == 'drh':
        return rec(0x225, P('<HH', r[1], r[2]) if r[1] is not None else P('<H', r[2]))
    if k == 'defcol':
        return rec(0x55, P('<H', r[1]))
    if k == 'stdw':
        return rec(0x99, P('<H', r[1]))
    if k == 'gcw':
        return rec(0xAB, P('<H', 32) + bytes(r[1]))
    if k == 'dim':
        return W.dimension(bv, r[1], r[2])
    if k == 'row':
        if bv == 21:
            x = r[4] % 26
            body = P('<HHHHHB', r[1], 0, 256, r[2], 0, r[3] & 1) + P('<H', 0)
            if r[3] & 1:
                body += bytes([x & 0x3F, 0, 0]) + (P('<H', x) if r[3] & 2 else b'')
            return rec(8, body)
        return rec(0x208, P('<HHHHHHI', r[1], 0, 256, r[2], 0, 0, r[3]))
    if k == 'col':
        if bv == 21:
            return rec(0x24, P('<BBH', r[1], r[2], r[3]))
        return rec(0x7D, P('<HHHHHH', r[1], r[2], r[3], r[4], r[5], 0))
    if k in ('hbr', 'vbr'):
        code = 0x1B if k == 'hbr' else 0x1A
        return rec(code, P('<H', len(r[1])) + b''.join(P('<HHH', *x) if bv >= 80 else P('<H', x[0]) for x in r[1]))
    if k == 'merge':
        return rec(0xE5, prg(ranges(r[1])))
    if k == 'labr':
        return rec(0x15F, prg(ranges(r[1])) + prg(ranges(r[2])))
    if k == 'junk':
        return rec(r[1], bytes(r[2]))
    if k == 'chart':
        return W.bof(bv, 0x20) + b''.join(rec(a, bytes(b)) for a, b in r[1]) + W.EOF
    if k == 'coldef':
        n = r[2] - r[1]
        return rec(0x20, P('<HH', r[1], r[2]) + b''.join(bytes([x & 0x3F, 0, 0]) for x in r[3][:n]) + P('<H', 0))
    if k == 'cell':
        return M.emit(bv, ['num', r[1], r[2], 15, 0], [])


def expect(case):
    bv, fmt = case['bv'], case['fmt']
    e = dict(DEF)
    e.update(first_visible_rowx=0, first_visible_colx=0, gridline_colour_index=0x40, gridline_colour_rgb=None,
             cached_page_break_preview_mag_factor=0, cached_normal_view_mag_factor=0, scl_mag_factor=None, vert_split_pos=0,
             horz_split_pos=0, horz_split_first_visible=0, vert_split_first_visible=0, split_active_pane=0, has_pane_record=0,
             defcolwidth=None, standardwidth=None, gcw=(0,) * 256, default_row_height=None, default_row_height_mismatch=0,
             default_row_hidden=0, default_additional_space_above=0, default_additional_space_below=0,
             horizontal_page_breaks=[], vertical_page_breaks=[], merged_cells=[], row_label_ranges=[], col_label_ranges=[])
    rows, cols = {}, {}
    maxr = 65536 if bv >= 80 else 16384
    for r in case['recs']:
        k = r[0]
        if k == 'window2':
            if bv >= 80:
                for i, a in enumerate(OPT):
                    e[a] = r[1] >> i & 1
                e['first_visible_rowx'], e['first_visible_colx'], e['gridline_colour_index'] = r[2], r[3], r[4]
                e['cached_page_break_preview_mag_factor'], e['cached_normal_view_mag_factor'] = r[5], r[6]
            elif bv >= 30:
                for i, a in enumerate(OPT):
                    e[a] = r[1] >> i & 1
                e['first_visible_rowx'], e['first_visible_colx'] = r[2], r[3]
                e['gridline_colour_rgb'] = tuple(r[4])
                e.pop('gridline_colour_index', None)
            else:
                for i, a in enumerate(OPT[:5]):
                    e[a] = 1 if r[1][i] else 0
                e['first_visible_rowx'], e['first_visible_colx'], e['automatic_grid_line_colour'] = r[2], r[3], r[4]
                e['gridline_colour_rgb'] = tuple(r[5])
                e.pop('gridline_colour_index', None)
        elif k == 'pane':
            (e['vert_split_pos'], e['horz_split_pos'], e['horz_split_first_visible'], e['vert_split_first_visible'],
             e['split_active_pane']) = r[1:]
            e['has_pane_record'] = 1
        elif k == 'scl':
            q = r[1] * 100 // r[2] if r[2] else 0
            e['scl_mag_factor'] = q if 10 <= q <= 400 else 100
        elif k == 'drh':
            b = r[1] or 0
            e['default_row_height'] = r[2]
            for i, a in enumerate(['default_row_height_mismatch', 'default_row_hidden', 'default_additional_space_above',
                                   'default_additional_space_below']):
                e[a] = b >> i & 1
        elif k == 'defcol':
            e['defcolwidth'] = r[1]
        elif k == 'stdw':
            e['standardwidth'] = r[1]
        elif k == 'gcw' and fmt:
            e['gcw'] = tuple(r[1][j // 8] >> (j % 8) & 1 for j in range(256))
        elif k == 'row' and fmt and r[1] < maxr:
            if bv == 21:
                x = r[4] % 26 if r[3] & 1 else -1
                rows[r[1]] = dict(height=r[2] & 0x7FFF, has_default_height=r[2] >> 15, has_default_xf_index=r[3] & 1, xf_index=x)
            else:
                b = r[3]
                rows[r[1]] = dict(height=r[2] & 0x7FFF, has_default_height=r[2] >> 15, outline_level=b & 7,
                                  outline_group_starts_ends=b >> 4 & 1, hidden=b >> 5 & 1, height_mismatch=b >> 6 & 1,
                                  has_default_xf_index=b >> 7 & 1, xf_index=(b >> 16 & 0xFFF) if b & 0x80 else -1,
                                  additional_space_above=b >> 28 & 1, additional_space_below=b >> 29 & 1)
        elif k == 'col' and fmt:
            if bv == 21:
                for c in range(r[1], r[2] + 1):
                    cols.setdefault(c, {})['width'] = r[3]
            elif r[1] <= r[2] <= 256:
                for c in range(r[1], min(r[2], 255) + 1):
                    f = r[5]
                    cols[c] = dict(width=r[3], xf_index=r[4], hidden=f & 1, bit1_flag=f >> 1 & 1, outline_level=f >> 8 & 7,
                                   collapsed=f >> 12 & 1)
        elif k == 'coldef' and fmt:
            for c in range(r[1], r[2]):
                cols.setdefault(c, {})['xf_index'] = r[3][c - r[1]]
        elif k == 'hbr' and fmt:
            e['horizontal_page_breaks'] = e['horizontal_page_breaks'] + [tuple(x) if bv >= 80 else (x[0], 0, 255) for x in r[1]]
        elif k == 'vbr' and fmt:
            e['vertical_page_breaks'] = e['vertical_page_breaks'] + [tuple(x) if bv >= 80 else (x[0], 0, 65535) for x in r[1]]
        elif k == 'merge' and fmt:
            e['merged_cells'] = e['merged_cells'] + [tuple(x) for x in ranges(r[1])]
        elif k == 'labr':
            e['row_label_ranges'] = e['row_label_ranges'] + [tuple(x) for x in ranges(r[1])]
            e['col_label_ranges'] = e['col_label_ranges'] + [tuple(x) for x in ranges(r[2])]
    scl = 100 if e['scl_mag_factor'] is None else e['scl_mag_factor']
    cn, cp = e['cached_normal_view_mag_factor'], e['cached_page_break_preview_mag_factor']
    if e['show_in_page_break_preview']:
        e['cooked_page_break_preview_mag_factor'] = scl
        e['cooked_normal_view_mag_factor'] = cn if 10 <= cn <= 400 else scl
    else:
        e['cooked_normal_view_mag_factor'] = scl
        e['cooked_page_break_preview_mag_factor'] = 60 if cp == 0 else cp if 10 <= cp <= 400 else scl
    return e, rows, cols


def build(case):
    bv = case['bv']
    body = [W.dimension(bv, 0, 0)] + [emit(bv, r) for r in case['recs']]
    g = M.globs(bv)
    if bv >= 50:
        return W.WB(bv, pre=g, codepage=1252 if bv < 80 else None).sheet('S', recs=body).bytes()
    if bv == 45:
        return W.WB(45, codepage=1252).sheet('S', recs=g + body).bytes()
    return W.WB(bv).sheet('S', recs=[rec(0x42, P('<H', 1252))] + g + body).bytes()


class C31(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            bv = rng.choice(BVS)
            ks = [k for k, f in KINDS.items() if f is None or f(bv)]
            recs = [gen_rec(rng, bv, rng.choice(ks)) for _ in range(rng.choice([1, 1, 2, 4, 10]))]
            for r in [r for r in recs if r[0] == 'row'][:2]:         # a nearly identical row elsewhere
                if rng.random() < .7:
                    t, k, w = list(r), rng.randrange(16), rng.randrange(4)
                    t[1] = rng.randrange(70)
                    if w != 1:
                        t[2] ^= 1 << k
                    if w:
                        t[3] ^= 1 << (k + (16 if w == 3 else 0) if w > 1 else rng.randrange(32))
                    recs.append(t)
            first = next((i for i, r in enumerate(recs) if r[0] == 'cell'), len(recs))
            recs = [r for i, r in enumerate(recs) if i < first or r[0] != 'dim']        # DIMENSION precedes the cells
            yield dict(bv=bv, fmt=rng.choice([0, 1, 1]), recs=recs)

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        want, rows, cols = expect(case)
        out = W.outcome(W.open_bytes, build(case), formatting_info=bool(case['fmt']))
        if out[0] != 'ok':
            return 'opening fails: %r' % (out,)
        s = out[1].sheet_by_index(0)
        for k, v in want.items():
            g = getattr(s, k, 'missing')
            if g != v:
                return '%s is %r, the record says %r' % (k, g, v)
        if set(s.rowinfo_map) != set(rows):
            return 'rows with information: %r instead of %r' % (sorted(s.rowinfo_map), sorted(rows))
        for r, d in rows.items():
            for a, v in d.items():
                if getattr(s.rowinfo_map[r], a) != v:
                    return 'row %d: %s is %r instead of %r' % (r, a, getattr(s.rowinfo_map[r], a), v)
        if set(s.colinfo_map) != set(cols):
            return 'columns with information: %r instead of %r' % (sorted(s.colinfo_map), sorted(cols))
        for c, d in cols.items():
            for a, v in d.items():
                if getattr(s.colinfo_map[c], a) != v:
                    return 'column %d: %s is %r instead of %r' % (c, a, getattr(s.colinfo_map[c], a), v)
