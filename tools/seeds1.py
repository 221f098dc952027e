BUGS = []


def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug('c02-limit-before-carry', 'C02', 'xlrd/xldate.py', [("""    xldays = int(xldate)
    frac = xldate - xldays
    seconds = int(round(frac * 86400.0))
""", """    xldays = int(xldate)
    if xldays >= _XLDAYS_TOO_LARGE[datemode]:
        raise XLDateTooLarge(xldate)
    frac = xldate - xldays
    seconds = int(round(frac * 86400.0))
"""), ("""        hour, minute = divmod(minutes, 60)
    if xldays >= _XLDAYS_TOO_LARGE[datemode]:
        raise XLDateTooLarge(xldate)
""", """        hour, minute = divmod(minutes, 60)
""")], """
import xlrd.xldate as x
for serial, mode in ((2958465.999999, 0), (2957003.999999, 1)):
    try:
        r = x.xldate_as_tuple(serial, mode)
    except x.XLDateTooLarge:
        continue
    raise SystemExit('no XLDateTooLarge but %r' % (r,))
""", 'a serial within half a second of the end of 9999-12-31', 'the day carried past 9999-12-31 is returned as year 10000')

bug('c05-phonetic-without-runs', 'C05', 'xlrd/biffh.py', [("""    if richtext:
        pos += 4 * rt
    if phonetic:
        pos += sz
    return (strg, pos)
""", """    if richtext:
        pos += 4 * rt
        if phonetic:
            pos += sz
    return (strg, pos)
""")], """
from biff import ustr
from xlrd.biffh import unpack_unicode_update_pos
d = ustr('abc', 2, phon=b'PHONETIC') + b'TAIL'
r = unpack_unicode_update_pos(d, 0, lenlen=2)
assert r == ('abc', len(d) - 4), r
""", 'a string with a phonetic block and no rich-text runs', 'the end position does not skip the phonetic block')

bug('c07-merged-widening', 'C07', 'xlrd/sheet.py', [("""                self.ncols = nc
                self._first_full_rowx = -2
            if nr > self.nrows:""", """                self.ncols = nc
            if nr > self.nrows:""")], """
from biff import *
P = struct.pack
def num(r, c, v): return rec(0x203, P('<HHHd', r, c, 15, v))
wb = WB(80, pre=std_globals(80))
wb.sheet(recs=[dimension(80), num(0, 0, 1.0), num(1, 3, 2.0), num(2, 1, 3.0),
               rec(0xE5, P('<HHHHH', 1, 0, 0, 0, 9))])
b = open_bytes(wb.bytes(), formatting_info=True)
s = b.sheet_by_index(0)
assert s.ncols == 10
assert [len(s.row(r)) for r in range(s.nrows)] == [10, 10, 10], [len(s.row(r)) for r in range(s.nrows)]
""", 'formatting_info, cells that get wider row by row, and a merged range wider than all of them', 'rows below the first full row are not padded to the merged width')

bug('c09-slice-end-zero', 'C09', 'xlrd/sheet.py', [("""        if end_colx is None:
            return self._cell_types[rowx][start_colx:]
""", """        if not end_colx:
            return self._cell_types[rowx][start_colx:]
""")], """
from biff import *
wb = WB(80).sheet(recs=[dimension(80), rec(0x203, struct.pack('<HHHd', 0, 0, 0, 1.0))])
s = open_bytes(wb.bytes()).sheet_by_index(0)
assert list(s.row_types(0, 0, 0)) == list(c.ctype for c in s.row_slice(0, 0, 0)) == [], s.row_types(0, 0, 0)
""", 'an empty slice that ends at column 0', 'row_types returns the whole row instead of nothing')

bug('c10-row-default-zero', 'C10', 'xlrd/sheet.py', [("""            xfx = self.rowinfo_map[rowx].xf_index
            if xfx > -1:""", """            xfx = self.rowinfo_map[rowx].xf_index
            if xfx > 0:""")], """
from biff import *
P = struct.pack
wb = WB(80, pre=std_globals(80, xfs=[0] * 20))
wb.sheet(recs=[dimension(80), rec(0x7D, P('<HHHHHH', 0, 3, 2000, 17, 0, 0)),
               rec(0x208, P('<HHHHHHI', 0, 0, 3, 300, 0, 0, 0x80 | (0 << 16))),
               rec(0x203, P('<HHHd', 0, 2, 15, 1.0))])
s = open_bytes(wb.bytes(), formatting_info=True).sheet_by_index(0)
assert s.cell_xf_index(0, 0) == 0, s.cell_xf_index(0, 0)
""", 'a row whose default format index is 0, and a column default for the same cell', 'the row default 0 is taken for no row default')

bug('c12-conditional-position', 'C12', 'xlrd/book.py', [("""        code, length = unpack('<HH', mem[pos:pos+4])
        if code != reqd_record:
            return (None, 0, b'')
        pos += 4
""", """        code, length = unpack('<HH', mem[pos:pos+4])
        if code != reqd_record:
            if code == XL_CONTINUE:
                self._position = pos + length
            return (None, 0, b'')
        pos += 4
""")], """
from biff import *
import xlrd.book
b = xlrd.book.Book()
b.mem = rec(0x3C, b'abc') + rec(0x0A)
b._position = 0
r = b.get_record_parts_conditional(0x1B6)
assert r[0] is None and b._position == 0, (r, b._position)
""", 'a CONTINUE record where another record type is asked for', 'a record is consumed by a conditional read that does not return it')

bug('c13-build-1993', 'C13', 'xlrd/book.py', [("""                if year < 1994 or build in (2412, 3218, 3321):""",
"""                if year <= 1994 or build in (2412, 3218, 3321):""")], """
from biff import *
P = struct.pack
data = rec(0x809, P('<HHHH', 0x500, 5, 4000, 1994)) + rec(0x85, P('<iBB', 8 + 12 + 15, 0, 0) + b'\\x01A')
wb = WB(70).sheet('A', recs=[dimension(70)]).bytes()
wb = wb.replace(P('<HHHH', 0x500, 5, 4000, 1995), P('<HHHH', 0x500, 5, 4000, 1994))
b = open_bytes(wb)
assert b.biff_version == 70, b.biff_version
""", 'a BIFF5/7 stream whose build year is 1994', 'it is taken for BIFF5.0 instead of 7.0')

bug('c15-relative-column-le7', 'C15', 'xlrd/formula.py', [("""    if reldelta:
        if row_rel and rowx >= 8192:
            rowx -= 16384
        if col_rel and colx >= 128:
            colx -= 256
""", """    if reldelta:
        if row_rel and rowx >= 8192:
            rowx -= 16384
            if col_rel and colx >= 128:
                colx -= 256
""")], """
from xlrd.formula import get_cell_addr
import struct
r = get_cell_addr(struct.pack('<HB', 0x4000 | 5, 0xFF), 0, 50, True)
assert r == (5, -1, 0, 1), r
""", 'BIFF <= 7, relative column to the left with a row offset that is not negative', 'the column offset is not sign-extended')

bug('c26-mulrk-last-column', 'C26', 'xlrd/sheet.py', [("""                mulrk_row, mulrk_first = local_unpack('<HH', data[0:4])
                mulrk_last, = local_unpack('<H', data[-2:])
                pos = 4
                for colx in xrange(mulrk_first, mulrk_last+1):""", """                mulrk_row, mulrk_first = local_unpack('<HH', data[0:4])
                mulrk_last, = local_unpack('<H', data[-2:])
                pos = 4
                for colx in xrange(mulrk_first, min(mulrk_last+1, 255)):""")], """
from biff import *
P = struct.pack
def rk(n): return P('<I', ((n << 2) | 2) & 0xFFFFFFFF)
wb = WB(80).sheet(recs=[dimension(80), rec(0xBD, P('<HH', 0, 253) + P('<H', 0) + rk(1) + P('<H', 0) + rk(2) + P('<H', 0) + rk(3) + P('<H', 255))])
s = open_bytes(wb.bytes()).sheet_by_index(0)
assert s.row_values(0)[-3:] == [1.0, 2.0, 3.0] and s.ncols == 256, s.row_values(0)[-3:]
""", 'a MULRK record that reaches the last column', 'the cell in column 255 is lost')

bug('c31-rowinfo-sharing', 'C31', 'xlrd/sheet.py', [("""                key = (bits1, bits2)
                r = rowinfo_sharing_dict.get(key)""", """                key = (bits1 << 16) ^ bits2
                r = rowinfo_sharing_dict.get(key)""")], """
from biff import *
P = struct.pack
wb = WB(80, pre=std_globals(80, xfs=[0] * 40))
b2a, b2b = 0x80 | (0x011 << 16), 0x80 | (0x010 << 16)
wb.sheet(recs=[dimension(80), rec(0x208, P('<HHHHHHI', 0, 0, 3, 0x1000, 0, 0, b2a)),
               rec(0x208, P('<HHHHHHI', 1, 0, 3, 0x1001, 0, 0, b2b))])
s = open_bytes(wb.bytes(), formatting_info=True).sheet_by_index(0)
r = s.rowinfo_map[1]
assert (r.height, r.xf_index) == (0x1001, 0x10), (r.height, r.xf_index)
""", 'two rows whose heights and flags collide in the combined key', 'the second row gets the height and format of the first')

bug('c33-name-map-number', 'C33', 'xlrd/book.py', [("""            snum = len(self._sheet_names)
            self._all_sheets_map.append(snum)""", """            snum = len(self._sheet_names)
            if snum and abs_posn < self._sh_abs_posn[-1] and abs_posn >= 0:
                # keep the positions ascending
                self._sh_abs_posn[-1], abs_posn = abs_posn, self._sh_abs_posn[-1]
            self._all_sheets_map.append(snum)""")], """
from biff import *
P = struct.pack
def num(v): return rec(0x203, P('<HHHd', 0, 0, 0, v))
sub = [bof(80, 0x10) + dimension(80) + num(float(i)) + EOF for i in range(2)]
head = bof(80, 5)
n = len(head) + 2 * len(rec(0x85, P('<iBB', 0, 0, 0) + ustr('S0', 1))) + len(EOF)
pos = [n + len(sub[1]), n]            # the second sheet is stored first
data = head + b''.join(rec(0x85, P('<iBB', pos[i], 0, 0) + ustr('S%d' % i, 1)) for i in range(2)) + EOF + sub[1] + sub[0]
b2 = open_bytes(data)
assert [b2.sheet_by_index(i).cell_value(0, 0) for i in (0, 1)] == [0.0, 1.0]
""", 'sheets stored in the stream in an order other than that of the sheet list', 'the contents of two sheets are exchanged')

bug('c27-codepage-range', 'C27', 'xlrd/book.py', [("""            elif 300 <= codepage <= 1999:""", """            elif 400 < codepage < 1999:""")], """
import xlrd.book
b = xlrd.book.Book()
from biff import NULL
b.logfile = NULL; b.verbosity = 0; b.encoding_override = None; b.biff_version = 70; b.codepage = 367
try:
    b.derive_encoding()
except LookupError as e:
    assert 'cp367' in str(e), e
assert b.encoding == 'cp367', b.encoding
""", 'a code page between 300 and 400', 'the codec name is not cpNNN but unknown_codepage_NNN')
