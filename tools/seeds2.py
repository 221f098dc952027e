"""planted changes, second batch (one or two per property not covered by seeds1.py)"""
BUGS = []


def bug(id, property, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))


NAMES = '''
from biff import *
P = struct.pack
def name(nm, fm, flags=0, scope=0):
    return rec(0x18, P('<HBBHHHBBBB', flags, 0, len(nm), len(fm), 0, scope, 0, 0, 0, 0) + b'\\x00' + nm.encode('latin-1') + fm)
def own(n): return rec(0x1AE, P('<H', n) + b'\\x01\\x04')
def refs(*x): return rec(0x17, P('<H', len(x)) + b''.join(P('<HHH', *r) for r in x))
def num(r, c, v): return rec(0x203, P('<HHHd', r, c, 0, v))
def book(links, names, nsheets=2, cells=()):
    w = WB(80, pre=std_globals(80), post=links + names)
    for i in range(nsheets):
        w.sheet('S%d' % i, recs=[dimension(80)] + list(cells))
    return open_bytes(w.bytes())
'''

bug('c01-year-9999', 'C01', 'xlrd/xldate.py', [("(1900 <= year <= 9999)", "(1900 <= year < 9999)")], """
from xlrd.xldate import xldate_from_date_tuple
assert xldate_from_date_tuple((9999, 12, 31), 0) == 2958465
""", 'a date in the year 9999', 'the last year of the calendar is refused')

bug('c03-epoch-60', 'C03', 'xlrd/xldate.py', [("        if xldate < 60:", "        if xldate < 61:")], """
from xlrd.xldate import xldate_as_datetime
import datetime
assert xldate_as_datetime(60.5, 0) == datetime.datetime(1900, 2, 28, 12), xldate_as_datetime(60.5, 0)
""", 'a serial between 60 and 61 in the 1900 system', 'the phantom day is converted with the other epoch')

bug('c04-percent', 'C04', 'xlrd/sheet.py', [("            return d / 100.0\n        return d", "            return d * 0.01\n        return d")], """
from xlrd.sheet import unpack_RK
import struct
for n in range(1, 2000):
    bits = struct.unpack('<Q', struct.pack('<d', float(n)))[0] >> 34
    assert unpack_RK(struct.pack('<I', (bits << 2 | 1) & 0xFFFFFFFF)) == n / 100.0, n
""", 'an RK double with the percent flag whose quotient is not the product with 0.01', 'the value is off by one unit in the last place')

bug('c06-options-sticky', 'C06', 'xlrd/book.py', [("            options = local_BYTES_ORD(data[0])\n            pos = 1\n", "            options |= local_BYTES_ORD(data[0])\n            pos = 1\n")], """
from biff import *
P = struct.pack
a = rec(0xFC, P('<II', 1, 1) + P('<HB', 6, 1) + 'ab\\u0416'.encode('utf_16_le'))
b = rec(0x3C, b'\\x00def')
wb = WB(80, post=[a, b]).sheet(recs=[dimension(80), rec(0xFD, P('<HHHI', 0, 0, 0, 0))])
v = open_bytes(wb.bytes()).sheet_by_index(0).cell_value(0, 0)
assert v == 'ab\\u0416def', v
""", 'a shared string that changes from wide to narrow at a record boundary', 'the narrow part is read as wide characters')

bug('c11-cutoff', 'C11', 'xlrd/compdoc.py', [("        if d.tot_size >= self.min_size_std_stream:\n            result", "        if d.tot_size > self.min_size_std_stream:\n            result")], """
import struct
from biff import NULL
from xlrd.compdoc import CompDoc, SIGNATURE
P = struct.pack
data = bytes((i * 7 + i // 256) & 255 for i in range(4096))
def dent(nm, typ, root, first, size, left=-1, right=-1):
    u = nm.encode('utf_16_le')
    return (u + bytes(64 - len(u)) + P('<HBBiii', len(u) + 2, typ, 1, left, right, root) + bytes(36) + P('<iii', first, size, 0))
d = dent('Root Entry', 5, 1, 9, 64) + dent('A', 2, -1, 1, 4096) + bytes(256)
sat = [-3] + [2, 3, 4, 5, 6, 7, 8, -2] + [-2, -2, -2] + [-1] * 116          # 0 SAT, 1-8 stream, 9 short streams, 10 directory, 11 SSAT
ssat = [-2] + [-1] * 127
head = SIGNATURE + bytes(16) + P('<HHHHH', 0x3E, 3, 0xFFFE, 9, 6) + bytes(10) + P('<iiiiiiii', 1, 10, 0, 4096, 11, 1, -2, 0) + P('<i', 0) + P('<i', -1) * 108
mem = head + P('<128i', *sat) + data + bytes(512) + d + P('<128i', *ssat)
c = CompDoc(mem, logfile=NULL)
try:
    m, base, n = c.locate_named_stream('A')
except Exception as e:
    raise SystemExit('not extracted: %r' % e)
assert m is not None and bytes(m[base:base + n]) == data, (base, n)
""", 'a stream of exactly the minimum size of a standard stream', 'it is looked for among the short streams')

bug('c14-beyond-iv', 'C14', 'xlrd/formula.py', [("        xdiv26, xmod26 = divmod(colx, 26)", "        xdiv26, xmod26 = divmod(min(colx, 255), 26)")], """
from xlrd.formula import colname
assert colname(256) == 'IW' and colname(300) == 'KO', (colname(256), colname(300))
""", 'a column number above 255', 'different columns have the same name')

bug('c16-addin-anywhere', 'C16', 'xlrd/book.py', [("            if self._supbook_types[-1] == SUPBOOK_ADDIN:", "            if SUPBOOK_ADDIN in self._supbook_types:")], NAMES + """
links = [rec(0x1AE, b'\\x01\\x00\\x01\\x3A'), rec(0x23, P('<HI', 0, 0) + ustr('F1', 1) + P('<H', 2) + b'\\x1c\\x17'),
         rec(0x1AE, P('<H', 1) + ustr('\\x01b.xls', 2) + ustr('T', 2)), rec(0x23, P('<HI', 0, 0) + ustr('N1', 1)), own(2), refs((2, 0, 0))]
b = book(links, [])
assert b.addin_func_names == ['F1'], b.addin_func_names
""", 'an external name of an external book that follows an add-in book', 'the name is listed as an add-in function')

bug('c16-split-externsheet', 'C16', 'xlrd/book.py', [("            bytes_reqd = num_refs * 6 + 2\n", "            bytes_reqd = num_refs * 6\n")], NAMES + """
d = P('<H', 2) + P('<HHH', 0, 0, 0) + P('<HHH', 0, 1, 1)
b = book([own(2), rec(0x17, d[:12]), rec(0x3C, d[12:])], [name('A', b'\\x3a' + P('<HHH', 1, 0, 0))])
assert b.name_map['a'][0].result.value[0].coords[:2] == (1, 2), b.name_map['a'][0].result
""", 'an EXTERNSHEET record whose last two bytes are in a CONTINUE record', 'the last reference is read from incomplete data')

bug('c17-concat-rank', 'C17', 'xlrd/formula.py', [("    tConcat:(_strg_argdict, oSTRG, opr.add,  20, '&'),", "    tConcat:(_strg_argdict, oSTRG, opr.add,  30, '&'),")], NAMES + """
# ("a" & "b") needs parentheses inside a sum: 1 + ("a" & "b")
s = lambda x: b'\\x17' + bytes([len(x), 0]) + x
b = book([own(2), refs((0, 0, 0))], [name('A', s(b'1') + s(b'2') + b'\\x08' + b'\\x1e\\x03\\x00' + b'\\x05')])
r = b.name_map['a'][0].result
assert r.text == '("1"&"2")*3.0' and r.value == 36.0, (r.text, r.value)
b = book([own(2), refs((0, 0, 0))], [name('A', s(b'1') + b'\\x1e\\x02\\x00\\x1e\\x03\\x00\\x03' + b'\\x08')])
r = b.name_map['a'][0].result
assert r.text == '"1"&2.0+3.0', r.text
b = book([own(2), refs((0, 0, 0))], [name('A', s(b'1') + s(b'2') + b'\\x08' + b'\\x1e\\x03\\x00' + b'\\x03')])
r = b.name_map['a'][0].result
assert r.text == '("1"&"2")+3.0', r.text
""", 'a concatenation as operand of an operator that binds tighter', 'the text of the formula lacks its parentheses')

bug('c18-repeat-char', 'C18', 'xlrd/formatting.py', [('elif c in UNICODE_LITERAL(r"\\_*"):', 'elif c in UNICODE_LITERAL(r"\\_"):')], """
from biff import *
b = WB(80, pre=std_globals(80, fmts=[(180, '0.00*d')], xfs=[180]))
b.sheet(recs=[dimension(80), rec(0x203, struct.pack('<HHHd', 0, 0, 15, 40000.0))])
from xlrd.formatting import is_date_format_string
import xlrd.book
k = xlrd.book.Book(); k.logfile = NULL; k.verbosity = 0
assert is_date_format_string(k, '*d0') is False, 'a fill character is not a date character'
assert is_date_format_string(k, '*yd') is True
assert is_date_format_string(k, '0*d*d*d') is False
""", 'a number format with a fill character that is a date letter', 'numbers are taken for dates')

bug('c19-green-bits', 'C19', 'xlrd/formatting.py', [("        green = (c >>  8) & 0xff", "        green = (c >>  8) & 0x7f")], """
from biff import *
P = struct.pack
wb = WB(80, pre=std_globals(80), post=[rec(0x92, P('<H', 56) + b''.join(P('<I', 0x00FEDCBA) for _ in range(56)))])
wb.sheet(recs=[dimension(80)])
b = open_bytes(wb.bytes(), formatting_info=True)
assert b.colour_map[8] == (0xBA, 0xDC, 0xFE), b.colour_map[8]
""", 'a palette colour whose green part is above 127', 'the colour is wrong')

bug('c20-diagonal-style', 'C20', 'xlrd/formatting.py', [("            (21, 0x01E00000, 'diag_line_style'),", "            (21, 0x00E00000, 'diag_line_style'),")], """
from biff import *
wb = WB(80, pre=[font(80)] * 4 + [xfrec(80, parent=0xFFF, style=1)] * 15 + [xfrec(80, b2=9 << 21)])
wb.sheet(recs=[dimension(80)])
b = open_bytes(wb.bytes(), formatting_info=True)
assert b.xf_list[15].border.diag_line_style == 9, b.xf_list[15].border.diag_line_style
""", 'a diagonal line of style 8 or above', 'the style is reported without its highest bit')

bug('c21-short-signature', 'C21', 'xlrd/__init__.py', [("peek.startswith(XLS_SIGNATURE)", "peek[:4] == XLS_SIGNATURE[:4]")], """
import xlrd
from xlrd import inspect_format
assert inspect_format(content=b'\\xD0\\xCF\\x11\\xE0' + b'somethingelse') is None
""", 'contents that share the first four bytes with a compound document', 'they are recognised as a workbook')

bug('c22-clip-start', 'C22', 'xlrd/book.py', [("                    rowxhi = max(rowxlo, min(ref3d.rowxhi, sh.nrows))", "                    rowxhi = max(rowxlo, min(ref3d.rowxhi, max(sh.nrows, 1)))")], NAMES + """
b = book([own(2), refs((0, 0, 0))], [name('A', b'\\x3b' + P('<HHHHH', 0, 0, 4, 0, 4))])
sh, a, z, c, d = b.name_map['a'][0].area2d()
assert z <= sh.nrows and (a, z, c, d) == (0, 0, 0, 0), (a, z, c, d)
""", 'a rectangle on a worksheet without any cell', 'the clipped rectangle is larger than the sheet')

bug('c23-unloaded-first', 'C23', 'xlrd/book.py', [("                raise XLRDError('No sheet named <%r>' % sheet_name_or_index)\n        self._sheet_list[sheetx] = None", "                raise XLRDError('No sheet named <%r>' % sheet_name_or_index)\n        if sheetx:\n            self._sheet_list[sheetx] = None")], """
from biff import *
wb = WB(80)
for i in range(2): wb.sheet('S%d' % i, recs=[dimension(80)])
b = open_bytes(wb.bytes(), on_demand=True)
s = b.sheet_by_index(0)
b.unload_sheet(0)
assert not b.sheet_loaded(0)
assert b.sheet_by_index(0) is not s
""", 'unloading the first sheet of a workbook opened on demand', 'the sheet stays loaded')

bug('c24-gcw-standard', 'C24', 'xlrd/sheet.py', [("            if self.gcw[colx]:\n                if self.standardwidth is not None:\n                    return self.standardwidth\n            else:\n", "            if self.gcw[colx]:\n                if self.standardwidth:\n                    return self.standardwidth\n            else:\n")], """
from biff import *
P = struct.pack
wb = WB(70, pre=std_globals(70)).sheet(recs=[dimension(70), rec(0x99, P('<H', 0)), rec(0x55, P('<H', 9)), rec(0xAB, P('<H', 32) + b'\\xff' * 32)])
s = open_bytes(wb.bytes(), formatting_info=True).sheet_by_index(0)
assert s.standardwidth == 0 and s.computed_column_width(3) == 0, s.computed_column_width(3)
""", 'a BIFF4 to 7 sheet whose standard width is 0, in a column that uses it', 'the default width is reported')

bug('c25-last-part', 'C25', 'xlrd/sheet.py', [("                raise XLRDError(\n                    \"Expected CONTINUE record; found record-type 0x%04X\" % rc)\n            offset = 0", "                raise XLRDError(\n                    \"Expected CONTINUE record; found record-type 0x%04X\" % rc)\n            if not data:\n                return result\n            offset = 0")], """
from biff import *
P = struct.pack
recs = [dimension(70), rec(0x06, P('<HHH', 0, 0, 0) + b'\\x00\\x00\\x00\\x00\\x00\\x00\\xff\\xff' + P('<HI', 0, 0) + P('<H', 0)),
        rec(0x207, P('<H', 6) + b'abc'), rec(0x3C, b''), rec(0x3C, b'def')]
wb = WB(70, pre=[rec(0x42, P('<H', 1252))]).sheet(recs=recs)
v = open_bytes(wb.bytes()).sheet_by_index(0).cell_value(0, 0)
assert v == 'abcdef', v
""", 'a text result with an empty CONTINUE record in the middle (BIFF 5 to 7)', 'the text is cut off')

bug('c28-tip-everywhere', 'C28', 'xlrd/sheet.py', [("        h.quicktip = unicode(data[10:-2], 'utf_16_le')", "        h.quicktip = unicode(data[10:-2], 'utf_16_le')\n        for k in self.hyperlink_list:\n            if (k.frowx, k.fcolx) == (frowx, fcolx): k.quicktip = h.quicktip")], """
from biff import *
P = struct.pack
G = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
def link(a, b, c, d, mark):
    t = (mark + '\\0').encode('utf_16_le')
    return rec(0x1B8, P('<HHHH', a, b, c, d) + G + P('<II', 2, 8) + P('<I', len(mark) + 1) + t)
tip = rec(0x800, P('<HHHHH', 0x800, 0, 2, 0, 2) + 'tip\\0'.encode('utf_16_le'))
wb = WB(80).sheet(recs=[dimension(80), link(0, 5, 0, 5, 'one'), link(0, 2, 0, 2, 'two'), tip])
s = open_bytes(wb.bytes()).sheet_by_index(0)
assert [h.quicktip for h in s.hyperlink_list] == [None, 'tip'], [h.quicktip for h in s.hyperlink_list]
""", 'two hyperlinks with the same first cell, the second with a quick tip', 'the first is given the tip of the second')

bug('c30-old-version', 'C30', 'xlrd/biffh.py', [("        if addr_size == 6:\n            fmt = \"<HHBB\"", "        if addr_size == 6 or biff_version < 80:\n            fmt = \"<HHBB\"")], """
import struct
from xlrd.biffh import unpack_cell_range_address_list_update_pos as f
out = []
d = struct.pack('<HHHHH', 1, 0, 3, 0x0102, 0x0203)
try:
    p = f(out, d, 0, 50, 8)
except struct.error as e:
    raise SystemExit('refused: %s' % e)
assert (p, out) == (10, [(0, 4, 0x102, 0x204)]), (p, out)
""", 'a range list with 8-byte entries in a file before BIFF8', 'the entries are not read')

bug('c34-reserved-bits', 'C34', 'xlrd/book.py', [("            ('binary', 0x1000, 12),", "            ('binary', 0x3000, 12),")], NAMES + """
b = book([own(2), refs((0, 0, 0))], [name('A', b'', flags=0x2000)])
assert b.name_obj_list[0].binary == 0, b.name_obj_list[0].binary
""", 'a defined name with a reserved option bit set', 'the name is reported as binary data')

bug('c36-bottom-border', 'C36', 'xlrd/sheet.py', [("(0x40, 'bottom')):", "(0x60, 'bottom')):")], """
from biff import *
P = struct.pack
def num(attr): return rec(3, P('<HH', 0, 0) + attr + P('<d', 1.0))
wb = WB(20).sheet(recs=[rec(0x31, b'\\xc8\\x00\\x00\\x00\\x05Arial')] * 4 + [rec(0, P('<HHHH', 0, 1, 0, 1)), num(b'\\x00\\x00\\x20')])
b = open_bytes(wb.bytes(), formatting_info=True)
x = b.xf_list[b.sheet_by_index(0).cell_xf_index(0, 0)].border
assert (x.top_line_style, x.bottom_line_style) == (1, 0), (x.top_line_style, x.bottom_line_style)
""", 'a BIFF2 cell with a top border and no bottom border', 'it is given a bottom border')

bug('c29-row-hidden', 'C29', 'xlrd/sheet.py', [("        o.row_hidden = (option_flags >> 7) & 1", "        o.row_hidden = int(option_flags & 0x180 == 0x80)")], """
from biff import *
P = struct.pack
obj = rec(0x5D, P('<HHHHH', 0x15, 0x12, 0x19, 7, 0) + bytes(12) + P('<HH', 0, 0))
txo = rec(0x1B6, P('<HHHHHHH', 0x212, 0, 0, 0, 0, 4, 16) + bytes(4)) + rec(0x3C, b'\\x00text') + rec(0x3C, bytes(16))
note = rec(0x1C, P('<HHHH', 2, 3, 0x180, 7) + ustr('me', 2) + b'\\x00')
wb = WB(80).sheet(recs=[dimension(80), obj, txo, note])
n = open_bytes(wb.bytes()).sheet_by_index(0).cell_note_map[2, 3]
assert n.text == 'text' and (n.row_hidden, n.col_hidden) == (1, 1), (n.text, n.row_hidden, n.col_hidden)
""", 'a note whose row and column are both hidden', 'its row is reported as visible')

bug('c37-short-key', 'C37', 'xlrd/book.py', [("        raise XLRDError(\"Workbook is encrypted\")", "        if self.biff_version >= 80 or len(data) <= 4:\n            raise XLRDError(\"Workbook is encrypted\")")], """
from biff import *
import xlrd
wb = WB(70, pre=[rec(0x2F, bytes(6))] + std_globals(70)).sheet(recs=[dimension(70)])
o = outcome(open_bytes, wb.bytes())
assert o[0] == 'exc' and o[1] == 'XLRDError', o
""", 'a FILEPASS record of more than 4 bytes before BIFF8', 'an encrypted workbook is read')
