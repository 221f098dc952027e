From e7683d4b67d476dc7a67be783838a24d48700a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 01/18] fix: SST strings whose surrogate pair is split by a
 CONTINUE record can be read

---
 xlrd/book.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..2387e1a 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1400,6 +1400,7 @@ def unpack_SST_table(datatab, nstrings):
     local_min = min
     local_BYTES_ORD = BYTES_ORD
     latin_1 = "latin_1"
+    utf_16_le = "utf_16_le"
     for _unused_i in xrange(nstrings):
         nchars = local_unpack('<H', data[pos:pos+2])[0]
         pos += 2
@@ -1413,31 +1414,21 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        # UTF-16-LE code units; a surrogate pair may be split by a record boundary,
+        # so the text is not decoded until all of them have been collected.
+        rawutf16 = b''
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
             if options & 0x01:
                 # Uncompressed UTF-16
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
-                rawstrg = data[pos:pos+2*charsavail]
-                # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                rawutf16 += data[pos:pos+2*charsavail]
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
-                rawstrg = data[pos:pos+charsavail]
-                # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                rawutf16 += unicode(data[pos:pos+charsavail], latin_1).encode(utf_16_le)
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1447,6 +1438,11 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        # UnicodeDecodeError here: dodgy data e.g. unfinished surrogate pair.
+        # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+        # unichr(i) for i in range(0x100000)
+        # so this will include 0xD800 etc
+        accstrg = unicode(rawutf16, utf_16_le)
 
         if rtcount:
             runs = []
-- 
2.43.0


From f07706d1b0a8314f50ebfb8a3d99f5b8c6f265f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:58 +0000
Subject: [PATCH 02/18] fix: SST phonetic data extending over several CONTINUE
 records is skipped completely

---
 xlrd/book.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 2387e1a..712dc4e 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1457,8 +1457,9 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
-            # adjust to correct position in next record
+        while pos >= datalen:
+            # adjust to correct position in next record (phonetic stuff may
+            # extend over more than one of them)
             pos = pos - datalen
             datainx += 1
             if datainx < ndatas:
@@ -1466,5 +1467,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From e3327340ea660217ad615794a13e5b632f3bbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 03/18] fix: formula results with characters outside the BMP
 are counted in UTF-16 code units

---
 xlrd/sheet.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..9bcaf02 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1517,15 +1517,26 @@ class Sheet(BaseObject):
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
         result = UNICODE_LITERAL("")
+        rawutf16 = b''
         while 1:
             if bv >= 80:
+                # The lengths count UTF-16 code units, and a surrogate pair may be
+                # split by a record boundary: decode when all have been collected.
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+                chunk = data[offset:]
+                if not flag:
+                    chunk = unicode(chunk, enc).encode("utf_16_le")
+                rawutf16 += chunk
+                nchars_found += len(chunk) // 2
+            else:
+                chunk = unicode(data[offset:], enc)
+                result += chunk
+                nchars_found += len(chunk)
             if nchars_found == nchars_expected:
+                if bv >= 80:
+                    result = unicode(rawutf16, "utf_16_le")
                 return result
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
-- 
2.43.0


From 59807888e110fdada138cf15fd9ce3f3f8794f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 04/18] fix: display options of a BIFF2 WINDOW2 record are read
 as bytes, not always as set

---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 9bcaf02..9450851 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1487,8 +1487,8 @@ class Sheet(BaseObject):
                 elif rc == XL_WINDOW2_B2: # BIFF 2 only
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
-                    for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                    for attr, flag in zip(attr_names, bytearray(data[0:5])):
+                        setattr(self, attr, int(flag != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 519b5722a0c13a0b8fa42f45da312665f72a52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 05/18] fix: numeric cells whose number format is unknown are
 numbers, not text

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..74fad72 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -1036,7 +1036,7 @@ def xf_epilogue(self):
             fmt = self.format_map[xf.format_key]
             cellty = _cellty_from_fmtty[fmt.type]
         except KeyError:
-            cellty = XL_CELL_TEXT
+            cellty = XL_CELL_NUMBER
         self._xf_index_to_xl_type_map[xf.xf_index] = cellty
         # Now for some assertions etc
         if not self.formatting_info:
-- 
2.43.0


From 2f978ee5b8f616d6105d9062e138c7ef98c8ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:33 +0000
Subject: [PATCH 06/18] fix: PALETTE record with more colours than the default
 palette raised KeyError

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index 74fad72..7250b49 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -602,7 +602,7 @@ def handle_palette(book, data):
         red   =  c        & 0xff
         green = (c >>  8) & 0xff
         blue  = (c >> 16) & 0xff
-        old_rgb = book.colour_map[8+i]
+        old_rgb = book.colour_map.get(8+i)
         new_rgb = (red, green, blue)
         book.palette_record.append(new_rgb)
         book.colour_map[8+i] = new_rgb
-- 
2.43.0


From 55a23b59b28bed80ed6bd5423230226d422346d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 07/18] fix: a cyclic chain of short sectors in a compound
 document is reported, not followed forever

---
 xlrd/compdoc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..1826c1b 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -306,6 +306,9 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if len(sectors) >= len(sat):
+                    # More sectors than there are: the chain comes back to one of them.
+                    raise CompDocError("%s corruption: sector chain is cyclic" % name)
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
-- 
2.43.0


From f26bb2c76c149b5fb7e770d31c6fecc77e3a9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 08/18] fix: streams whose directory entry number is 250 or
 more can be read

---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 1826c1b..aff02cc 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('L', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 6e5db39e5fe8541d688f5bccec18fc56d1466d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:06 +0000
Subject: [PATCH 09/18] fix: Name.cell()/area2d() raise XLRDError for a
 reference result without a value

A name whose formula evaluates to a reference with no known value has
result.value None; len(None) raised TypeError instead of the documented
XLRDError.
---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 712dc4e..7109ccd 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -209,7 +209,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value is not None and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -246,7 +246,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value is not None and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From 12f4dd20d8eb57f199f863ab78d23bce3ea3d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 10/18] fix: a function called without arguments took the whole
 operand stack

A tFuncVar token with no arguments, such as ROW() in =1+ROW(), used
stack[-0:] and so consumed every operand below it; the operator that
needed them then failed with AssertionError when the book was opened.
---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..c7d9cea 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1085,7 +1085,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argtext = listsep.join(arg.text for arg in stack[len(stack)-nargs:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1118,7 +1118,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1656,10 +1656,10 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                argtext = listsep.join(arg.text for arg in stack[len(stack)-nargs:])
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 4c74defe4570f6dd3781ff98a3d745ea32e57442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:22 +0000
Subject: [PATCH 11/18] fix: CHOOSE() with an unknown index raised TypeError

The index operand of CHOOSE can be a number whose value is not known
(for example SUM(A1:A3)); comparing its value None failed.
---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index c7d9cea..940962c 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1111,7 +1111,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From 0d6ba607cb525d48fbd8aa336aa797dcf521913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:37 +0000
Subject: [PATCH 12/18] fix: constant operations without a value made a defined
 name fatal

1/0, "abc"+1, "abc"<1, -"abc", (-8)^0.5 in the formula of a defined name
raised ZeroDivisionError, ValueError or TypeError from open_workbook (or
gave a complex number). The value of such an operand is now unknown (None).
---
 xlrd/formula.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 940962c..d3318b7 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -11,6 +11,7 @@ Module for parsing/evaluating Microsoft Excel formulas.
 from __future__ import print_function
 
 import copy
+import math
 import operator as opr
 from struct import unpack
 
@@ -700,7 +701,7 @@ tLT, tLE, tEQ, tGE, tGT, tNE = range(0x09, 0x0F)
 def nop(x):
     return x
 
-def _opr_pow(x, y): return x ** y
+def _opr_pow(x, y): return math.pow(x, y)
 
 def _opr_lt(x, y): return x <  y
 def _opr_le(x, y): return x <= y
@@ -719,6 +720,7 @@ def num2strg(num):
     return s
 
 _arith_argdict = {oNUM: nop,     oSTRG: float}
+_unop_argdict =  {oNUM: nop,     oSTRG: float, oBOOL: nop}
 _cmp_argdict =   {oNUM: nop,     oSTRG: nop}
 # Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
@@ -796,9 +798,14 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+            result = func(aval, bval)
+        except (ArithmeticError, TypeError, ValueError):
+            # e.g. 1/0, "abc"+1, "abc"<1
+            stk.append(resop)
+            return
         if result_kind == oBOOL:
             result = 1 if result else 0
         resop.value = result
@@ -817,7 +824,11 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             sym2,
         ])
         if val is not None:
-            val = func(val)
+            try:
+                val = func(_unop_argdict[aop.kind](val))
+            except (KeyError, ValueError):
+                # e.g. an error value, a reference, -"abc"
+                val = None
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From 4bbe31f9534833a9550b01cb6da052c861d728df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 13/18] fix: a name local to a macro sheet was given the name
 of another sheet

Names whose scope is -2 or -3 (a sheet that is not a worksheet, or does not
exist) are not found in _sheet_names: the text of a reference to one named
an unrelated worksheet, or evaluating it raised IndexError.
---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index d3318b7..b94a4d7 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1153,7 +1153,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert len(tgtobj.stack) == 1
                 res = copy.deepcopy(tgtobj.stack[0])
             res.rank = LEAF_RANK
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0:
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
@@ -1332,7 +1332,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     assert len(tgtobj.stack) == 1
                     res = copy.deepcopy(tgtobj.stack[0])
                 res.rank = LEAF_RANK
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0:
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
@@ -1677,7 +1677,7 @@ def decompile_formula(bk, fmla, fmlalen,
             # Only change with BIFF version is number of trailing UNUSED bytes!
             if blah: print("   tgtnamex=%d" % tgtnamex, file=bk.logfile)
             tgtobj = bk.name_obj_list[tgtnamex]
-            if tgtobj.scope == -1:
+            if tgtobj.scope < 0:
                 otext = tgtobj.name
             else:
                 otext = "%s!%s" % (bk._sheet_names[tgtobj.scope], tgtobj.name)
@@ -1860,7 +1860,7 @@ def decompile_formula(bk, fmla, fmlalen,
                         % (tgtnamex, origrefx)
             else:
                 tgtobj = bk.name_obj_list[tgtnamex]
-                if tgtobj.scope == -1:
+                if tgtobj.scope < 0:
                     otext = tgtobj.name
                 else:
                     otext = "%s!%s" \
-- 
2.43.0


From 672dfd84d4427ebcffc9ad0ac5a0b35c7fe79155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:10 +0000
Subject: [PATCH 14/18] fix: the arguments of an unknown function stayed on the
 operand stack

A call of a function that is not in func_defs, such as a user-defined
one, left its arguments as operands; the name then had no result, and
evaluating another name that refers to it raised AssertionError.
---
 xlrd/formula.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index b94a4d7..d38bc0c 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1087,6 +1087,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             if not func_attrs:
                 print("*** formula/tFuncVar unknown FuncID:%d"
                       % funcx, file=bk.logfile)
+                assert len(stack) >= nargs
+                del stack[len(stack)-nargs:]
                 spush(unk_opnd)
             else:
                 func_name, minargs, maxargs = func_attrs[:3]
@@ -1658,6 +1660,8 @@ def decompile_formula(bk, fmla, fmlalen,
             if not func_attrs:
                 print("*** formula/tFuncVar unknown FuncID:%d"
                       % funcx, file=bk.logfile)
+                assert len(stack) >= nargs
+                del stack[len(stack)-nargs:]
                 spush(unk_opnd)
             else:
                 func_name, minargs, maxargs = func_attrs[:3]
-- 
2.43.0


From 2eb0dab015471da70682743a6e2cd3b9664f6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 15/18] fix: an array constant in a formula is 8 bytes long
 from BIFF3 on, not 9

The token after it was skipped or misread, e.g. SUM({1,2}) in a defined name.
---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index d38bc0c..59cc46e 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -99,10 +99,10 @@ listsep = ',' #### probably should depend on locale
 # -2 means this opcode not implemented in this version.
 # Which N to use? Depends on biff_version; see szdict.
 sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From 04b9d818f873fad6f7b1b8d32a1d3d7ff71f7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:51 +0000
Subject: [PATCH 16/18] fix: hyperlinks to URLs with characters outside the BMP
 raised AssertionError

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 9450851..c96b0aa 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1793,8 +1793,9 @@ class Sheet(BaseObject):
                 if DEBUG: fprintf(self.logfile, "initial url=%r len=%d\n", h.url_or_path, len(h.url_or_path))
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
+                # in bytes: a character outside the BMP takes up 4 of them
+                true_nbytes = len(h.url_or_path[:endpos + 1].encode('UTF-16le'))
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From 9ef133c174682baf31cb9f39b08d0ae211aab182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:12 +0000
Subject: [PATCH 17/18] fix: note text whose surrogate pair is split by a
 CONTINUE record can be read

---
 xlrd/sheet.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index c96b0aa..b64ae7f 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2039,21 +2039,23 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        # UTF-16-LE code units; a surrogate pair may be split by a record boundary,
+        # so the text is not decoded until all of them have been collected.
+        rawutf16 = b''
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
             if OBJ_MSO_DEBUG:
                 hex_char_dump(data2, 0, data2_len, base=0, fout=self.logfile)
             nb = BYTES_ORD(data2[0]) # 0 means latin1, 1 means utf_16_le
-            nchars = data2_len - 1
+            chunk = data2[1:]
             if nb:
-                assert nchars % 2 == 0
-                nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
-            totchars += nchars
+                assert len(chunk) % 2 == 0
+            else:
+                chunk = unicode(chunk, 'latin_1').encode('utf_16_le')
+            rawutf16 += chunk
+            totchars += len(chunk) // 2
+        o.text = unicode(rawutf16, 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 92784d5e9073674f1ee3091211abf9b612f92025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:22 +0000
Subject: [PATCH 18/18] fix: a TXO record that no OBJ record precedes raised
 UnboundLocalError

---
 xlrd/sheet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index b64ae7f..0344e4c 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -807,6 +807,7 @@ class Sheet(BaseObject):
         do_sst_rich_text = fmt_info and bk._rich_text_runlist_map
         rowinfo_sharing_dict = {}
         txos = {}
+        saved_obj_id = None
         eof_found = 0
         while 1:
             # if DEBUG: print "SHEET.READ: about to read from position %d" % bk._position
-- 
2.43.0

