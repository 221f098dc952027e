"""Layout tables of the formatting records (pure data, shared by the contracts and their executable form)"""
FUN, FDT, FNU, FGE, FTX = 0, 1, 2, 3, 4

def flags(off, size, lo):
    return {'_%s_flag' % s: (off, size, lo + i, 1) for i, s in enumerate(('format', 'font', 'alignment', 'border', 'background', 'protection'))}


B8 = dict(
    {'font_index': (0, 2, 0, 16), 'format_key': (2, 2, 0, 16), 'protection.cell_locked': (4, 2, 0, 1), 'protection.formula_hidden': (4, 2, 1, 1),
     'is_style': (4, 2, 2, 1), 'lotus_123_prefix': (4, 2, 3, 1), 'parent_style_index': (4, 2, 4, 12),
     'alignment.hor_align': (6, 1, 0, 3), 'alignment.text_wrapped': (6, 1, 3, 1), 'alignment.vert_align': (6, 1, 4, 3),
     'alignment.rotation': (7, 1, 0, 8), 'alignment.indent_level': (8, 1, 0, 4), 'alignment.shrink_to_fit': (8, 1, 4, 1),
     'alignment.text_direction': (8, 1, 6, 2),
     'border.left_line_style': (10, 4, 0, 4), 'border.right_line_style': (10, 4, 4, 4), 'border.top_line_style': (10, 4, 8, 4),
     'border.bottom_line_style': (10, 4, 12, 4), 'border.left_colour_index': (10, 4, 16, 7), 'border.right_colour_index': (10, 4, 23, 7),
     'border.diag_down': (10, 4, 30, 1), 'border.diag_up': (10, 4, 31, 1), 'border.top_colour_index': (14, 4, 0, 7),
     'border.bottom_colour_index': (14, 4, 7, 7), 'border.diag_colour_index': (14, 4, 14, 7), 'border.diag_line_style': (14, 4, 21, 4),
     'background.fill_pattern': (14, 4, 26, 6), 'background.pattern_colour_index': (18, 2, 0, 7),
     'background.background_colour_index': (18, 2, 7, 7)}, **flags(9, 1, 2))
NODIAG = {'border.diag_down': 0, 'border.diag_up': 0, 'border.diag_colour_index': 0, 'border.diag_line_style': 0,
          'alignment.indent_level': 0, 'alignment.shrink_to_fit': 0, 'alignment.text_direction': 0}
B5 = dict(
    {'font_index': (0, 2, 0, 16), 'format_key': (2, 2, 0, 16), 'protection.cell_locked': (4, 2, 0, 1), 'protection.formula_hidden': (4, 2, 1, 1),
     'is_style': (4, 2, 2, 1), 'lotus_123_prefix': (4, 2, 3, 1), 'parent_style_index': (4, 2, 4, 12),
     'alignment.hor_align': (6, 1, 0, 3), 'alignment.text_wrapped': (6, 1, 3, 1), 'alignment.vert_align': (6, 1, 4, 3),
     'alignment.rotation': ('orient', 7, 1, 0, 2),
     'background.pattern_colour_index': (8, 4, 0, 7), 'background.background_colour_index': (8, 4, 7, 7), 'background.fill_pattern': (8, 4, 16, 6),
     'border.bottom_line_style': (8, 4, 22, 3), 'border.bottom_colour_index': (8, 4, 25, 7),
     'border.top_line_style': (12, 4, 0, 3), 'border.left_line_style': (12, 4, 3, 3), 'border.right_line_style': (12, 4, 6, 3),
     'border.top_colour_index': (12, 4, 9, 7), 'border.left_colour_index': (12, 4, 16, 7), 'border.right_colour_index': (12, 4, 23, 7)},
    **dict(NODIAG, **flags(7, 1, 2)))
BRD34 = {'background.fill_pattern': (6, 2, 0, 6), 'background.pattern_colour_index': (6, 2, 6, 5), 'background.background_colour_index': (6, 2, 11, 5),
         'border.top_line_style': (8, 4, 0, 3), 'border.top_colour_index': (8, 4, 3, 5), 'border.left_line_style': (8, 4, 8, 3),
         'border.left_colour_index': (8, 4, 11, 5), 'border.bottom_line_style': (8, 4, 16, 3), 'border.bottom_colour_index': (8, 4, 19, 5),
         'border.right_line_style': (8, 4, 24, 3), 'border.right_colour_index': (8, 4, 27, 5)}
B4 = dict({'font_index': (0, 1, 0, 8), 'format_key': (1, 1, 0, 8), 'protection.cell_locked': (2, 2, 0, 1), 'protection.formula_hidden': (2, 2, 1, 1),
           'is_style': (2, 2, 2, 1), 'lotus_123_prefix': (2, 2, 3, 1), 'parent_style_index': (2, 2, 4, 12),
           'alignment.hor_align': (4, 1, 0, 3), 'alignment.text_wrapped': (4, 1, 3, 1), 'alignment.vert_align': (4, 1, 4, 2),
           'alignment.rotation': ('orient', 4, 1, 6, 2)}, **dict(NODIAG, **dict(BRD34, **flags(5, 1, 2))))
B3 = dict({'font_index': (0, 1, 0, 8), 'format_key': (1, 1, 0, 8), 'protection.cell_locked': (2, 1, 0, 1), 'protection.formula_hidden': (2, 1, 1, 1),
           'is_style': (2, 1, 2, 1), 'lotus_123_prefix': (2, 1, 3, 1), 'parent_style_index': (4, 2, 4, 12),
           'alignment.hor_align': (4, 2, 0, 3), 'alignment.text_wrapped': (4, 2, 3, 1), 'alignment.vert_align': 2, 'alignment.rotation': 0},
          **dict(NODIAG, **dict(BRD34, **flags(3, 1, 2))))


def side2(hal, bit, on, off=0):
    return ('if', hal, bit, on, off)


def b2attrs(prot, lo_lock, lo_hid, fontf, fmtf, hal):
    d = {'font_index': fontf, 'format_key': fmtf, 'protection.cell_locked': (prot, 1, lo_lock, 1), 'protection.formula_hidden': (prot, 1, lo_hid, 1),
         'alignment.hor_align': (hal, 1, 0, 3), 'alignment.vert_align': 2, 'alignment.rotation': 0,
         'background.background_colour_index': 9, 'background.pattern_colour_index': 8, 'background.fill_pattern': side2(hal, 7, 17)}
    for i, s in enumerate(('left', 'right', 'top', 'bottom')):
        d['border.%s_line_style' % s] = side2(hal, 3 + i, 1)
        d['border.%s_colour_index' % s] = side2(hal, 3 + i, 8)
    for s in ('format', 'font', 'alignment', 'border', 'background', 'protection'):
        d['_%s_flag' % s] = 1
    d.update(NODIAG)
    return d


B2 = dict(b2attrs(2, 6, 7, (0, 1, 0, 8), (2, 1, 0, 6), 3), parent_style_index=0)
XFSPEC = {80: (20, B8), 70: (16, B5), 50: (16, B5), 45: (12, B4), 40: (12, B4), 30: (12, B3), 21: (4, B2)}

def std_class(k):
    if k == 0:
        return FGE
    if 1 <= k <= 13 or 37 <= k <= 44 or k == 48 or 59 <= k <= 62 or 67 <= k <= 70:
        return FNU
    if 14 <= k <= 22 or 27 <= k <= 36 or 45 <= k <= 47 or 50 <= k <= 58 or 71 <= k <= 81:
        return FDT
    return FTX if k == 49 else None


STDTEXT = {0: 'General', 1: '0', 2: '0.00', 3: '#,##0', 4: '#,##0.00', 5: '$#,##0_);($#,##0)', 6: '$#,##0_);[Red]($#,##0)',
           7: '$#,##0.00_);($#,##0.00)', 8: '$#,##0.00_);[Red]($#,##0.00)', 9: '0%', 10: '0.00%', 11: '0.00E+00', 12: '# ?/?', 13: '# ??/??',
           14: 'm/d/yy', 15: 'd-mmm-yy', 16: 'd-mmm', 17: 'mmm-yy', 18: 'h:mm AM/PM', 19: 'h:mm:ss AM/PM', 20: 'h:mm', 21: 'h:mm:ss',
           22: 'm/d/yy h:mm', 37: '#,##0_);(#,##0)', 38: '#,##0_);[Red](#,##0)', 39: '#,##0.00_);(#,##0.00)', 40: '#,##0.00_);[Red](#,##0.00)',
           41: '_(* #,##0_);_(* (#,##0);_(* "-"_);_(@_)', 42: '_($* #,##0_);_($* (#,##0);_($* "-"_);_(@_)',
           43: '_(* #,##0.00_);_(* (#,##0.00);_(* "-"??_);_(@_)', 44: '_($* #,##0.00_);_($* (#,##0.00);_($* "-"??_);_(@_)',
           45: 'mm:ss', 46: '[h]:mm:ss', 47: 'mm:ss.0', 48: '##0.0E+0', 49: '@'}

# default palettes, written from the BIFF documentation (Excel's 56 colours as one string of hex RGB values)
_P8 = ('000000FFFFFFFF000000FF000000FFFFFF00FF00FF00FFFF800000008000000080808000800080008080C0C0C0808080'
       '9999FF993366FFFFCCCCFFFF660066FF80800066CCCCCCFF000080FF00FFFFFF0000FFFF8000808000000080800000FF'
       '00CCFFCCFFFFCCFFCCFFFF9999CCFFFF99CCCC99FFFFCC993366FF33CCCC99CC00FFCC00FF9900FF6600666699969696'
       '003366339966003300333300993300993366333399333333')
PAL8 = [tuple(int(_P8[i + 2 * k:i + 2 * k + 2], 16) for k in range(3)) for i in range(0, len(_P8), 6)]
PAL5 = PAL8[:39] + [(227, 227, 227)] + PAL8[40:]


def default_map(bv):
    pal = PAL8 if bv >= 80 else (PAL5 if bv >= 50 else PAL8[:16])
    m = {i: PAL8[i] for i in range(8)}
    m.update({8 + i: c for i, c in enumerate(pal)})
    m.update({8 + len(pal): None, 9 + len(pal): None, 0x51: None, 0x7FFF: None})
    return m

B20 = b2attrs(0, 6, 7, (1, 1, 6, 2), (1, 1, 0, 6), 2)
