"""texts of the properties (source of properties.jsonl and MANIFEST.json)"""
NOTES = ('Every check re-parses /repo on each run, generates the proof obligations of the contract units listed in '
         'registry.py from the current source text, and discharges them with z3/cvc5; the executable contract is also '
         'run against the real code (cross-check, and counterexample search when an obligation fails).')
PROPS = []


def P(id, title, statement, quant, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note, **kw))


P('C01', 'Calendar-to-serial conversion is exact and inverse to the other direction',
  'For every year, month, day, hour, minute and second, conversion to a serial number succeeds exactly when the tuple is a '
  'valid date/time representable in the chosen date system, returns the day number of that date plus the fraction of the '
  'day, and otherwise raises the documented error. Converting a valid date to a serial and back gives the same date and time.',
  'all integer tuples, both date modes',
  'the tests convert a handful of tuples', ['xlrd/xldate.py'],
  [('xldate_from_date_tuple', 'xlrd/xldate.py'), ('xldate_from_time_tuple', 'xlrd/xldate.py'),
   ('xldate_from_datetime_tuple', 'xlrd/xldate.py')],
  'all integer tuples; float facts assumed')
P('C02', 'Serial-to-calendar conversion is exact for every date and time',
  'For every finite serial number and both date systems, converting a serial number to a calendar tuple gives the '
  'proleptic Gregorian date that is the documented number of days from the epoch, with the time of day rounded to the nearest '
  'second and carried into the next day at midnight. Serials in the ambiguous leap-year-bug range, negative serials, serials after '
  '9999-12-31 and unknown date systems are rejected with the documented error, and nothing else is rejected.',
  'all finite doubles as serial numbers, both date modes, all other mode values',
  'the tests convert a few dozen serials; about 2.9 million days times every fraction of a day are possible',
  ['xlrd/xldate.py'], [('xldate_as_tuple', 'xlrd/xldate.py'), ('rounding and carry', 'xlrd/xldate.py')],
  'all serials over the reals/doubles; float facts (2^-53 relative error, exact int conversion) are assumed')
P('C03', 'Conversion of serials to datetime objects agrees with the calendar',
  'For every non-negative finite serial in range and both date systems, the datetime object returned denotes the epoch plus the whole days '
  'plus the fraction of the day rounded to the nearest millisecond.',
  'all non-negative finite serials in range, both date modes', 'the tests convert a few serials', ['xlrd/xldate.py'],
  [('xldate_as_datetime', 'xlrd/xldate.py')], 'float facts and datetime+timedelta of CPython assumed')
P('C04', 'Compact (RK) numbers decode to the exact double',
  'For each of the 2^32 four-byte compact numbers, decoding yields the double with the documented value: bit 1 selects a signed 30-bit '
  'integer or the top 30 bits of an IEEE double, and bit 0 divides the result by 100.',
  'all 2^32 encodings', 'the tests contain a few dozen compact numbers', ['xlrd/sheet.py'],
  [('unpack_RK', 'xlrd/sheet.py')], 'all 2^32 inputs; float division is the CPython operation')
P('C05', 'Length-prefixed strings are decoded with the right text and end position',
  'For every record and every position holding a complete length-prefixed string - BIFF8 (compressed or not, with or without rich-text '
  'and phonetic blocks) or byte string in the workbook encoding, with an 8-bit, 16-bit or externally supplied character count - the '
  'text returned is exactly the encoded characters and the position returned is the first byte after the string with all its optional blocks.',
  'all byte strings, positions, flag combinations and lengths', 'the tests contain a few strings, none with unusual option bits',
  ['xlrd/biffh.py'],
  [('unpack_string, unpack_string_update_pos', 'xlrd/biffh.py'), ('unpack_unicode, unpack_unicode_update_pos', 'xlrd/biffh.py')],
  'codecs are uninterpreted functions of the byte range')
P('C14', 'Cell, column and range names denote the coordinates they are made from',
  'For every column index the column name is the bijective base-26 name (A..Z, AA..), and the A1 and R1C1 texts of cells and '
  'ranges, absolute or relative to a base cell, are composed of exactly the column names and 1-based row numbers (or '
  'bracketed offsets) of those coordinates, with $ marking the absolute parts.',
  'every column index below 702 (18278 in book.colname), all rows, all relative flags and bases', 'the tests name a handful of cells',
  ['xlrd/formula.py', 'xlrd/book.py'],
  [('colname, cellname, cellnameabs, cellnamerel, rangename2d, rangename2drel', 'xlrd/formula.py'), ('colname', 'xlrd/book.py')],
  'column names by exhaustive evaluation, composition for all integers')
P('C15', 'Cell and range addresses in formulas are unpacked exactly',
  'For every record content, BIFF version and base cell, the row, column and relative flags decoded from a cell or range '
  'address in a formula are those of the file format: the relative bits come from the documented positions, and relative offsets are '
  'sign-extended (shared formulas and names) or made relative to the base cell.',
  'all byte contents, all BIFF versions, all base cells', 'the tests only use formulas of a few files', ['xlrd/formula.py'],
  [('get_cell_addr, get_cell_range_addr', 'xlrd/formula.py'), ('adjust_cell_addr_biff8, adjust_cell_addr_biff_le7', 'xlrd/formula.py')],
  'complete')
P('C30', 'Range lists are decoded completely and in order',
  'For every counted list of cell ranges in a record, exactly the stated number of ranges is appended in file order, each converted to half-open form, '
  'earlier content of the list is kept, and the position returned is the first byte after the list.',
  'all list lengths, both entry sizes, all contents', 'the tests contain a couple of merged ranges', ['xlrd/biffh.py'],
  [('unpack_cell_range_address_list_update_pos', 'xlrd/biffh.py')], 'loop invariant over an arbitrary entry')
P('C07', 'The cell grid is exactly the stored cells, padded consistently',
  'For every sequence of cells stored in a sheet (any order, overlapping, inside or outside the declared dimensions, within the row and '
  'column limits of the version), with ragged rows or not and with formatting or not, the grid holds at every stored '
  'position the type, value and format index of the last cell stored there and empty cells everywhere else; without ragged rows all rows have '
  'ncols cells, with ragged rows each row ends at its last stored cell, and nrows and ncols are the smallest dimensions covering all of it.',
  'all put sequences, all row/column positions, both ragged modes, with and without formatting info',
  'the tests load a few dozen files whose cells come in order', ['xlrd/sheet.py'],
  [('put_cell_ragged, put_cell_unragged', 'xlrd/sheet.py'), ('tidy_dimensions', 'xlrd/sheet.py')],
  'DIMENSION precedes the cells and merged ranges lie inside the sheet (as in files written by Excel)')
P('C09', 'Accessors are consistent views of one grid',
  'For every loaded sheet and every non-negative in-range row and column, cell(), cell_type(), cell_value(), row(), col(), row_types(), '
  'row_values(), row_slice(), col_slice(), col_types(), col_values(), row_len(), get_rows() and indexing return exactly the types, '
  'values and format indexes of the same grid, with slices clipped as Python slices. The lists returned are the caller\'s own: changing '
  'them does not change the sheet.',
  'all grids, indexes and slice bounds', 'the tests read a few cells of one sheet', ['xlrd/sheet.py'],
  [('cell, row, col, row_slice, col_slice, row_types, row_values, col_types, col_values, get_rows', 'xlrd/sheet.py')],
  'complete for grids satisfying the grid invariant of C07')
P('C10', 'The format index of every cell resolves in the documented order',
  'For every sheet loaded with formatting and every non-negative row and column, cell_xf_index() is the format index stored with the cell if there is '
  'one, otherwise the default of its row if the row has one, otherwise that of its column if it has one, otherwise 15.',
  'all grids and all row/column defaults', 'the tests check a few cells of one file', ['xlrd/sheet.py'],
  [('cell_xf_index', 'xlrd/sheet.py')], 'non-negative indexes')
P('C26', 'Every cell record yields exactly the cells it stores',
  'For every sheet and BIFF version, loading a NUMBER, RK, MULRK, LABEL, LABELSST, RSTRING, BOOLERR, BLANK, MULBLANK, BIFF2 INTEGER or FORMULA record stores exactly '
  'the cells that the record holds - at its row and columns, with the value encoded there, the cell type given by the record kind (for '
  'numbers also by the cell format), the format index of the record, blank cells only when formatting is loaded - and nothing else. Records of other kinds store no cells.',
  'all contents of well-formed cell records, all versions, any position in the record stream', 'the tests load a few dozen files',
  ['xlrd/sheet.py'], [('Sheet.read', 'xlrd/sheet.py'), ('unpack_RK', 'xlrd/sheet.py')],
  'every record kind from an arbitrary state of the sheet; records have the layout of the format (MULRK/MULBLANK lengths consistent, RSTRING without phonetic data)')
P('C31', 'Sheet settings come from the records that define them',
  'For every sheet stream, the row and column information, default widths and heights, page breaks, merged cells, label ranges, window options, pane, zoom factors '
  'and standard-width flags reported for a sheet are those stored in the last (for lists: in all) of the corresponding records of that sheet, field by field in the layout of its '
  'BIFF version, with the documented default where there is no such record, and no other record changes them.',
  'all contents and orders of well-formed setting records, all versions', 'the tests check a few settings of a few files',
  ['xlrd/sheet.py'], [('Sheet.read', 'xlrd/sheet.py'), ('Rowinfo, Colinfo', 'xlrd/sheet.py'), ('update_cooked_mag_factors', 'xlrd/sheet.py')],
  'every record kind from an arbitrary state of the sheet; DIMENSION precedes the cells; COLUMNDEFAULT ranges lie inside the sheet')
P('C28', 'Every hyperlink is reported with its own fields and mapped to exactly its cells',
  'For every sequence of well-formed HLINK records of a sheet, hyperlink_list has one entry per record, in order, with the range, type, description, target frame, address '
  '(URL, path of a local file - the long one where stored, else the short one with its number of levels up -, network path), text mark and tooltip that the record (and the QUICKTIP '
  'record after it) stores, whatever characters they contain, and None for the ones it does not store; hyperlink_map maps exactly the cells of the ranges, each to the last link that covers it.',
  'all option words, texts, lengths and ranges of well-formed records', 'the tests read the links of two files', ['xlrd/sheet.py'],
  [('handle_hlink, handle_quicktip', 'xlrd/sheet.py'), ('Sheet.read', 'xlrd/sheet.py')],
  'counted texts end in a zero unit, URL and file monikers have the documented layout, and are the only monikers')
P('C29', 'Every cell note has its own text, author and flags',
  'For every sheet, whatever the order and number of its notes, cell_note_map has exactly the cells that have a note, and each note has the author, flags, '
  'text and formatting runs stored for it: in BIFF8 the text is that of the text object whose OBJ record has the number given in the NOTE record of the same sheet, '
  'however the text (wide or compressed, also within a surrogate pair) and its runs are divided among CONTINUE records, with the runs at the end of the text dropped; before BIFF8 it is '
  'the bytes of the NOTE record and its continuation records, joined and then decoded with the encoding of the workbook. A note of a text object that does not exist is not reported.',
  'all texts, authors, flags, run lists, divisions into records and record orders', 'the tests read the notes of two files', ['xlrd/sheet.py'],
  [('handle_note, handle_txo, handle_obj', 'xlrd/sheet.py'), ('Sheet.read', 'xlrd/sheet.py')],
  'OBJ records start with the common subrecord or are ignored; object numbers are not 0; the lengths in TXO and NOTE records are those of the records that follow')
P('C18', 'A number is a date exactly when its number format says so',
  'For every number format text, the format counts as a date format exactly when what is left of it after dropping quoted text, the character following each of \\ _ *, '
  'the characters $ - + / ( ) : and space, and then bracketed parts, is none of the general number formats (0.00E+00, ##0.0E+0, General, GENERAL, general, @) and has more date characters (y m d h s in either case) than digit placeholders (0 # ?). '
  'Every FORMAT record yields one entry with its text under its key (the stored one from BIFF5 on, else its sequence number); from BIFF5 on, standard keys without a record '
  'have their documented class. A numeric cell is a date cell exactly when the format of its XF record exists and is a date format, whether or not formatting is loaded.',
  'all format texts, keys, XF records and versions', 'the tests check a few formats', ['xlrd/formatting.py', 'xlrd/sheet.py'],
  [('is_date_format_string, handle_format, fill_in_standard_formats, handle_xf, xf_epilogue', 'xlrd/formatting.py'), ('put_cell', 'xlrd/sheet.py')],
  'two-pass loop invariants over prefix functions; the meaning of the bracket pattern itself is a bounded check (7 characters)')
P('C19', 'The colour map holds the colours of the version and of the PALETTE record',
  'For every workbook loaded with formatting, colour indexes 0 to 7 map to the fixed eight colours, 8 upwards to the default palette of the BIFF version or, where there is a PALETTE record, to its entries in order '
  '(red, green, blue from the low byte up), the two indexes after the default palette, 0x51 and 0x7FFF to None unless the record covers them, and no other index exists; palette_record lists the entries of the record. '
  'A PALETTE record that is shorter than its count requires or more than 4 bytes longer is refused with XLRDError. '
  'nearest_colour_index() returns an index of a known colour of least Euclidean distance.',
  'all versions, palettes and colour maps', 'the tests do not look at palettes', ['xlrd/formatting.py'],
  [('initialise_colour_map, handle_palette, palette_epilogue, nearest_colour_index', 'xlrd/formatting.py')],
  'default tables compared entry by entry with independently written ones; one PALETTE record per file')
P('C20', 'Fonts, cell formats and styles are decoded bit by bit',
  'For every FONT, EFONT, XF and STYLE record of every version (XF: BIFF 2.1 to 8), each attribute of the Font or XF object is exactly the bit field stored for it in the layout of that '
  'version, with the documented fixed value where the version has no such field; XF objects have their sequence number as xf_index and keep their format key if that format exists (else 0); '
  'fonts are numbered with index 4 skipped; styles map their stored or built-in name to their kind and XF index. Without formatting, fonts and styles are not kept.',
  'all record contents, all versions', 'the tests check a few attributes of one file', ['xlrd/formatting.py'],
  [('handle_xf, handle_font, handle_efont, handle_style', 'xlrd/formatting.py'), ('upkbits, upkbitsL', 'xlrd/biffh.py')],
  'complete for records of the documented lengths')
P('C24', 'Column widths are resolved in the documented order',
  'For every sheet loaded with formatting and every column 0 to 255, computed_column_width() is, for BIFF8, the width of the column information if there is any, else the standard width if given; '
  'for BIFF4 to 7, the standard width if the column is flagged as standard and one is given, or, if it is not flagged, the width of its column information if there is any; for BIFF3 the width of the column information; and '
  'in all remaining cases 256 times the default column width, or 2048 if there is none. Without formatting it raises XLRDError.',
  'all columns, all combinations of settings, all versions', 'the tests check no computed widths of old versions', ['xlrd/sheet.py'],
  [('computed_column_width', 'xlrd/sheet.py'), ('Sheet.read', 'xlrd/sheet.py')], 'complete')
P('C36', 'BIFF2 cell attributes denote the right format',
  'For every BIFF2 sheet with XF records, the format index of a cell is the low six bits of its attributes, 63 standing for the index in the latest IXFE record (XLRDError if there is none). '
  'Without XF records, every distinct attribute triple of cells denotes one XF entry, created on first use after sixteen default entries, whose protection, font, format, alignment, border and background '
  'fields are the bits of the triple; equal triples share the entry, and the cell is a date cell exactly when the format with that key is a date format.',
  'all attribute bytes and all sequences of cells', 'the tests contain no BIFF2 file with formatting', ['xlrd/sheet.py'],
  [('fixed_BIFF2_xfindex, insert_new_BIFF20_xf, fake_XF_from_BIFF20_cell_attr', 'xlrd/sheet.py')], 'one arbitrary cell from an arbitrary history')
P('C12', 'The record stream is read record by record and dispatched by type',
  'For every stream and position with a complete record header, reading the next record yields its type, its stated length and exactly the bytes following the '
  'header up to that length, and the next record starts directly after them; a conditional read consumes the record only if it has the requested type. '
  'The workbook globals are processed record by record up to the first EOF record: each record of an interpreted type is handed with its data to the handler of that type exactly once, '
  'and every other record, whatever its length and contents, has no effect on the workbook.',
  'all streams, positions, record types, lengths and contents', 'the tests read a few dozen files', ['xlrd/book.py'],
  [('get_record_parts, get_record_parts_conditional', 'xlrd/book.py'), ('parse_globals', 'xlrd/book.py')],
  'record loop by invariant: one arbitrary record from an arbitrary state')
P('C13', 'The BIFF version is derived exactly from the BOF record',
  'For every stream, the beginning-of-file record is accepted exactly when it is complete, has a known BOF type, a length from 4 to 20 and the stream '
  'kind asked for (workbook globals, worksheet, or a worksheet of BIFF 2 to 4), and the version derived is the one its record type, version field, '
  'build and year denote, with fields beyond the record read as zero; everything else is rejected with XLRDError, as is a workbook whose version cannot be '
  'determined. Reading continues directly after the record.',
  'all streams and positions', 'the tests open files of a few versions', ['xlrd/book.py'],
  [('getbof', 'xlrd/book.py'), ('open_workbook_xls', 'xlrd/book.py')], 'complete')
P('C27', 'Byte strings are decoded with the encoding of the workbook',
  'For every BIFF version, code page (or none) and encoding override, the encoding used for byte strings is the override if given, else the Python '
  'codec for the code page (cpNNN for code pages 300 to 1999, the listed codecs for UTF-16 and the Macintosh code pages), else iso-8859-1 for files before '
  'BIFF8 without a code page; a codec that does not exist is reported as an error and not replaced by another, and a user name that precedes the '
  'code page is decoded with it once it is known.',
  'all versions, code pages, overrides and user names', 'the tests use files of very few code pages', ['xlrd/book.py', 'xlrd/biffh.py'],
  [('derive_encoding, handle_codepage', 'xlrd/book.py'), ('encoding_from_codepage', 'xlrd/biffh.py')],
  'codecs are uninterpreted; whether a codec exists is an arbitrary outcome of the decode call')
P('C33', 'The sheet list is the list of worksheets, each read from its own position',
  'For every sequence of BOUNDSHEET records the workbook lists exactly the worksheets (no charts, macro sheets or modules), in order, with the stored name and '
  'visibility, and each sheet is loaded from the stream position its record states, whatever the order of the sheets in the stream, under '
  'its own name and number; files of BIFF 2 to 4 have one visible sheet, and workspace files of BIFF 4 have one sheet per SHEETHDR record.',
  'all BOUNDSHEET contents and sequences', 'the tests have few sheets, in file order', ['xlrd/book.py'],
  [('handle_boundsheet, get_sheet, get_sheets', 'xlrd/book.py'), ('handle_sheethdr, fake_globals_get_sheet', 'xlrd/book.py')],
  'one arbitrary record from an arbitrary state of the list')
P('C37', 'Encrypted workbooks are refused',
  'For every BIFF version, and every well-formed encryption header, opening a workbook that contains a FILEPASS record raises XLRDError saying that the workbook is encrypted, whatever the verbosity, '
  'and no record after it is interpreted; every error raised while opening reaches the caller, after the resources were released.',
  'all encryption headers, versions and verbosity levels', 'the tests contain one encrypted workbook', ['xlrd/book.py', 'xlrd/sheet.py'],
  [('handle_filepass, parse_globals', 'xlrd/book.py'), ('open_workbook_xls', 'xlrd/book.py'), ('Sheet.read', 'xlrd/sheet.py')], 'complete')

P('C06', 'Every string of the shared string table is read exactly, wherever its record boundaries fall',
  'For every shared string table - any number of strings, spread over the SST record and any number of CONTINUE records - the text of string '
  'i is exactly the i-th string of the table: characters may continue in the next record, which then starts with a flag byte saying whether '
  'its characters take one or two bytes, and the formatting runs and the phonetic data of a string may follow in further records without such '
  'a byte. A LABELSST cell has the text its index selects; with formatting_info, the formatting runs of that string are available for the '
  'cell, and they are the pairs stored in the table.',
  'all well formed tables: every number of strings and records, every record boundary, every flag combination',
  'the sample files contain few CONTINUE records, hardly any with a boundary inside runs, phonetic data or a surrogate pair', ['xlrd/book.py', 'xlrd/sheet.py'],
  [('unpack_SST_table, Book.handle_sst', 'xlrd/book.py'), ('LABELSST branch of Sheet.read', 'xlrd/sheet.py')],
  'well-formedness assumed: string headers, runs and characters are not split, the announced records are present; the UTF-16 codec is an '
  'uninterpreted function of the units')
P('C25', 'Text results of formulas are read exactly, also when they extend over CONTINUE records',
  'The text of a formula cell whose result is a string is the text of the STRING record that follows it (after an optional SHRFMLA, ARRAY or TABLEOP '
  'record), continued in as many CONTINUE records as are needed to reach the announced length: for BIFF8 each record starts with a flag byte '
  'and the length counts UTF-16 code units, before BIFF8 the bytes are decoded with the encoding of the workbook. More characters than announced, '
  'or a record other than CONTINUE where characters are missing, raise XLRDError.',
  'all lengths, record boundaries, flag bytes and BIFF versions', 'the sample files contain few string formulas and none that is continued',
  ['xlrd/sheet.py'], [('Sheet.string_record_contents, FORMULA branch of Sheet.read', 'xlrd/sheet.py')],
  'before BIFF8, encodings with one byte per character; characters are not split by a record boundary')
P('C11', 'Streams of OLE2 compound documents are extracted exactly',
  'For every well-formed OLE2 compound document - any sector sizes, any number of allocation table sectors (in the header or in extension sectors), any order and fragmentation '
  'of the sectors, any directory tree - looking up the path of a stream gives exactly the bytes of that stream: those of its chain of sectors, or of its chain of short sectors when '
  'it is shorter than the minimum size of standard streams, cut to the size in its directory entry. Path components match without regard to case; '
  'a path that is absent gives None (locate_named_stream: (None, 0, 0)). A chain that comes back to a sector already used raises CompDocError and is never followed forever.',
  'all documents, sector sizes, fragmentations, directory trees and stream lengths',
  'the sample files have the layout Excel writes: one sector size, no extension sectors, nearly contiguous streams', ['xlrd/compdoc.py'],
  [('CompDoc.__init__', 'xlrd/compdoc.py'), ('_get_stream, _locate_stream, get_named_stream, locate_named_stream, _dir_search', 'xlrd/compdoc.py'),
   ('DirNode, _build_family_tree', 'xlrd/compdoc.py')],
  'sector ids beyond the allocation table, and directory trees with cycles, are outside the claim; joining the collected pieces and the prefix sums of their '
  'lengths are used through their definitions (lemma_prefix)')
P('C21', 'A file is recognised by its content, and the same workbook is read however its bytes are supplied',
  'For every content, inspect_format gives "xls" when it starts with the OLE2 signature, for a zip file (by its signature) "xlsx", "xlsb" or "ods" according to the first of xl/workbook.xml, '
  'xl/workbook.bin and content.xml it contains (names compared without regard to case and kind of slash), otherwise "zip", and None for anything else; path (with ~ expanded) and '
  'content give the same answer, and content wins over path. open_workbook refuses every other format than xls or unknown with XLRDError naming the format, before reading it. A workbook is the same whether its '
  'file is read through mmap, without mmap or given as bytes or an mmap object, and whether its stream stands alone or is the Workbook stream, else the Book stream, of a compound document; an '
  'empty file and a compound document without these streams raise XLRDError.',
  'all contents, member names and ways to supply the file', 'the tests inspect a handful of files, and open nearly all by path',
  ['xlrd/__init__.py', 'xlrd/book.py'],
  [('inspect_format, open_workbook', 'xlrd/__init__.py'), ('open_workbook_xls, Book.biff2_8_load', 'xlrd/book.py')],
  'open, mmap and zipfile are used through their documented contracts; how the stream is found in the compound document is C11')
P('C23', 'Sheets are found by position and name, loaded when first needed, and resources are released as promised',
  'For every workbook and every history of operations: sheet_by_index, sheet_by_name, indexing the book, iteration and sheets() give, for each position in range(nsheets) and each name, the sheet of that '
  'position - the same object until it is unloaded; with on_demand a sheet is loaded when it is first asked for, and loading, unloading or sheet_loaded of one sheet never affects another. An unknown name raises XLRDError. '
  'sheet_names() and sheets() are copies. After release_resources(), calling it again has no effect, loaded sheets stay available, and loading any other raises XLRDError; a with block releases on exit and lets exceptions pass. Without on_demand '
  '(and for files before BIFF 5.0, where it is not supported) all sheets are loaded and the resources released when open_workbook returns; when it raises, they are released as well, and the file is closed.',
  'all workbooks, sheet numbers and histories', 'the tests use on_demand with one file and two or three calls', ['xlrd/book.py'],
  [('sheets, sheet_by_index, sheet_by_name, __iter__, __getitem__, sheet_names', 'xlrd/book.py'), ('sheet_loaded, unload_sheet, release_resources, __enter__, __exit__', 'xlrd/book.py'),
   ('get_sheet, get_sheets, open_workbook_xls', 'xlrd/book.py')],
  'each operation from an arbitrary state of the list of sheets')
P('C16', '3-D references resolve to exactly the worksheets they denote',
  'For every EXTERNSHEET table and every list of sheets, a 3-D reference in a defined name resolves to the range of worksheets (counted as xlrd counts them, macro, chart and VB sheets left out) from its first to its last sheet, both worksheets of '
  'this workbook in order. In BIFF8 entry k is the k-th triple of the EXTERNSHEET record and its CONTINUE records (a missing CONTINUE raises XLRDError) and the SUPBOOK record it names says whether it is this workbook, another one or the add-in '
  'functions, whose names are kept in order. Every other reference gets the documented code instead of a sheet number: -1 any sheet, -2 deleted, -3 a sheet that is not a worksheet, -4 another workbook, -5 add-in functions, below -100 for sheets or entries that '
  'do not exist. BIFF 5 and 7 references resolve in the same way from their own fields.',
  'all EXTERNSHEET and SUPBOOK tables, sheet lists and references', 'the tests have one file with names, and no macro sheets, external workbooks or deleted sheets',
  ['xlrd/formula.py', 'xlrd/book.py'],
  [('get_externsheet_local_range, get_externsheet_local_range_b57', 'xlrd/formula.py'), ('handle_externsheet, handle_supbook', 'xlrd/book.py')],
  'entry k0 of the table for an arbitrary k0')
P('C22', 'Name.cell() and Name.area2d() give exactly the cell or rectangle a constant reference denotes, or XLRDError',
  'For every evaluated name: cell() returns the cell of the sheet exactly when the result is one absolute reference to a single cell of a single worksheet; area2d() returns sheet and bounds exactly when the result is one absolute reference to '
  'a single worksheet, with the bounds cut to the used range of the sheet unless clipped is false, and is well formed: 0 <= low <= high. In every other case - no result, another kind of result, unknown value, a union, several sheets, sheets that are not worksheets of '
  'this workbook - both raise XLRDError and nothing else. (A cell outside the used range of its sheet is left open.)',
  'all results of names and sizes of sheets', 'the tests call each method a few times on one file', ['xlrd/book.py'], [('Name.cell, Name.area2d', 'xlrd/book.py')], '')
P('C34', 'Defined names are recorded with their exact attributes and scope and can be looked up by name and scope',
  'For every NAME record of BIFF 5 to 8: name_obj_list has one Name per record in file order; hidden, func, vbasic, macro, complex, builtin, funcgroup and binary are exactly their bits of the option flags, the name is the text of the record, or for built-in '
  'names the one its code stands for, and the raw formula is everything after the name. scope is -1 for global names, the number of the worksheet for local ones, -2 for a macro or VB sheet and -3 for a sheet that does not exist. name_and_scope_map holds for each (lower-case name, scope) the last '
  'such name in file order; name_map holds for each lower-case name exactly its Names, ordered by scope and then by file order. Macro and binary names are not evaluated. Before BIFF 5 no names are recorded.',
  'all NAME records and lists of names', 'the tests have one file with ordinary names', ['xlrd/book.py'], [('handle_name, names_epilogue', 'xlrd/book.py')],
  'for BIFF 5 and 7 the EXTERNSHEET entry of a local name is one that names a sheet of this workbook')
P('C17', 'The formulas of defined names are evaluated: operands, operators, references and functions give the right values and texts',
  'For a well-formed formula of a defined name (BIFF 5 to 8) Name.result is one Operand whose kind, value and text are those of the formula: constants, strings, booleans and error codes stand for themselves; + - * / ^ & and the comparisons of constants have the value of the arithmetic, with the kind of the result '
  '(number, text, boolean) and value None when an operand is unknown or the operation has no value (1/0, text that is not a number); unary plus, minus and percent; references become Ref3D with the sheets, rows and columns of the token (offsets signed where they are relative, upper ends exclusive), intersection, union and range combine them; '
  'IF and CHOOSE with a constant selector give the chosen argument, every other function gives an unknown value; a defined name stands for the result of that name, whichever of the two comes first in the file. The text has the operands in order, parentheses exactly round those that bind less tightly, functions by '
  'their names with their arguments separated by commas, sheet names quoted where needed. Each token takes exactly its own operands and bytes. any_err is set exactly when a token refers to something deleted, external or unevaluable, any_rel when one is relative. Names that refer to each other are refused with XLRDError.',
  'all formulas, nesting depths, operand values and BIFF versions 5 to 8', 'the tests have a handful of formulas out of one file', ['xlrd/formula.py'],
  [('evaluate_name_formula, do_box_funcs, rangename3d, rangename3drel, quotedsheetname', 'xlrd/formula.py')],
  'well-formed: operands of each token are present, name indexes and error codes are valid, booleans are 0 or 1; any_rel of a name used in a formula is not passed on')
P('C35', 'Date system, countries and user name of the workbook come from their records',
  'For every workbook of every BIFF version: datemode is the value of the DATEMODE record, 0 (1900 system) where there is none, and a record with a value other than 0 or 1 is refused with an exception and never taken over; countries is the pair of the COUNTRY record, (0, 0) where there is none, and a later record '
  'that disagrees is refused; user_name is the name of the WRITEACCESS record without trailing white space, in the characters of the record (BIFF8) or decoded with the encoding of the workbook (before), also where the record comes before the code page. Nothing else is changed by these records.',
  'all contents and orders of these records, all versions', 'the tests look at the date system of one file', ['xlrd/book.py', 'xlrd/sheet.py'],
  [('handle_datemode, handle_country, handle_writeaccess, handle_builtinfmtcount, derive_encoding', 'xlrd/book.py')],
  'the characters of the name are inside the record')
