"""C21 recognising and opening files, C23 the sheets of an open workbook"""
import gc
import io
import mmap
import os
import random
import shutil
import struct
import tempfile
import zipfile
from . import biff as W
from .biff import rec, P, outcome, bstr, ustr
from .compdoc_f import cfb, Node, limited
from .view import view, diff

CODES = {80: 6, 70: 6, 50: 6}
NUMS = [0.0, 1.0, -2.5, 1e9, 39412.0]


def cells(rng, bv, sst):
    """[(row, col, value)], records of a sheet"""
    want, recs = {}, []
    k = rng.choice([0, 0, 1, 3, 6])
    for _ in range(k):
        r, c = rng.randrange(6), rng.randrange(5)
        t = rng.random()
        if t < .5 or bv < 50:
            v = rng.choice(NUMS)
            if bv <= 21:
                recs.append(rec(0x03, P('<HH', r, c) + b'\0\0\0' + P('<d', v)))
            else:
                recs.append(rec(0x203, P('<HHHd', r, c, 0, v)))
        elif bv == 80:
            v = rng.choice(['alpha', 'b\u20acta', '', 'x' * 20, 'S%d' % rng.randrange(100)])
            if v not in sst:
                sst.append(v)
            recs.append(rec(0xFD, P('<HHHI', r, c, 0, sst.index(v))))
        else:
            v = 'L%d' % rng.randrange(1000)
            recs.append(rec(0x204, P('<HHH', r, c, 0) + bstr(v.encode(), 2)))
        want[(r, c)] = v
    return want, recs


NAMEPOOL = ['Sheet1', 'sheet1', 'Data', 'A', '\xe9t\xe9', 'Q 4', '1', 'Totals 2010', 'Sheet10', 'x' * 31]


def make(rng, bv):
    """-> (bytes, [(name, cells)])"""
    sst, sheets = [], []
    n = 1 if bv <= 40 else rng.choice([1, 2, 3, 5])
    names = rng.sample(NAMEPOOL, n)
    for i in range(n):
        w, r = cells(rng, bv, sst)
        if i and rng.random() < .2:
            w, r = {}, []
        sheets.append((names[i], w, r))
    if bv <= 40:
        w = W.WB(bv).sheet('S', recs=[W.dimension(bv, 8, 8)] + W.std_globals(bv, [(0, 'General')]) + sheets[0][2])
        return w.bytes(), [('Sheet 1', sheets[0][1])]
    if bv == 45:
        w = W.WB(45, codepage=1252, pre=W.std_globals(45, [(0, 'General')]))
        for nm, _, r in sheets:
            w.sheet(nm, recs=W.std_globals(45, [(0, 'General')]) + r)
        return w.bytes(), [(a, b) for a, b, _ in sheets]
    post = []
    if bv == 80:
        post = [rec(0xFC, P('<II', len(sst), len(sst)) + b''.join(ustr(s, 2) for s in sst))]
    w = W.WB(bv, codepage=1252 if bv < 80 else None, pre=W.std_globals(bv), post=post)
    out = []
    for nm, c, r in sheets:
        if rng.random() < .15:
            w.sheet('Chart%d' % len(out), typ=2, recs=[rec(0x1001)], kind=0x20)
        if bv < 80 and rng.random() < .9:
            w.sheet(nm, recs=r)
        else:
            w.sheet(nm, vis=rng.choice([0, 0, 1, 2]), recs=r)
        out.append((nm, c))
    return w.bytes(), out


def wrap(rng, data, how):
    """how the stream is packed in a file"""
    if how == 'raw':
        return data
    nm = 'Workbook' if how != 'book' else 'Book'
    nodes = [Node(nm, data=data)]
    if how == 'many':
        nodes += [Node('\x05SummaryInformation', data=bytes(range(200))), Node('zz', kids=[Node('Workbook', data=b'nothing' * 9)])]
    if how == 'both':
        nodes += [Node('Book', data=b'\x09\x08' + bytes(300))]
    return cfb(rng, nodes, ssz=rng.choice([9, 9, 12, 7]), sssz=rng.choice([6, 5]), minsize=rng.choice([4096, 512]), frag=rng.choice([0, 0, .5, 1]), free=rng.choice([0, 3]))[0]


def check_sheet(sh, name, cells, num=None):
    if sh.name != name:
        return 'sheet %r is given for %r' % (sh.name, name)
    if num is not None and sh.number != num:
        return 'sheet number %r for sheet %d' % (sh.number, num)
    nr = max([r for r, c in cells], default=-1) + 1
    for (r, c), v in cells.items():
        if r >= sh.nrows or c >= sh.ncols or sh.cell_value(r, c) != v:
            return 'cell (%d, %d) of %r is %r, expected %r' % (r, c, name, outcome(sh.cell_value, r, c), v)
    full = sum(1 for r in range(sh.nrows) for t in sh.row_types(r) if t)
    if full != len(cells):
        return 'sheet %r has %d cells instead of %d' % (name, full, len(cells))


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf21-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def mapped(path):
    gc.collect()
    with open('/proc/self/maps') as f:
        return any(path in l for l in f)


def fds(path):
    n = 0
    for x in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + x) == path:
                n += 1
        except OSError:
            pass
    return n


class C23(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(kind=rng.choice(['history'] * 5 + ['error']), seed=rng.getrandbits(40), bv=rng.choice([80, 80, 80, 70, 50, 45, 40, 30, 21]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        with Scratch() as d:
            return (C23.history if case['kind'] == 'history' else C23.error)(case, d)

    @staticmethod
    def error(case, d):
        """an exception while opening leaves nothing open"""
        import xlrd
        rng = random.Random(case['seed'])
        bv = case['bv']
        data, sheets = make(rng, bv)
        how = rng.choice(['raw', 'raw', 'cfb'])
        kind = rng.choice(['cut', 'pass', 'noise', 'kind', 'empty', 'bad'])
        if kind == 'cut':
            data = data[:rng.randrange(1, len(data))]
        elif kind == 'pass':
            data = W.bof(bv, 5 if bv > 45 else 0x10) + rec(0x2F, b'\0\0' + bytes(4)) + W.EOF
        elif kind == 'noise':
            data = bytes(rng.randrange(256) for _ in range(rng.choice([4, 40, 600])))
        elif kind == 'kind':
            data = W.bof(bv, 0x20) + W.EOF
        elif kind == 'bad' and len(data) > 60:
            b = bytearray(data)
            i = rng.randrange(20, len(b) - 3)
            b[i:i + 2] = b'\xff\xff'
            data = bytes(b)
        data = wrap(rng, data, how) if kind != 'empty' else b''
        if how == 'cfb' and kind == 'empty':
            data = cfb(rng, [Node('Other', data=b'x' * 5000)])[0]
        path = os.path.join(d, 'w.xls')
        with open(path, 'wb') as f:
            f.write(data)
        mm = None
        use = rng.choice(['path', 'path', 'nomap', 'mmap'])
        kw = dict(logfile=io.StringIO(), on_demand=rng.random() < .4, formatting_info=rng.random() < .3)
        if use == 'mmap' and data:
            f = open(path, 'rb')
            mm = mmap.mmap(f.fileno(), len(data), access=mmap.ACCESS_READ)
            f.close()
            kw['file_contents'] = mm
        else:
            kw['use_mmap'] = use != 'nomap'
        try:
            bk = xlrd.open_workbook(path, **kw)
        except Exception as x:
            if type(x).__name__ == 'Hang':
                raise
            err = x                     # the traceback stays alive
            bk = None
            if mapped(path) or (mm is not None and not mm.closed):
                return 'the file is still mapped after opening failed with %r (%s)' % (x, kind)
            if fds(path):
                return 'the file is still open after opening failed with %r (%s)' % (x, kind)
            del err
        if bk is not None:
            bk.release_resources()
            if mapped(path) or fds(path):
                return 'the file is still open after release_resources()'
        return None

    @staticmethod
    def history(case, d):
        import xlrd
        rng = random.Random(case['seed'])
        bv = case['bv']
        data, sheets = make(rng, bv)
        data = wrap(rng, data, rng.choice(['raw', 'cfb', 'book', 'many']))
        path = os.path.join(d, 'w.xls')
        with open(path, 'wb') as f:
            f.write(data)
        od = rng.random() < .7
        log = io.StringIO()
        kw = dict(logfile=log, on_demand=od, formatting_info=rng.random() < .3)
        use = rng.choice(['path', 'nomap', 'bytes', 'mmap'])
        if use == 'bytes':
            kw['file_contents'] = data
        elif use == 'mmap':
            f = open(path, 'rb')
            kw['file_contents'] = mmap.mmap(f.fileno(), len(data), access=mmap.ACCESS_READ)
            f.close()
        else:
            kw['filename'] = path
            kw['use_mmap'] = use == 'path'
        bk = xlrd.open_workbook(**kw)
        n = len(sheets)
        names = [s[0] for s in sheets]
        lazy = od and bv >= 50
        released = not lazy
        loaded = [not lazy] * n
        objs = [None] * n
        hist = ['open(on_demand=%r, BIFF %d, %s)' % (od, bv, use)]

        def got(i, sh, op):
            if not isinstance(sh, xlrd.sheet.Sheet):
                return '%r instead of a sheet' % (sh,)
            if objs[i] is not None and objs[i] is not sh:
                return 'another object for sheet %d, which stayed loaded' % i
            objs[i] = sh
            loaded[i] = True
            return check_sheet(sh, sheets[i][0], sheets[i][1], i)

        def access(i, o, op):
            if not loaded[i] and released:
                if o[0] != 'exc' or o[1] != 'XLRDError':
                    return 'loading after release: %r' % (o,)
                return None
            if o[0] != 'ok':
                return 'fails with %r' % (o[1:],)
            return got(i, o[1], op)

        def listed(o):
            if released and not all(loaded):
                for i in range(n):
                    if not loaded[i]:
                        break
                if o[0] != 'exc' or o[1] != 'XLRDError':
                    return 'loading after release: %r' % (o,)
                return None
            if o[0] != 'ok':
                return 'fails with %r' % (o[1:],)
            if len(o[1]) != n:
                return '%d sheets instead of %d' % (len(o[1]), n)
            for i in range(n):
                r = got(i, o[1][i], 'list')
                if r:
                    return r

        def withblock(fail):
            class Boom(Exception):
                pass
            try:
                with bk as b:
                    if b is not bk:
                        return 'with gives another object'
                    if fail:
                        raise Boom()
            except Boom:
                if not fail:
                    return 'raised'
            else:
                if fail:
                    return 'the exception of the with block is lost'
        if (bk.nsheets, bk.sheet_names()) != (n, names):
            return 'sheets %r, expected %r' % ((bk.nsheets, bk.sheet_names()), names)
        if released and use in ('path', 'nomap') and (mapped(path) or fds(path)):
            return 'the file is still open after all sheets were loaded'
        for _ in range(rng.choice([2, 5, 12])):
            i = rng.randrange(n)
            op = rng.choice(['index', 'index', 'name', 'item', 'itemname', 'iter', 'sheets', 'loaded', 'loaded', 'loadedname', 'unload', 'unload', 'unloadname', 'names', 'unknown',
                             'edit'] + ['release', 'with', 'withexc'] * (rng.random() < .4))
            hist.append('%s %d' % (op, i))
            r = None
            if op == 'index':
                r = access(i, outcome(bk.sheet_by_index, i), op)
            elif op == 'name':
                r = access(i, outcome(bk.sheet_by_name, names[i]), op)
            elif op == 'item':
                r = access(i, outcome(lambda: bk[i]), op)
            elif op == 'itemname':
                r = access(i, outcome(lambda: bk[names[i]]), op)
            elif op == 'iter':
                if released and not all(loaded):
                    it = iter(bk)
                    for j in range(n):
                        o = outcome(next, it)
                        r = access(j, o, op)
                        if r or o[0] == 'exc':
                            break
                else:
                    r = listed(outcome(lambda: list(bk)))
            elif op == 'sheets':
                r = listed(outcome(bk.sheets))
            elif op == 'edit':
                if all(loaded) or not released:
                    l = bk.sheets()
                    r = listed(('ok', list(l)))
                    del l[:]
                ns = bk.sheet_names()
                ns[:] = ['changed']
                if not r and bk.sheet_names() != names:
                    r = 'the list of names is not a copy'
            elif op == 'loaded':
                o = outcome(bk.sheet_loaded, i)
                if o != ('ok', loaded[i]):
                    r = 'gives %r' % (o,)
            elif op == 'loadedname':
                o = outcome(bk.sheet_loaded, names[i])
                if o != ('ok', loaded[i]):
                    r = 'gives %r' % (o,)
            elif op in ('unload', 'unloadname'):
                o = outcome(bk.unload_sheet, i if op == 'unload' else names[i])
                if o != ('ok', None):
                    r = 'gives %r' % (o,)
                loaded[i] = False
                objs[i] = None
            elif op == 'names':
                if bk.sheet_names() != names:
                    r = 'gives %r' % (bk.sheet_names(),)
            elif op == 'unknown':
                nm = rng.choice([x for x in NAMEPOOL + ['', 'sHEET1', 'nope', names[0] + ' ', ' ' + names[0], names[0].upper(), names[0].lower(), None, 1.0] if x not in names])
                for f in (bk.sheet_by_name, bk.sheet_loaded, bk.unload_sheet, bk.__getitem__):
                    o = outcome(f, nm)
                    if o[:2] != ('exc', 'XLRDError'):
                        r = '%s(%r) gives %r' % (f.__name__, nm, o)
            elif op in ('release', 'with', 'withexc'):
                r = None
                if op == 'release':
                    o = outcome(bk.release_resources)
                    if o != ('ok', None):
                        r = 'gives %r' % (o,)
                else:
                    r = withblock(op == 'withexc')
                released = True
                if not r and use in ('path', 'nomap') and (mapped(path) or fds(path)):
                    r = 'leaves the file open'
            if r:
                return '%s: %s (history: %s)' % (op, r, '; '.join(hist))
            for j in range(n):
                if objs[j] is not None and loaded[j]:
                    q = check_sheet(objs[j], sheets[j][0], sheets[j][1], j)
                    if q:
                        return 'after %s: %s' % ('; '.join(hist), q)
        return None


# ------------------------------------------------------------------ C21
DESC = {'xlsx': 'Excel xlsx file', 'xlsb': 'Excel 2007 xlsb file', 'ods': 'Openoffice.org ODS file', 'zip': 'Unknown ZIP file'}


def zipped(rng):
    keys = {'xl/workbook.xml': 'xlsx', 'xl/workbook.bin': 'xlsb', 'content.xml': 'ods'}
    names = ['[Content_Types].xml', 'xl/styles.xml', 'mimetype', 'a/content.xml', 'xl/workbook.xml.rels', 'xl/_rels/workbook.xml.rels', 'workbook.xml', 'xl/workbook.xm', 'content.xmlx',
             'xl/worksheets/sheet1.xml']
    have = [k for k in keys if rng.random() < .35]
    mem = [n for n in names if rng.random() < .3]

    def variant(n):
        if rng.random() < .4:
            n = ''.join(rng.choice([c.upper(), c.lower(), c]) for c in n)
        if rng.random() < .4:
            n = n.replace('/', '\\')
        return n
    allm = [variant(n) for n in have + mem]
    rng.shuffle(allm)
    b = io.BytesIO()
    z = zipfile.ZipFile(b, 'w')
    for n in allm:
        zi = zipfile.ZipInfo('x')
        zi.filename = n                     # backslashes kept
        z.writestr(zi, b'data')
    z.close()
    if not allm:
        return None, b.getvalue()           # an empty archive has another signature
    for k in ('xl/workbook.xml', 'xl/workbook.bin', 'content.xml'):
        if k in have:
            return keys[k], b.getvalue()
    return 'zip', b.getvalue()


class C21(object):
    @staticmethod
    def cases(rng, deep):
        while True:
            yield dict(kind=rng.choice(['inspect', 'inspect', 'same', 'same', 'none']), seed=rng.getrandbits(40), bv=rng.choice([80, 80, 70, 50, 45, 40, 30, 21]))

    @staticmethod
    def from_model(h):
        return []

    @staticmethod
    def test(case):
        with Scratch() as d:
            return getattr(C21, case['kind'])(case, d)

    @staticmethod
    def inspect(case, d):
        import xlrd
        rng = random.Random(case['seed'])
        MAGIC = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'
        k = rng.random()
        damaged = .8 <= k < .9
        if k < .6:
            want, data = zipped(rng)
        elif k < .8:
            want, data = 'xls', MAGIC + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 600])))
        elif k < .9:
            n = rng.randrange(8)
            data = MAGIC[:n] + bytes([MAGIC[n] ^ (1 << rng.randrange(8))]) + MAGIC[n + 1:] + b'x' * rng.choice([0, 9])
            want = None
        else:
            want = None
            data = rng.choice([MAGIC[:rng.randrange(1, 8)], b'PK\x03', b'P', b'PK\x03\x05abc', b'PK\x05\x06' + bytes(18), b'\x09\x08\x10\x00\x00\x06', b'<html>', b'\0', b'xPK\x03\x04', b'\0' + MAGIC])
        name = rng.choice(['f.xls', 'f.xlsx', 'f', 'f.ods', 'f.zip'])
        path = os.path.join(d, name)
        with open(path, 'wb') as f:
            f.write(data)
        old = os.environ.get('HOME')
        os.environ['HOME'] = d
        try:
            got = [('path', outcome(xlrd.inspect_format, path)), ('content', outcome(xlrd.inspect_format, None, data)),
                   ('content with another path', outcome(xlrd.inspect_format, os.path.join(d, 'missing'), data)),
                   ('content=', outcome(xlrd.inspect_format, content=data)), ('~', outcome(xlrd.inspect_format, os.path.join('~', name)))]
        finally:
            if old is None:
                os.environ.pop('HOME')
            else:
                os.environ['HOME'] = old
        for nm, g in got:
            if g != ('ok', want):
                return 'inspect_format by %s gives %r for a file of type %r (%r...)' % (nm, g, want, data[:12])
        if xlrd.FILE_FORMAT_DESCRIPTIONS.get(want) is None:
            return 'no description for %r' % want
        if fds(path):
            return 'inspect_format leaves the file open'
        for a in (dict(filename=path), dict(file_contents=data), dict(filename=path, use_mmap=False)):
            o = outcome(xlrd.open_workbook, logfile=io.StringIO(), **a)
            if want in DESC:
                if o != ('exc', 'XLRDError', DESC[want] + '; not supported'):
                    return 'opening a file of type %r gives %r' % (want, o)
            elif o[0] == 'exc' and 'not supported' in o[2] and 'BIFF' not in o[2]:
                return 'a file of type %r is refused with %r' % (want, o)
            elif damaged and o[:2] != ('exc', 'XLRDError'):
                return 'a file without the signature of a compound document gives %r' % (o,)
        return None

    @staticmethod
    def none(case, d):
        """nothing to read"""
        import xlrd
        rng = random.Random(case['seed'])
        path = os.path.join(d, 'f.xls')
        k = rng.randrange(3)
        if k == 0:
            data = b''
        else:
            nm = rng.choice([['Other'], ['Workbooks', 'Books'], [], ['WordDocument', '1Table'], ['Boo']])
            nodes = [Node(n, data=bytes(rng.choice([10, 5000]))) for n in nm]
            if rng.random() < .5:
                nodes.append(Node('Sub', kids=[Node('Workbook', data=b'x' * 700), Node('Book', data=b'y' * 7000)]))
            data = cfb(rng, nodes or [Node('z', data=b'z')])[0]
        with open(path, 'wb') as f:
            f.write(data)
        for a in (dict(filename=path), dict(filename=path, use_mmap=False)) + ((dict(file_contents=data),) if data else ()):
            o = outcome(xlrd.open_workbook, logfile=io.StringIO(), on_demand=rng.random() < .5, **a)
            if o[:2] != ('exc', 'XLRDError'):
                return 'opening %s gives %r' % ('an empty file' if not data else 'a compound document without workbook stream', o)
        return None

    @staticmethod
    def same(case, d):
        import xlrd
        rng = random.Random(case['seed'])
        bv = case['bv']
        data, sheets = make(rng, bv)
        kw = dict(formatting_info=rng.random() < .5, ragged_rows=rng.random() < .3, on_demand=rng.random() < .3)
        path = os.path.join(d, 'f.xls')
        views = []
        for how in ['raw', rng.choice(['cfb', 'book']), rng.choice(['many', 'both'])]:
            file = wrap(rng, data, how)
            with open(path, 'wb') as f:
                f.write(file)
            for use in ('path', 'nomap', 'bytes', 'mmap', 'both'):
                a = dict(kw, logfile=io.StringIO())
                if use in ('path', 'nomap'):
                    a.update(filename=path, use_mmap=use == 'path')
                elif use == 'bytes':
                    a.update(file_contents=file)
                elif use == 'both':
                    a.update(file_contents=file, filename=rng.choice([os.path.join(d, 'missing.xls'), 'x', __file__]))
                else:
                    with open(path, 'rb') as f:
                        a.update(file_contents=mmap.mmap(f.fileno(), len(file), access=mmap.ACCESS_READ))
                o = outcome(xlrd.open_workbook, **a)
                if o[0] != 'ok':
                    return 'a valid workbook (%s, %s) cannot be opened: %r' % (how, use, o[1:])
                bk = o[1]
                o = outcome(bk.sheets)
                if o[0] != 'ok':
                    return 'the sheets of a valid workbook (%s, %s) cannot be loaded: %r' % (how, use, o[1:])
                if bk.sheet_names() != [s[0] for s in sheets]:
                    return 'sheets %r instead of %r (%s, %s)' % (bk.sheet_names(), [s[0] for s in sheets], how, use)
                for i, (nm, c) in enumerate(sheets):
                    r = check_sheet(o[1][i], nm, c, i)
                    if r:
                        return '%s (%s, %s)' % (r, how, use)
                v = view(bk)
                bk.release_resources()
                if views:
                    r = diff(views[0][1], v)
                    if r:
                        return 'the workbook read as %s differs from that read as %s: %s' % ((how, use), views[0][0], r)
                views.append(((how, use), v))
        return None
