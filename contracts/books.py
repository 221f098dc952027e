"""Contracts on opening a file (C21) and on the sheets of an open workbook (C23)."""
from .common import *
from .walk import noexc, book, opening, same_seq, BK, XERR
import xlrd
import xlrd.book
import xlrd.sheet
import xlrd.compdoc
from pyvc.values import SpecFn


# ------------------------------------------------------------------ C23
class Slots(object):
    """the sheet list: slot k holds its sheet, or None while it is not loaded"""

    def __init__(self, e, released=0):
        self.e = e
        self.n = e.int('nsheets', lo=0).t
        self.LOADED = z3.Function(e.name('loaded'), IntS, BoolS)
        self.cache = {}
        self.calls = []
        self.upto = None
        self.list = SymList('objfn', [], self.n, name='sheets')
        self.reset()
        self.names = SymList('str', [z3.Array(e.name('names'), IntS, Str)], self.n, name='names')
        self.book = book(_sheet_list=self.list, _sheet_names=self.names, nsheets=mkint(self.n), _resources_released=released)

    def reset(self):
        self.list.ln = self.n
        self.list.mkobj = lambda it, i: self.at(i)

    def obj(self, i, new=False):
        i = z3.simplify(T(i))
        k = (i.sexpr(), new)
        if k not in self.cache:
            o = self.cache[k] = PObj(xlrd.sheet.Sheet, {}, name='sheet')
            o.index, o.new = i, new
        return self.cache[k]

    def at(self, i):
        if self.e.branch(self.LOADED(T(i))):
            return self.obj(i)
        if self.upto is not None and self.e.branch(T(i) < self.upto):
            return self.obj(i, True)
        return None

    def get_sheet(self, it, a, k):
        b = a[0]
        self.e.prove('sheets are loaded into the slot of their number', b is self.book and (len(a) < 3 or a[2] is True) and not k)
        self.calls.append(a[1])
        if it.truth(b.attrs['_resources_released']):
            it.throw(XERR, "Can't load sheets after releasing resources.")
        o = self.obj(a[1], True)
        it.setitem(b.attrs['_sheet_list'], a[1], o)
        return o

    def same(self, name, v, i, loaded):
        """v is the sheet of slot i"""
        e = self.e
        e.prove(name, isinstance(v, PObj) and hasattr(v, 'index'))
        e.prove(name + ': position', v.index == T(i))
        e.prove(name + ': the one already loaded', z3.BoolVal(v.new) == z3.Not(loaded))

    def untouched(self, it, but=None):
        """the other slots are as they were"""
        e = self.e
        w = T(e.int('w', lo=0))
        if not e.branch(z3.And(w < self.n, w != T(but)) if but is not None else w < self.n):
            return
        v = it.sym_elem(self.book.attrs['_sheet_list'], w)
        if e.branch(self.LOADED(w)):
            e.prove('other sheets stay loaded', v is not None and not v.new)
            e.prove('other sheets stay where they are', v.index == w)
        else:
            e.prove('other sheets are not loaded', v is None)


def access(how):
    def unit(e):
        """a sheet is asked for by number or by name"""
        it = Interp(e)
        s = Slots(e, released=e.boolean('released'))
        it.contracts[it.resolve(BK + 'get_sheet')] = s.get_sheet
        q = e.str('name')
        k = e.int('k', lo=0)
        if how in ('index', 'item'):
            e.assume(k.t < s.n)
            out = it.outcome(BK + ('sheet_by_index' if how == 'index' else '__getitem__'), s.book, k)
        else:
            out = it.outcome(BK + ('sheet_by_name' if how == 'name' else '__getitem__'), s.book, q)
        w = T(e.int('w2', lo=0))
        rel = B(s.book.attrs['_resources_released'])

        def isname(i):
            return z3.Select(s.names.arrays[0], i) == text(it, q)
        if how in ('name', 'item[name]'):
            if out[0] == 'exc' and not s.calls:
                e.cover('no such name')
                e.prove('an unknown name raises XLRDError', exc_is(out, 'XLRDError'))
                e.prove('no sheet has the name', z3.Implies(w < s.n, z3.Not(isname(w))))
                return s.untouched(it)
        if out[0] == 'exc':
            e.prove('XLRDError', exc_is(out, 'XLRDError') and len(s.calls) == 1)
            i = T(s.calls[0])
            e.cover('released')
            e.prove('only a sheet that is not loaded, after the resources were released', z3.And(rel, z3.Not(s.LOADED(i)), i >= 0, i < s.n))
            e.prove('the sheet asked for', i == k.t if how in ('index', 'item') else isname(i))
            return s.untouched(it)
        v = out[1]
        i = v.index if isinstance(v, PObj) and hasattr(v, 'index') else k.t
        loaded = s.LOADED(i)
        s.same('the sheet', v, i, loaded)
        e.prove('the sheet asked for', i == k.t if how in ('index', 'item') else z3.And(i >= 0, i < s.n, isname(i), z3.Implies(w < i, z3.Not(isname(w)))))
        e.cover('new' if v.new else 'loaded before')
        e.prove('loaded only when needed', z3.And(z3.BoolVal(len(s.calls) <= 1), loaded == z3.BoolVal(not s.calls)))
        if v.new:
            e.prove('not after the resources were released', z3.Not(rel))
            r = it.sym_elem(s.book.attrs['_sheet_list'], i)
            e.prove('the sheet stays loaded', r is v)
        s.untouched(it, i)
    return named(unit, 'access[%s]' % how)


def all_sheets(how):
    def unit(e):
        """sheets(), and iteration over the workbook: every sheet, in order, loading those that are not loaded"""
        it = Interp(e)
        s = Slots(e, released=e.boolean('released'))
        it.contracts[it.resolve(BK + 'get_sheet')] = s.get_sheet
        rel = B(s.book.attrs['_resources_released'])
        ys = []
        e.ghost['yield_hook'] = lambda it_, v: ys.append(v)

        def inv(L):
            if L.phase == 'head':
                s.upto = L.i
            return [('number of sheets', T(s.list.ln) == s.n), ('no sheet is missing', z3.Implies(z3.And(rel, ww < T(L.i)), s.LOADED(ww)))]
        ww = T(e.int('ww', lo=0))

        def begin(L):
            s.calls.clear()
            ys.clear()

        def end(L):
            i = L.i - 1
            e.cover('sheet')
            e.prove('loaded once', len(s.calls) <= 1)
            e.prove('loaded when it is not loaded', z3.BoolVal(bool(s.calls)) == z3.Not(s.LOADED(i)))
            if s.calls:
                e.prove('loaded into its place', T(s.calls[0]) == i)
            w = T(e.int('w', lo=0))
            got = it.sym_elem(s.book.attrs['_sheet_list'], w)
            if how == 'iter':
                e.prove('one sheet at a time', len(ys) == 1)
                s.same('the sheet', ys[0], i, s.LOADED(i))
            if e.branch(w < L.i):
                e.prove('a sheet is loaded', got is not None)
                e.prove('it is the sheet of its place', got.index == w)
                e.prove('sheets loaded before stay', z3.BoolVal(got.new) == z3.Not(s.LOADED(w)))
            elif e.branch(w < s.n):
                e.prove('the rest is as before', (z3.BoolVal(got is not None)) == s.LOADED(w))
        it.loop_specs.append(LoopSpec('sheets', kind='for', inv=inv, modifies=lambda L: [(s.list, None, lambda L: s.reset())], body_hook=begin))
        it.loop_specs[-1].end_hook = end
        out = it.outcome(BK + ('sheets' if how == 'sheets' else '__iter__'), s.book)
        if out[0] == 'exc':
            e.cover('released')
            e.prove('XLRDError', exc_is(out, 'XLRDError') and len(s.calls) == 1)
            e.prove('only a sheet that is not loaded, after the resources were released', z3.And(rel, z3.Not(s.LOADED(T(s.calls[0])))))
            return
        e.cover('all')
        e.prove('every sheet', s.upto == s.n)
        if how == 'sheets':
            r = out[1]
            e.prove('a list of its own', isinstance(r, SymList) and r is not s.book.attrs['_sheet_list'])
            e.prove('all the sheets', T(r.ln) == s.n)
            w = T(e.int('w', lo=0))
            if e.branch(w < s.n):
                v = it.sym_elem(r, w)
                s.same('the list', v, w, s.LOADED(w))
    return named(unit, 'all_sheets[%s]' % how)


def state(meth, how):
    def unit(e):
        """sheet_loaded and unload_sheet"""
        it = Interp(e)
        s = Slots(e, released=e.boolean('released'))
        it.contracts[it.resolve(BK + 'get_sheet')] = s.get_sheet
        q = e.str('name')
        k = e.int('k', lo=0)
        e.assume(k.t < s.n)
        out = it.outcome(BK + meth, s.book, k if how == 'index' else q)
        w = T(e.int('w2', lo=0))

        def isname(i):
            return z3.Select(s.names.arrays[0], i) == text(it, q)
        e.prove('nothing is loaded', not s.calls)
        if out[0] == 'exc':
            e.cover('no such name')
            e.prove('an unknown name raises XLRDError', exc_is(out, 'XLRDError') and how == 'name')
            e.prove('no sheet has the name', z3.Implies(w < s.n, z3.Not(isname(w))))
            return s.untouched(it)
        e.cover('ok')
        st = getattr(s.list, 'stored', ())
        if meth == 'unload_sheet':
            e.prove('one sheet is dropped', len(st) == 1 and st[0][1] is None)
            i = st[0][0]
            e.prove('the sheet asked for', i == k.t if how == 'index' else z3.And(isname(i), i < s.n, z3.Implies(w < i, z3.Not(isname(w)))))
            return s.untouched(it, i)
        e.prove('nothing changes', not st)
        r = out[1]
        e.prove('True or False', isinstance(r, (bool, SBool)))
        if how == 'index':
            e.prove('whether the sheet is loaded', B(r) == s.LOADED(k.t))
        else:
            # the first sheet with the name: an arbitrary index known to be it
            i = T(e.int('i', lo=0))
            if e.branch(z3.And(i < s.n, isname(i))):
                h = z3.Int(e.name('h'))
                e.assume(z3.ForAll([h], z3.Implies(z3.And(h >= 0, h < i), z3.Not(isname(h)))))
                e.cover('first')
                e.prove('whether the sheet is loaded', B(r) == s.LOADED(i))
    return named(unit, '%s[%s]' % (meth, how))


def sheet_names(e):
    it = Interp(e)
    s = Slots(e)
    r = noexc(e, it.outcome(BK + 'sheet_names', s.book))
    e.prove('a list of its own', isinstance(r, SymList) and r is not s.names)
    w = T(e.int('w', lo=0))
    e.prove('as many as sheets', T(r.ln) == s.n)
    if e.branch(w < s.n):
        e.prove('the names', text(it, it.sym_elem(r, w)) == z3.Select(s.names.arrays[0], w))
    e.cover('ok')


def release(how):
    def unit(e):
        """release_resources, and the end of a with block"""
        it = Interp(e)
        closed = []

        def content(nm):
            k = e.choose(nm, 3)
            if k == 0:
                return None
            if k == 1:
                return e.seq(nm, 'bytes', inp=False)
            o = PObj(None, {}, name=nm)
            o.attrs['close'] = SpecFn(lambda it_, a, k: closed.append(o))
            return o
        mem = content('mem')
        fs = mem if isinstance(mem, PObj) and e.choose('same') else content('filestr')
        lst = PList([1])
        b = book(mem=mem, filestr=fs, _sharedstrings=PList([]), _rich_text_runlist_map=PDict(), _resources_released=0, _sheet_list=lst)

        def check():
            e.prove('maps are closed', all(x in closed for x in (mem, fs) if isinstance(x, PObj)))
            a = b.attrs
            e.prove('contents are dropped', a['mem'] is None and a['filestr'] is None and a['_sharedstrings'] is None and a['_rich_text_runlist_map'] is None)
            e.prove('marked as released', it.truth(a['_resources_released']))
            e.prove('loaded sheets stay', a['_sheet_list'] is lst and lst.items == [1])
        if how == 'release_resources':
            noexc(e, it.outcome(BK + 'release_resources', b))
            check()
            n = len(closed)
            noexc(e, it.outcome(BK + 'release_resources', b))
            e.prove('a second call does nothing', len(closed) == n)
            check()
        else:
            r = noexc(e, it.outcome(BK + '__enter__', b))
            e.prove('the workbook itself', r is b and not closed and b.attrs['mem'] is mem)
            exc = e.choose('raised')
            args = [XERR, ExcVal(XERR, ('x',)), None] if exc else [None, None, None]
            r = noexc(e, it.outcome(BK + '__exit__', b, *args))
            e.prove('exceptions of the block go on', not it.truth(r))
            check()
        e.cover('ok')
    return named(unit, how)


def lifecycle(e):
    """open_workbook_xls: what is loaded and released on return"""
    vs = [21, 30, 40, 45, 50, 70, 80]
    v = vs[e.choose('version', len(vs))]
    od = bool(e.choose('on_demand'))
    out, log, st = opening(e, v, od)
    o = noexc(e, out)
    calls = [n for n, a, k in log]
    eff = od and v >= 50
    if eff:
        e.cover('on demand')
        e.prove('nothing is loaded or released', 'get_sheets' not in calls and 'release_resources' not in calls)
    else:
        e.cover('at once')
        e.prove('released at the end', calls.count('release_resources') == 1 and calls[-1] == 'release_resources')
        if v >= 50:
            e.prove('every sheet is loaded', calls.count('get_sheets') == 1)
    a = o.attrs
    e.prove('on_demand as it applies', bool(a['on_demand']) == eff)
    names = a['_sheet_names'].items
    lst = a['_sheet_list']
    e.prove('a slot per sheet', len(lst.items) == len(names))
    e.prove('number of sheets', cint(a['nsheets']) == len(names))
    if v >= 50:
        e.prove('slots are empty before the sheets are loaded', lst.items == [None] * len(names) and (eff or st['list'] is lst))


def lifecycle_errors(e):
    """whatever goes wrong while opening, the resources are released"""
    steps = ['biff2_8_load', 'getbof', 'parse_globals', 'fake_globals_get_sheet', 'get_sheets']
    k = steps[e.choose('failing step', len(steps))]
    v = 40 if k == 'fake_globals_get_sheet' else [80, 45][e.choose('version')] if k == 'parse_globals' else 80
    od = bool(e.choose('on_demand')) if k != 'get_sheets' else False
    exc = [XERR, struct.error, AssertionError, KeyboardInterrupt][e.choose('exception', 4)]
    out, log, st = opening(e, v, od, fail=k, exc=exc)
    e.prove('the error reaches the caller', out[0] == 'exc' and out[1].cls is exc)
    e.prove('released', [n for n, a, kk in log][-1] == 'release_resources')
    e.cover('error')


C23 = [access('index'), access('item'), access('name'), access('item[name]'), all_sheets('sheets'), all_sheets('iter'),
       state('sheet_loaded', 'index'), state('sheet_loaded', 'name'), state('unload_sheet', 'index'), state('unload_sheet', 'name'),
       sheet_names, release('release_resources'), release('with'), lifecycle, lifecycle_errors]


def _walk_units():
    from . import walk
    return [walk.u_get_sheet, walk.u_get_sheet_released, walk.u_get_sheets]


C23 += _walk_units()


# ------------------------------------------------------------------ C21
def the_file(e, it, log, path_ok, data, fail_mode=True):
    """builtin open: the file at the path, read from its start (assumed contract of the operating system)"""
    def opn(it_, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        log.append('open')
        e.prove('the file is opened for reading bytes', mode == 'rb')
        path_ok(a[0])
        f = PObj(None, {}, name='file')
        st = dict(pos=z3.IntVal(0), open=True)
        f.st = st
        n = T(data.ln)

        def read(it2, a2, k2):
            e.prove('the file is open', st['open'])
            if not a2:
                ln = n - st['pos']
            else:
                e.prove('a length', T(a2[0]) >= 0)
                ln = z3.If(n - st['pos'] < T(a2[0]), n - st['pos'], T(a2[0]))
            r = Seq('bytes', arr=data.arr, off=z3.simplify(T(data.off) + st['pos']), ln=z3.simplify(ln))
            st['pos'] = st['pos'] + ln
            if e.must(z3.And(st['pos'] - ln == 0, ln == n)):
                r.whole = True
                log.append(('read whole', r))
            return r

        def seek(it2, a2, k2):
            w = cint(a2[1]) if len(a2) > 1 else 0
            if w not in (0, 2):
                raise Unsupported('seek')
            st['pos'] = T(a2[0]) + (n if w == 2 else 0)
        f.attrs.update(read=SpecFn(read), seek=SpecFn(seek), tell=SpecFn(lambda *_: mkint(st['pos'])), fileno=SpecFn(lambda *_: 3),
                       __enter__=SpecFn(lambda it2, a2, k2: f), close=SpecFn(lambda it2, a2, k2: st.update(open=False)))

        def leave(it2, a2, k2):
            st['open'] = False
            log.append('close')
        f.attrs['__exit__'] = SpecFn(leave)
        return f
    it.contracts[open] = opn


def inspect(how):
    def unit(e):
        """inspect_format: what the first bytes, and the names in a zip file, say"""
        import zipfile
        import os
        import io
        it = Interp(e)
        data = e.seq('data', 'bytes', inp=True)
        path = e.str('path')
        EXP = z3.Function('expanduser', Str, Str)
        log = []
        it.contracts[os.path.expanduser] = lambda it_, a, k: SStr(EXP(text(it, a[0])))

        def path_ok(p):
            e.prove('the path, with ~ expanded', text(it, p) == EXP(text(it, path)))
        the_file(e, it, log, path_ok, data)
        it.contracts[io.BytesIO] = lambda it_, a, k: ('bytesio', a[0])
        names = SymList('str', [z3.Array(e.name('members'), IntS, Str)], e.int('nmembers', lo=0).t, name='members')

        def zf(it_, a, k):
            log.append('zip')
            if how == 'content':
                e.prove('the content is looked into', isinstance(a[0], tuple) and a[0][0] == 'bytesio' and a[0][1] is data)
            else:
                path_ok(a[0])
            z = PObj(None, {}, name='zip')
            z.attrs['namelist'] = SpecFn(lambda *_: names)
            z.attrs['__enter__'] = SpecFn(lambda *_: z)
            z.attrs['__exit__'] = SpecFn(lambda *_: None)
            z.attrs['close'] = SpecFn(lambda *_: None)
            return z
        it.contracts[zipfile.ZipFile] = zf
        HAS = z3.Function('has_member', Str, BoolS)
        st = dict(comp=0)

        def comp(it_, x, elt, seq, sub):
            if seq is not names:
                return None
            st['comp'] += 1
            k = z3.Int(e.name('k'))
            e.assume(z3.And(k >= 0, k < names.ln))
            n = SStr(z3.Select(names.arrays[0], k))
            it.assign(x.generators[0].target, n, sub)
            key = it.eval(x.key, sub) if hasattr(x, 'key') else it.eval(elt, sub)
            want = it.call(it.getattr(it.call(it.getattr(n, 'replace'), ['\\', '/']), 'lower'), [])
            e.prove('names are compared without regard to case and kind of slash', text(it, key) == text(it, want))
            d = PObj(None, {}, name='member names')
            d.attrs['__contains__'] = SpecFn(lambda it2, a2, k2: mkbool(HAS(text(it, a2[0]))))
            return d
        e.ghost['comp_hook'] = comp
        if how == 'content':
            e.assume(T(data.ln) > 0)
            out = it.outcome('xlrd.inspect_format', content=data)
        else:
            out = it.outcome('xlrd.inspect_format', path)
        r = noexc(e, out)

        def starts(sig):
            return z3.And(T(data.ln) >= len(sig), *[byte(e, data, i) == x for i, x in enumerate(sig)])
        xls, zipped = starts(b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'), starts(b'PK\x03\x04')
        has = lambda s: HAS(strlit(s))
        e.cover(str(r))
        if how == 'content':
            e.prove('no file is opened', 'open' not in log)
        e.prove('only known results', r in (None, 'xls', 'xlsx', 'xlsb', 'ods', 'zip'))
        b = {'xls': xls, None: z3.And(z3.Not(xls), z3.Not(zipped)), 'xlsx': z3.And(zipped, has('xl/workbook.xml')),
             'xlsb': z3.And(zipped, has('xl/workbook.bin'), z3.Not(has('xl/workbook.xml'))),
             'ods': z3.And(zipped, has('content.xml'), z3.Not(has('xl/workbook.xml')), z3.Not(has('xl/workbook.bin'))),
             'zip': z3.And(zipped, z3.Not(has('xl/workbook.xml')), z3.Not(has('xl/workbook.bin')), z3.Not(has('content.xml')))}
        e.prove('format', b[r])
        if r not in ('xls', None):
            e.prove('the names of the zip file decide', st['comp'] == 1 and log.count('zip') == 1)
    return named(unit, 'inspect_format[%s]' % how)


def open_any(e):
    """open_workbook: other formats are refused by name; the rest is read with the arguments given"""
    it = Interp(e)
    fmts = [None, 'xls', 'xlsx', 'xlsb', 'ods', 'zip']
    fmt = fmts[e.choose('format', len(fmts))]
    mark = {nm: PObj(None, {}, name=nm) for nm in ('filename', 'logfile', 'verbosity', 'use_mmap', 'file_contents', 'encoding_override', 'formatting_info', 'on_demand',
                                                  'ragged_rows', 'ignore_workbook_corruption')}
    calls = []

    def insp(it_, a, k):
        d = dict(zip(('path', 'content'), a))
        d.update(k)
        e.prove('the file to open is inspected', d.get('path') is mark['filename'] and d.get('content') is mark['file_contents'])
        return fmt
    it.contracts[it.resolve('xlrd.inspect_format')] = insp
    bk = PObj(xlrd.book.Book, {}, name='book')
    names = ['filename', 'logfile', 'verbosity', 'use_mmap', 'file_contents', 'encoding_override', 'formatting_info', 'on_demand', 'ragged_rows',
             'ignore_workbook_corruption']

    def opn(it_, a, k):
        d = dict(zip(names, a))
        d.update(k)
        calls.append(d)
        return bk
    it.contracts[it.resolve('xlrd.book.open_workbook_xls')] = opn
    out = it.outcome('xlrd.open_workbook', **mark)
    desc = {'xlsx': 'Excel xlsx file', 'xlsb': 'Excel 2007 xlsb file', 'ods': 'Openoffice.org ODS file', 'zip': 'Unknown ZIP file'}
    if fmt in desc:
        e.cover('refused')
        e.prove('refused with XLRDError', exc_is(out, 'XLRDError') and not calls)
        e.prove('the message names the format', len(out[1].args) == 1 and isinstance(out[1].args[0], str) and out[1].args[0] == desc[fmt] + '; not supported')
    else:
        e.cover('opened')
        r = noexc(e, out)
        e.prove('the workbook', r is bk and len(calls) == 1)
        for nm in names:
            e.prove('argument ' + nm, calls[0].get(nm) is mark[nm])


def open_passes(e):
    """open_workbook_xls hands its arguments to the loader"""
    it = Interp(e)
    mark = {nm: PObj(None, {}, name=nm) for nm in ('filename', 'logfile', 'verbosity', 'use_mmap', 'file_contents', 'encoding_override', 'formatting_info', 'on_demand',
                                                  'ragged_rows', 'ignore_workbook_corruption')}
    names = ['filename', 'file_contents', 'logfile', 'verbosity', 'use_mmap', 'encoding_override', 'formatting_info', 'on_demand', 'ragged_rows',
             'ignore_workbook_corruption']
    got = []

    def load(it_, a, k):
        d = dict(zip(names, a[1:]))
        d.update(k)
        got.append(d)
        raise PyExc(ExcVal(XERR, ('stop',)))
    it.contracts[it.resolve(BK + 'biff2_8_load')] = load
    it.contracts[it.resolve(BK + 'release_resources')] = lambda it_, a, k: None
    it.contracts[xlrd.book.perf_counter] = lambda it_, a, k: 0.0
    out = it.outcome('xlrd.book.open_workbook_xls', **mark)
    e.prove('loaded once', exc_is(out, 'XLRDError') and len(got) == 1)
    for nm in names:
        e.prove('argument ' + nm, got[0].get(nm) is mark[nm])
    e.cover('ok')


def load(e):
    """Book.biff2_8_load: the stream to read"""
    import mmap
    it = Interp(e)
    data = e.seq('data', 'bytes', inp=False)
    path = e.str('path')
    log = []
    given = e.choose('contents given')
    use_mmap = bool(e.choose('use_mmap'))
    mark = {nm: PObj(None, {}, name=nm) for nm in ('encoding_override', 'formatting_info', 'on_demand', 'ragged_rows', 'ignore')}

    def path_ok(p):
        e.prove('the path', text(it, p) == text(it, path))
    the_file(e, it, log, path_ok, data)
    maps, closed = [], []

    def mp(it_, a, k):
        e.prove('the whole file is mapped for reading', use_mmap and cint(a[0]) == 3 and k.get('access') == mmap.ACCESS_READ and len(a) == 2)
        e.prove('the size', T(a[1]) == T(data.ln))
        m = Seq('bytes', arr=data.arr, off=data.off, ln=data.ln)
        m.whole = True
        maps.append(m)
        return m
    it.contracts[mmap.mmap] = mp
    found = e.choose('streams', 3)          # 0: Workbook, 1: Book, 2: neither
    res = (e.seq('stream', 'bytes', inp=False), e.int('base', lo=0), e.int('len', lo=0))
    own = e.choose('contiguous')
    asked = []

    def cdoc(it_, a, k):
        asked.append(('doc', a[0], k.get('ignore_workbook_corruption')))
        o = PObj(xlrd.compdoc.CompDoc, {}, name='doc')
        o.src = a[0]
        return o
    it.contracts[xlrd.compdoc.CompDoc] = cdoc

    def locate(it_, a, k):
        asked.append(a[1])
        if len([x for x in asked if isinstance(x, str)]) == found + 1 and found < 2:
            src = a[0].src
            return (src if own else res[0], res[1], res[2])
        return (None, 0, 0)
    it.contracts[it.resolve('xlrd.compdoc.CompDoc.locate_named_stream')] = locate
    e.assume(T(res[0].ln) > 0)
    b = PObj(xlrd.book.Book, {}, name='book')
    if given:
        e.assume(T(data.ln) > 0)
    args = dict(filename=path, file_contents=data if given else e.choose('absent') and b'' or None, logfile=None, verbosity=0, use_mmap=use_mmap,
                encoding_override=mark['encoding_override'], formatting_info=mark['formatting_info'], on_demand=mark['on_demand'],
                ragged_rows=mark['ragged_rows'], ignore_workbook_corruption=mark['ignore'])
    out = it.outcome(BK + 'biff2_8_load', b, **args)
    a = b.attrs
    ole = z3.And(T(data.ln) >= 8, *[byte(e, data, i) == x for i, x in enumerate(b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1')])
    e.prove('the file is closed again', bool(given) or (log.count('open') == 1 and 'close' in log))
    if out[0] == 'exc':
        e.prove('XLRDError', exc_is(out, 'XLRDError'))
        if asked:
            e.cover('no stream')
            return e.prove('only without a workbook stream', found == 2 and asked[1:] == ['Workbook', 'Book'])
        e.cover('empty')
        return e.prove('only for an empty file', z3.And(z3.BoolVal(not given), T(data.ln) == 0))
    for nm in ('encoding_override', 'formatting_info', 'on_demand', 'ragged_rows'):
        e.prove('argument ' + nm, a[nm] is mark[nm])

    def whole(v):
        v = it.as_view(it.lift_seq(v))
        return z3.And(v.arr == data.arr, T(v.off) == T(data.off), T(v.ln) == T(data.ln))
    e.prove('reading starts at the start of the stream', T(a['_position']) == T(a['base']))
    if not asked:
        e.cover('raw')
        e.prove('a raw stream', z3.Not(ole))
        e.prove('the whole file', z3.And(whole(a['mem']), T(a['base']) == 0, T(a['stream_len']) == T(data.ln)))
    else:
        e.cover('compound document')
        e.prove('a compound document', ole)
        e.prove('all of the file', whole(asked[0][1]))
        e.prove('ignore_workbook_corruption', asked[0][2] is mark['ignore'])
        e.prove('Workbook before Book', asked[1:] == ['Workbook', 'Book'][:found + 1])
        e.prove('the stream', a['mem'] is (asked[0][1] if own else res[0]))
        e.prove('its place', z3.And(T(a['base']) == T(res[1]), T(a['stream_len']) == T(res[2])))


C21 = [inspect('content'), inspect('path'), open_any, open_passes, load]
