"""Contracts on the sheet record loop Sheet.read: one unit per record type, for an arbitrary state of the sheet
and of the loop (C26 cell records, C31 sheet settings)."""
import ast
from .common import *
from .basics import ustr_layout, rk_value, cases8
import xlrd.sheet
import xlrd.book
import xlrd.biffh as BHM

SHEET, BOOK = xlrd.sheet.Sheet, xlrd.book.Book
S = 'xlrd.sheet.Sheet.'
TEXT, BOOL, ERR, BLANK, NUM = 1, 4, 5, 6, 2


class Env(object):
    """a sheet being read, in an arbitrary state"""

    def __init__(self, e, bv, fmt, recs, kinds=None, sheet=None, book=None):
        self.e, self.bv, self.fmt = e, bv, fmt
        self.it = it = Interp(e)
        self.puts = []
        self.calls = []
        self.writes = []
        self.recs = recs
        self.nread = 0
        self.ended = None
        pos0, mypos = e.int('bookpos', lo=0), e.int('sheetpos', lo=0)
        self.pos0, self.mypos = pos0, mypos
        self.enc = e.str('encoding')
        e.assume(text(it, self.enc) != strlit(''))
        self.book = bk = PObj(BOOK, dict(
            _position=pos0, biff_version=bv, xf_list=PList([]), _xf_epilogue_done=1, formatting_info=fmt,
            _rich_text_runlist_map=PDict(), _sharedstrings=SymList('str', [z3.Array(e.name('sst'), IntS, Str)], T(e.int('nsst', lo=0)), name='sst'),
            colour_map=PDict(), verbosity=0, logfile=None, encoding=self.enc, formatting=fmt), name='book')
        bk.attrs.update(book or {})
        self.o = PObj(SHEET, dict(
            _position=mypos, biff_version=bv, formatting_info=fmt, verbosity=0, logfile=None, number=0, name='S', book=bk,
            utter_max_rows=16384 if isinstance(bv, int) and bv < 80 else 65536, utter_max_cols=256, nrows=e.int('nrows', lo=0), ncols=e.int('ncols', lo=0),
            rich_text_runlist_map=PDict(), colinfo_map=PDict(), rowinfo_map=PDict(), merged_cells=PList([]), _ixfe=None,
            _cell_attr_to_xfx=PDict(), hyperlink_list=PList([]), hyperlink_map=PDict(), cell_note_map=PDict(),
            horizontal_page_breaks=PList([]), vertical_page_breaks=PList([]), col_label_ranges=PList([]), row_label_ranges=PList([])),
            name='sheet')
        self.o.attrs.update(sheet or {})
        self.o.attrs['put_cell'] = SpecFn(self._put)
        it.contracts[it.resolve('xlrd.book.Book.get_record_parts')] = self._next
        for nm in ('tidy_dimensions', 'update_cooked_mag_factors', 'handle_hlink', 'handle_quicktip', 'handle_obj', 'handle_txo',
                   'handle_note', 'handle_feat11', 'handle_msodrawingetc'):
            it.contracts[it.resolve(S + nm)] = self._logcall(nm)
        for nm in ('handle_format', 'handle_font', 'handle_style', 'handle_palette', 'handle_builtinfmtcount', 'handle_xf',
                   'handle_datemode', 'handle_codepage', 'handle_filepass', 'handle_writeaccess', 'handle_efont', 'handle_country'):
            f = BOOK.__dict__.get(nm)
            if f is not None:
                it.contracts[f] = self._logcall(nm)
        bk.attrs.setdefault('xf_epilogue', SpecFn(self._logcall('xf_epilogue')))
        for nm in ('handle_font', 'handle_efont', 'handle_format', 'handle_style', 'handle_palette', 'handle_xf'):
            if BOOK.__dict__.get(nm) is not None or nm in self.book.attrs:
                pass
        it.contracts[it.resolve(S + 'fixed_BIFF2_xfindex')] = self._b2xf
        it.contracts[it.resolve(S + 'string_record_contents')] = self._string
        it.contracts[it.resolve('xlrd.book.Book.derive_encoding')] = self._derive
        it.contracts[it.resolve('xlrd.formatting.nearest_colour_index')] = self._nearest
        self.outer = sp = LoopSpec('records', kind='while', kinds=kinds or {}, modifies=self._mods,
                                   match=lambda it_, node, fr: fr.qual.split('.')[1:2] == ['sheet'])
        sp.body_hook = self._begin
        sp.end_hook = self._end
        it.loop_specs.append(sp)
        e.ghost['write_hook'] = self._w
        self.post = None
        self.prep = None
        self.inner = []

    # ------------------------------------------------------ callee contracts
    def _logcall(self, nm):
        def f(it, a, k):
            self.calls.append((nm, list(a[1:]) if a and isinstance(a[0], PObj) else list(a)))
            return None
        return f

    def _put(self, it, a, k):
        if k:
            names = ['rowx', 'colx', 'ctype', 'value', 'xf_index']
            a = list(a) + [k[n] for n in names[len(a):]]
        self.puts.append(tuple(a))
        return None

    def _next(self, it, a, k):
        if self.nread >= len(self.recs):
            raise PathEnd()
        r = self.recs[self.nread]
        self.nread += 1
        return (r[0], mkint(T(r[1].length)) if not isinstance(r[1], bytes) else len(r[1]), r[1])

    def _b2xf(self, it, a, k):
        names = ['self', 'cell_attr', 'rowx', 'colx', 'true_xfx']
        d = dict(zip(names, a))
        d.update(k)
        self.calls.append(('b2xf', d))
        return self.b2result(d)

    def b2result(self, d):
        if not hasattr(self, 'b2'):
            self.b2 = self.e.int('b2xf', lo=0)
        return self.b2

    def _string(self, it, a, k):
        self.calls.append(('string', [a[1] if len(a) > 1 else k['data']]))
        self.strval = SStr(z3.Const(self.e.name('string_record'), Str))
        return self.strval

    def _derive(self, it, a, k):
        self.e.prove('encoding derived only when unknown', self.book.attrs['encoding'] is None)
        return self.denc

    def _nearest(self, it, a, k):
        self.calls.append(('nearest', list(a)))
        self.near = self.e.int('nearest', lo=0)
        return self.near

    # ------------------------------------------------------ loop plumbing
    def _mods(self, L):
        return [(o, '*', 'keep') for o in [self.o, self.book] + [v for v in self.o.attrs.values() if isinstance(v, Heap)] +
                [v for v in L.fr.vars.values() if isinstance(v, Heap)]]

    def _w(self, o, attr):
        self.writes.append((o, attr))

    def _begin(self, L):
        self.L = L
        self.writes = []
        self.puts = []
        self.calls = []
        e = self.e
        # the dictionaries local to the reader in an arbitrary state
        known = list(self.o.attrs.values()) + list(self.book.attrs.values())
        self.locals = []
        for k, v in list(L.fr.vars.items()):
            if isinstance(v, PDict) and not v.d and v.base is None and not v.log and not any(v is x for x in known):
                self.locals.append(v)
                v.base = self.local_dict
                v.is_local = True
        e.prove('reading starts at the start of the sheet', T(self.book.attrs['_position']) == T(self.mypos))
        if self.prep:
            self.prep(self)

    def local_dict(self, it, key):
        if isinstance(key, tuple):
            return self.rowinfo_base(it, key)
        return False, None

    def rowinfo_base(self, it, key):
        return False, None

    def _end(self, L):
        self.ended = 'record'
        self.e.prove('exactly the records of the item are consumed', self.nread == len(self.recs))
        self.e.cover('record')
        self.post(self)

    def run(self, post):
        self.post = post
        out = self.it.outcome(S + 'read', self.o, self.book)
        if out[0] == 'exc':
            self.e.unreachable('noexc', 'raises %s%r at %s' % (out[1].cls.__name__, out[1].args, self.e.lastloc))
        self.e.unreachable('the record does not end the sheet', repr(out))

    # ------------------------------------------------------ checks
    def only_writes(self, allowed=(), heaps=()):
        """frame: of the sheet, only these attributes are written"""
        extra = set()
        for o, a in self.writes:
            if o is self.o and a not in allowed:
                extra.add('sheet.%s' % a)
            elif o is self.book:
                extra.add('book.%s' % a)
            elif any(o is v for k, v in self.o.attrs.items() if isinstance(v, Heap)) and not any(o is h for h in heaps):
                extra.add([k for k, v in self.o.attrs.items() if v is o][0])
        self.e.prove('nothing else is changed', not extra)

    def one_put(self, want, name='cell'):
        e = self.e
        e.prove('one cell stored', len(self.puts) == 1)
        self.check_put(self.puts[0], want, name)

    def check_put(self, got, want, name='cell'):
        """want: (row, col, type or None, value, xf)"""
        e, it = self.e, self.it
        e.prove(name + '/row', T(got[0]) == T(want[0]))
        e.prove(name + '/column', T(got[1]) == T(want[1]))
        if want[2] is None:
            e.prove(name + '/type', got[2] is None)
        else:
            e.prove(name + '/type', got[2] is not None and T(got[2]) == T(want[2]))
        v = want[3]
        if isinstance(v, SFlt):
            e.prove(name + '/value is float', isinstance(got[3], (float, SFlt)))
            if getattr(self, 'vcases', None):
                e.prove_cases(name + '/value', it.to_sflt(got[3]).t == v.t, self.vcases)
            else:
                e.prove(name + '/value', it.to_sflt(got[3]).t == v.t)
        elif isinstance(v, (SStr, str)):
            e.prove(name + '/value is text', is_text(got[3]))
            if getattr(self, 'vcases', None):
                e.prove_cases(name + '/value', text(it, got[3]) == text(it, v), self.vcases)
            else:
                e.prove(name + '/value', text(it, got[3]) == text(it, v))
        else:
            e.prove(name + '/value', T(got[3]) == T(v))
        e.prove(name + '/xf index', T(got[4]) == T(want[4]))


def head(e, d):
    return u16(e, d, 0), u16(e, d, 2), u16(e, d, 4)


def cell_unit(name, rc, bvs, fmts, mk, covers=('record',)):
    """mk(e, env-factory, bv, fmt)"""
    def unit(e):
        bv = bvs[e.choose('version', len(bvs))] if len(bvs) > 1 else bvs[0]
        fmt = fmts[e.choose('formatting_info', len(fmts))] if len(fmts) > 1 else fmts[0]
        code = rc[e.choose('code', len(rc))] if len(rc) > 1 else rc[0]
        e.inputs.update(bv=bv, fmt=fmt, record=code)
        mk(e, bv, fmt, code)
    def u(e):
        unit(e)
        e.expect_covers(*covers)
    return named(u, 'Sheet.read[%s]' % name)


def data(e, lo, hi=8224, name='record'):
    d = e.seq(name, maxlen=hi)
    e.assume(d.ln >= lo)
    return d


ALL = [80, 70, 50, 45, 40, 30]
B3 = ALL


def m_number(e, bv, fmt, rc):
    d = data(e, 14)
    env = Env(e, bv, fmt, [(rc, d)])
    r, c, x = head(e, d)

    def post(env):
        env.one_put((r, c, None, SFlt(f64(u64(e, d, 6))), x))
        env.only_writes()
    env.run(post)


def m_rk(e, bv, fmt, rc):
    d = data(e, 10)
    env = Env(e, bv, fmt, [(rc, d)])
    r, c, x = head(e, d)

    def post(env):
        b = u8(e, d, 6)
        env.vcases = [z3.And(p, q) for p in (bitset(b, 1), z3.Not(bitset(b, 1))) for q in (bitset(b, 0), z3.Not(bitset(b, 0)))]
        env.one_put((r, c, None, SFlt(rk_value(env.it, d, 6)), x))
        env.only_writes()
    env.run(post)


def choose_enc(e, kw):
    """the workbook encoding is known, or derived now"""
    if e.choose('encoding known'):
        return None
    kw['book'] = dict(encoding=None)
    return e.str('derived')


def label_spec(e, env, bv, d, off, lenlen, wellformed=True):
    if bv >= 80:
        n = u16(e, d, off)
        txt, end, info = ustr_layout(e, d, off, n, off + lenlen)
        e.assume(z3.Or(n == 0, info['body'] + info['nbytes'] <= d.ln))
        e.assume(off + lenlen + 1 <= d.ln)
        return SStr(z3.If(n == 0, strlit(''), txt)), end, [n == 0] + cases8(info)
    n = u8(e, d, off) if lenlen == 1 else u16(e, d, off)
    e.assume(off + lenlen + n <= d.ln)
    enc = env['enc']
    return SStr(dec_dyn(text(env['it'], enc), d.arr, z3.IntVal(off + lenlen), n)), off + lenlen + n, None


def mk_label(e, bv, fmt, recs, **kw):
    denc = None
    if bv < 80:
        denc = choose_enc(e, kw)
    env = Env(e, bv, fmt, recs, **kw)
    if denc is not None:
        env.denc = denc
        env.enc = denc
    return env


def m_label(e, bv, fmt, rc):
    d = data(e, 8)
    env = mk_label(e, bv, fmt, [(rc, d)])
    r, c, x = head(e, d)
    want, end, cases = label_spec(e, dict(it=env.it, enc=env.enc), bv, d, 6, 2)

    def post(env):
        env.vcases = cases
        env.one_put((r, c, TEXT, want, x))
        env.only_writes()
    env.run(post)


def m_rstring(e, bv, fmt, rc):
    d = data(e, 8)
    env = mk_label(e, bv, fmt, [(rc, d)])
    r, c, x = head(e, d)
    want, end, cases = label_spec(e, dict(it=env.it, enc=env.enc), bv, d, 6, 2)
    esz = 4 if bv >= 80 else 2
    if bv >= 80:
        e.assume(z3.Not(bitset(u8(e, d, 8), 2)))      # no phonetic block in an RSTRING
        n, p0 = u16(e, d, end), end + 2
    else:
        n, p0 = u8(e, d, end), end + 1
    e.assume(end + (2 if bv >= 80 else 1) <= d.ln)
    e.assume(p0 + n * esz == d.ln)
    k = z3.Int(e.name('k'))
    e.assume(k >= 0)
    new = {}

    def ent(k):
        o = p0 + esz * k
        return (u16(e, d, o), u16(e, d, o + 2)) if bv >= 80 else (u8(e, d, o), u8(e, d, o + 1))

    def runs_ok(l, upto):
        a, b = ent(k)
        return z3.Implies(k < upto, z3.And(z3.Select(l.arrays[0], k) == a, z3.Select(l.arrays[1], k) == b))

    def inv(L):
        out = [('position', L.I('pos') == p0 + esz * L.i)]
        l = L['runlist']
        if isinstance(l, PList):
            out.append(('runs', len(l.items) == 0 and L.i == 0))
        else:
            out += [('number of runs', T(l.ln) == L.i), ('runs', runs_ok(l, L.i))]
        return [(a, z3.BoolVal(b) if isinstance(b, bool) else b) for a, b in out]

    def fac(L):
        l = SymList(('tuple', 'int', 'int'), [z3.Array(e.name('runs%d' % j), IntS, IntS) for j in range(2)],
                    z3.Int(e.name('nruns')), name='runlist')
        e.assume(l.ln >= 0)
        return l
    env.it.loop_specs.insert(0, LoopSpec('runs', names=('pos', 'runlist'), kind='for', inv=inv, kinds={'runlist': fac},
                                         keep=()))

    def post(env):
        env.vcases = cases
        env.one_put((r, c, TEXT, want, x))
        m = env.o.attrs['rich_text_runlist_map']
        e.prove('one run list', len(m.log) == 1 and not m.d)
        key, l = m.log[0]
        e.prove('run list cell', z3.And(T(key[0]) == r, T(key[1]) == c))
        if isinstance(l, PList):
            e.prove('run list', z3.And(n == 0, z3.BoolVal(len(l.items) == 0)))
        else:
            e.prove('number of runs', T(l.ln) == n)
            e.prove('every run', runs_ok(l, n))
        env.only_writes((), [m])
    env.run(post)


def m_labelsst(e, bv, fmt, rc):
    d = e.seq('record', ln=10)
    h = e.choose('rich text map', 3)
    rl = SymList(('tuple', 'int', 'int'), [z3.Array(e.name('rl%d' % j), IntS, IntS) for j in range(2)], T(e.int('nrl', lo=0)), name='rl')
    m = PDict()
    idx = i32(e, d, 6)
    if h:
        m.truthy = True
        has = (h == 1)

        def base(it, key):
            e.prove('run list looked up by string index', T(key) == idx)
            return has, rl
        m.base = base
    env = Env(e, bv, fmt, [(rc, d)], book=dict(_rich_text_runlist_map=m))
    e.assume(z3.And(idx >= 0, idx < env.book.attrs['_sharedstrings'].ln))
    sst = env.book.attrs['_sharedstrings']
    r, c, x = head(e, d)

    def post(env):
        env.one_put((r, c, TEXT, SStr(z3.Select(sst.arrays[0], idx)), x))
        om = env.o.attrs['rich_text_runlist_map']
        env.only_writes((), [om])
        want = fmt and h == 1
        if want and e.must(rl.ln > 0):
            e.cover('rich')
            e.prove('run list stored', len(om.log) == 1 and om.log[0][1] is rl)
            e.prove('run list cell', z3.And(T(om.log[0][0][0]) == r, T(om.log[0][0][1]) == c))
        elif want and not e.must(rl.ln == 0):
            e.prove('run list stored or empty', z3.Or(rl.ln == 0, z3.BoolVal(len(om.log) == 1)))
        else:
            e.prove('no run list', not om.log or (want and om.log[0][1] is rl))
    env.run(post)


def simple(layout):
    """cell records with a fixed layout"""
    def m(e, bv, fmt, rc):
        d, want = layout(e, bv, fmt, rc)
        env = Env(e, bv, fmt, [(rc, d)])

        def post(env):
            if want is None:
                e.prove('no cell stored', not env.puts)
            else:
                env.one_put(want)
            env.only_writes()
        env.run(post)
    return m


def l_boolerr(e, bv, fmt, rc):
    d = data(e, 8)
    r, c, x = head(e, d)
    e.assume(u8(e, d, 7) <= 1)
    return d, (r, c, z3.If(u8(e, d, 7) == 1, ERR, BOOL), SInt(u8(e, d, 6)), x)


def l_blank(e, bv, fmt, rc):
    d = data(e, 6)
    r, c, x = head(e, d)
    return d, ((r, c, BLANK, '', x) if fmt else None)


def multi(e, env, name, r, first, last, want, names=('pos',)):
    """a loop storing one cell per column first..last"""
    cnt = z3.If(last >= first, last - first + 1, 0)

    def entry(L):
        env.multi0 = len(env.puts)

    def body(L):
        del env.puts[:]

    def end(L):
        i = z3.simplify(L.i - 1)
        e.prove(name + '/one cell per column', len(env.puts) == 1)
        env.check_put(env.puts[0], want(i), name)
        e.cover(name + ' column')

    def exit(L):
        e.prove(name + '/every column', z3.And(z3.BoolVal(L.phase == 'exit'), L.n == cnt))
        del env.puts[:]
        env.multidone = True
    inv = lambda L: [('position', L.I('pos') == env.pos_of(L.i))] if L.has('pos') else []
    sp = LoopSpec(name, names=(), kind='for', inv=inv, exit_hook=exit, entry_hook=entry, body_hook=body,
                  modifies=lambda L: [(env.o, '*', 'keep')])
    sp.end_hook = end
    env.it.loop_specs.insert(0, sp)


def m_mulrk(e, bv, fmt, rc):
    d = data(e, 12)
    r, first = u16(e, d, 0), u16(e, d, 2)
    last = u16(e, d, z3.simplify(d.ln - 2))
    e.assume(z3.And(first <= last, d.ln == 6 + 6 * (last - first + 1)))
    env = Env(e, bv, fmt, [(rc, d)])
    env.pos_of = lambda i: 4 + 6 * i

    def want(i):
        p = 4 + 6 * i
        b = u8(e, d, p + 2)
        env.vcases = [z3.And(x, y) for x in (bitset(b, 1), z3.Not(bitset(b, 1))) for y in (bitset(b, 0), z3.Not(bitset(b, 0)))]
        return (r, first + i, None, SFlt(rk_value(env.it, d, p + 2)), u16(e, d, p))
    multi(e, env, 'MULRK', r, first, last, want)

    def post(env):
        e.prove('no further cells', not env.puts and getattr(env, 'multidone', False))
        env.only_writes()
    env.run(post)


def m_mulblank(e, bv, fmt, rc):
    d = data(e, 6)
    r, first = u16(e, d, 0), u16(e, d, 2)
    last = u16(e, d, z3.simplify(d.ln - 2))
    e.assume(z3.And(first <= last, d.ln == 6 + 2 * (last - first + 1)))
    env = Env(e, bv, fmt, [(rc, d)])
    env.pos_of = lambda i: 2 + i
    if fmt:
        multi(e, env, 'MULBLANK', r, first, last, lambda i: (r, first + i, BLANK, '', u16(e, d, 4 + 2 * i)))

    def post(env):
        e.prove('no further cells', not env.puts and (not fmt or getattr(env, 'multidone', False)))
        env.only_writes()
    env.run(post)


def fcodes(bv):
    return 6 if bv >= 50 else 0x406 if bv >= 40 else 0x206 if bv >= 30 else 6


def formula_head(e, bv, d):
    """(row, col, xf or cell_attr offset, result offset)"""
    return u16(e, d, 0), u16(e, d, 2), (u16(e, d, 4) if bv >= 30 else None), (6 if bv >= 30 else 7)


def m_formula(kind):
    def m(e, bv, fmt, rc):
        d = data(e, 16)
        r, c, x, off = formula_head(e, bv, d)
        special = z3.And(u8(e, d, off + 6) == 255, u8(e, d, off + 7) == 255)
        recs = [(fcodes(bv), d)]
        e.inputs['record'] = fcodes(bv)
        fb = u8(e, d, off)
        sdata = None
        if kind == 'number':
            e.assume(z3.Not(special))
            want = (None, SFlt(f64(u64(e, d, off))))
        else:
            e.assume(special)
            code = dict(string=0, boolean=1, error=2, empty=3)[kind]
            e.assume(fb == code)
            want = {'boolean': (BOOL, SInt(u8(e, d, off + 2))), 'error': (ERR, SInt(u8(e, d, off + 2))), 'empty': (TEXT, '')}.get(kind)
        if kind == 'string':
            sdata = e.seq('string')
            between = [None, 0x4BC, 0x221, 0x236, 0x37, 0x21, 0x36][e.choose('record between', 7)]
            e.inputs['between'] = between
            if between is not None:
                recs.append((between, data(e, 14, name='between record')))
            recs.append(([0x207, 7][e.choose('string code')], sdata))
        env = Env(e, bv, fmt, recs)

        def post(env):
            xf = x
            if bv < 30:
                b2 = [k for n, k in env.calls if n == 'b2xf']
                e.prove('cell attributes resolved once', len(b2) == 1)
                check_b2(e, env, b2[0], d, 4, r, c)
                xf = env.b2.t
            if kind == 'string':
                sc = [k for n, k in env.calls if n == 'string']
                e.prove('string record decoded', len(sc) == 1 and sc[0][0] is sdata)
                env.one_put((r, c, TEXT, env.strval, xf))
            else:
                env.one_put((r, c, want[0], want[1], xf))
            env.only_writes()
        env.run(post)
    return m


def check_b2(e, env, kw, d, off, r, c, true=None, attr=True):
    e.prove('cell attributes/row', T(kw['rowx']) == T(r))
    e.prove('cell attributes/column', T(kw['colx']) == T(c))
    if attr:
        a = kw['cell_attr']
        e.prove('cell attributes/length', T(a.length) == 3)
        for j in range(3):
            e.prove('cell attributes/byte %d' % j, byte(e, a, j) == u8(e, d, off + j) if a.items is not None else
                    e.sel(a.arr, z3.simplify(T(a.off) + j)) == u8(e, d, off + j))
    if true is None:
        e.prove('cell attributes/no explicit xf', kw.get('true_xfx') is None)
    else:
        e.prove('cell attributes/explicit xf', T(kw['true_xfx']) == true)


def b2cell(ln, exact, mkwant):
    def m(e, bv, fmt, rc):
        d = e.seq('record', ln=ln) if exact else data(e, ln)
        env = mk_label(e, bv, fmt, [(rc, d)]) if mkwant is w_label2 else Env(e, bv, fmt, [(rc, d)])
        r, c = u16(e, d, 0), u16(e, d, 2)
        want = mkwant(e, env, d)

        def post(env):
            b2 = [k for n, k in env.calls if n == 'b2xf']
            if want is None or (want[0] == BLANK and not fmt):
                e.prove('no cell stored', not env.puts and not b2)
            else:
                e.prove('cell attributes resolved once', len(b2) == 1)
                check_b2(e, env, b2[0], d, 4, r, c)
                env.one_put((r, c, want[0], want[1], env.b2.t))
            env.only_writes()
        env.run(post)
    return m


def w_label2(e, env, d):
    n = u8(e, d, 7)
    e.assume(8 + n <= d.ln)
    return TEXT, SStr(dec_dyn(text(env.it, env.enc), d.arr, z3.IntVal(8), n))


def w_boolerr2(e, env, d):
    e.assume(u8(e, d, 8) <= 1)
    return z3.If(u8(e, d, 8) == 1, ERR, BOOL), SInt(u8(e, d, 7))


BK = [0, 1]
C26 = [
    cell_unit('NUMBER', [0x203], ALL, BK, m_number),
    cell_unit('RK', [0x27E], ALL, BK, m_rk),
    cell_unit('MULRK', [0xBD], [80, 70, 50], BK, m_mulrk, ('record', 'MULRK column')),
    cell_unit('LABEL', [0x204], ALL, BK, m_label),
    cell_unit('RSTRING', [0xD6], [80, 70, 50], BK, m_rstring),
    cell_unit('LABELSST', [0xFD], [80], BK, m_labelsst, ('record', 'rich')),
    cell_unit('BOOLERR', [0x205], ALL, BK, simple(l_boolerr)),
    cell_unit('BLANK', [0x201], ALL, BK, simple(l_blank)),
    cell_unit('MULBLANK', [0xBE], [80, 70, 50], BK, m_mulblank, ('record', 'MULBLANK column')),
    cell_unit('FORMULA number', [6], ALL + [21], BK, m_formula('number')),
    cell_unit('FORMULA string', [6], ALL + [21], [1], m_formula('string')),
    cell_unit('FORMULA boolean', [6], ALL + [21], BK, m_formula('boolean')),
    cell_unit('FORMULA error', [6], ALL + [21], BK, m_formula('error')),
    cell_unit('FORMULA empty text', [6], ALL + [21], BK, m_formula('empty')),
    cell_unit('NUMBER BIFF2', [3], [21, 20], BK, b2cell(15, True, lambda e, env, d: (None, SFlt(f64(u64(e, d, 7)))))),
    cell_unit('INTEGER', [2], [21, 20], BK, b2cell(9, True, lambda e, env, d: (None, SFlt(i2f(u16(e, d, 7)))))),
    cell_unit('LABEL BIFF2', [4], [21, 20], BK, b2cell(8, False, w_label2)),
    cell_unit('BOOLERR BIFF2', [5], [21, 20], BK, b2cell(9, True, w_boolerr2)),
    cell_unit('BLANK BIFF2', [1], [21, 20], BK, b2cell(7, False, lambda e, env, d: (BLANK, ''))),
]


# ------------------------------------------------------------------ C31: settings of the sheet
def attr(env, name):
    return env.o.attrs[name]


def plain(lo, want, exact=False, hi=8224, fmtonly=False, pre=None, heaps=()):
    """record whose fields go to attributes; want(e, d, bv) -> {attr: term}"""
    def m(e, bv, fmt, rc):
        d = e.seq('record', ln=lo) if exact else data(e, lo, hi)
        env = Env(e, bv, fmt, [(rc, d)])
        if pre:
            pre(e, d, bv)

        def post(env):
            e.prove('no cell', not env.puts)
            w = want(e, d, bv) if (fmt or not fmtonly) else {}
            for k, t in w.items():
                e.prove(k + ' set', k in env.o.attrs)
                g = env.o.attrs[k]
                if t is None:
                    e.prove(k, g is None)
                elif isinstance(t, tuple):
                    e.prove(k + ' shape', isinstance(g, tuple) and len(g) == len(t))
                    for j, (a, b) in enumerate(zip(g, t)):
                        e.prove('%s[%d]' % (k, j), T(a) == T(b))
                else:
                    e.prove(k, T(g) == T(t))
            env.only_writes(tuple(w))
        env.run(post)
    return m


W2 = [a for a, _ in xlrd.sheet._WINDOW2_options]
W2_SPEC = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values', 'automatic_grid_line_colour',
           'columns_from_right_to_left', 'show_outline_symbols', 'remove_splits_if_pane_freeze_is_removed', 'sheet_selected',
           'sheet_visible', 'show_in_page_break_preview']


def w_window2(e, d, bv):
    w = {a: bits(u16(e, d, 0), i, 1) for i, a in enumerate(W2_SPEC)}
    w['first_visible_rowx'], w['first_visible_colx'] = u16(e, d, 2), u16(e, d, 4)
    w['gridline_colour_index'] = u16(e, d, 6)
    w['cached_page_break_preview_mag_factor'], w['cached_normal_view_mag_factor'] = u16(e, d, 10), u16(e, d, 12)
    return w


def m_window2_old(e, bv, fmt, rc):
    b2 = rc == 0x3E
    d = data(e, 13 if b2 else 9, hi=13 if (bv >= 80) else 8224)
    env = Env(e, bv, fmt, [(rc, d)])

    def post(env):
        if b2:
            w = {a: z3.If(u8(e, d, i) == 0, 0, 1) for i, a in enumerate(W2_SPEC[:5])}
            w['first_visible_rowx'], w['first_visible_colx'], w['automatic_grid_line_colour'] = u16(e, d, 5), u16(e, d, 7), u8(e, d, 9)
            p = 10
        else:
            w = {a: bits(u16(e, d, 0), i, 1) for i, a in enumerate(W2_SPEC)}
            w['first_visible_rowx'], w['first_visible_colx'] = u16(e, d, 2), u16(e, d, 4)
            p = 6
        for k, t in w.items():
            e.prove(k, T(env.o.attrs[k]) == t)
        g = env.o.attrs['gridline_colour_rgb']
        e.prove('grid line colour shape', isinstance(g, tuple) and len(g) == 3)
        for j in range(3):
            e.prove('grid line colour[%d]' % j, T(g[j]) == u8(e, d, p + j))
        n = [a for nm, a in env.calls if nm == 'nearest']
        e.prove('nearest colour of the grid line colour', len(n) == 1 and n[0][0] is env.book.attrs['colour_map'] and n[0][1] is g)
        e.prove('grid line colour index', T(env.o.attrs['gridline_colour_index']) == env.near.t)
        env.only_writes(tuple(w) + ('gridline_colour_rgb', 'gridline_colour_index'))
    env.run(post)


def w_pane(e, d, bv):
    return dict(vert_split_pos=u16(e, d, 0), horz_split_pos=u16(e, d, 2), horz_split_first_visible=u16(e, d, 4),
                vert_split_first_visible=u16(e, d, 6), split_active_pane=u8(e, d, 8), has_pane_record=1)


def w_scl(e, d, bv):
    n, m = u16(e, d, 0), u16(e, d, 2)
    q = (n * 100) / m
    return dict(scl_mag_factor=z3.If(z3.And(m > 0, q >= 10, q <= 400), q, 100))


def w_drh(e, d, bv):
    b = u16(e, d, 0)
    return dict(default_row_height=u16(e, d, 2), default_row_height_mismatch=bits(b, 0, 1), default_row_hidden=bits(b, 1, 1),
                default_additional_space_above=bits(b, 2, 1), default_additional_space_below=bits(b, 3, 1))


def w_drh2(e, d, bv):
    return dict(default_row_height=u16(e, d, 0), default_row_height_mismatch=0, default_row_hidden=0,
                default_additional_space_above=0, default_additional_space_below=0)


def w_gcw(e, d, bv):
    return dict(gcw=tuple(bits(u8(e, d, 2 + j // 8), j % 8, 1) for j in range(256)))


def pre_gcw(e, d, bv):
    e.assume(u16(e, d, 0) == 32)


def w_dim(e, d, bv):
    if bv < 80:
        return dict(nrows=0, ncols=0, _dimnrows=u16(e, d, 2), _dimncols=u16(e, d, 6))
    return dict(nrows=0, ncols=0, _dimnrows=i32(e, d, 4), _dimncols=u16(e, d, 10))


def m_gcw(e, bv, fmt, rc):
    bv = e.int('biff_version', lo=40, hi=80)
    d = e.seq('record', ln=34)
    env = Env(e, bv, fmt, [(rc, d)])
    e.assume(u16(e, d, 0) == 32)

    def post(env):
        if fmt:
            g = env.o.attrs['gcw']
            e.prove('256 columns', isinstance(g, tuple) and len(g) == 256)
            # the columns of one byte are checked together
            for j in range(256):
                u = u32(e, d, 2 + 4 * (j // 32))
                e.prove('column flag', T(g[j]) == bits(u, j % 32, 1), assume=False)
        env.only_writes(('gcw',) if fmt else ())
    env.run(post)


ROWA = ['height', 'has_default_height', 'outline_level', 'outline_group_starts_ends', 'hidden', 'height_mismatch',
        'has_default_xf_index', 'xf_index', 'additional_space_above', 'additional_space_below']


def row_spec(b1, b2, u=None):
    if u is None:
        r = SIGNED.get(b2.get_id())
        u = r[1] if r else z3.If(b2 < 0, b2 + 2 ** 32, b2)
    has = bits(u, 7, 1)
    return dict(height=bits(b1, 0, 15), has_default_height=bits(b1, 15, 1), outline_level=bits(u, 0, 3),
                outline_group_starts_ends=bits(u, 4, 1), hidden=bits(u, 5, 1), height_mismatch=bits(u, 6, 1),
                has_default_xf_index=has, xf_index=z3.If(has == 1, bits(u, 16, 12), -1), additional_space_above=bits(u, 28, 1),
                additional_space_below=bits(u, 29, 1))


def row2_spec(b1, b2, xf):
    return dict(height=bits(b1, 0, 15), has_default_height=bits(b1, 15, 1), has_default_xf_index=bits(b2, 0, 1), xf_index=xf,
                outline_level=0, outline_group_starts_ends=0, hidden=0, height_mismatch=0, additional_space_above=0,
                additional_space_below=0)


def rowkey_spec(key):
    if len(key) == 2:
        return row_spec(T(key[0]), T(key[1]))
    return row2_spec(T(key[0]), T(key[1]), T(key[2]))


def m_row(e, bv, fmt, rc):
    b2rec = rc == 8
    long2 = b2rec and e.choose('with XF index')
    d = e.seq('record', ln=18) if long2 else data(e, 16, 17 if b2rec else 8224)
    cls = xlrd.sheet.Rowinfo
    env = Env(e, bv, fmt, [(rc, d)])
    bases = []

    def base(it, key):
        """the sharing dictionary in an arbitrary state: every entry is determined by its key"""
        for k2, p2, r2 in bases:
            if all(x is y for x, y in zip(k2, key)):
                return p2, r2
        r = PObj(cls, {a: mkint(t) if not isinstance(t, int) else t for a, t in rowkey_spec(key).items()}, name='shared')
        p = e.boolean('shared')
        bases.append((key, p, r))
        return p, r
    env.rowinfo_base = base
    rowx = u16(e, d, 0)
    maxr = env.o.attrs['utter_max_rows']

    def post(env):
        e.prove('no cell', not env.puts)
        m = env.o.attrs['rowinfo_map']
        env.only_writes((), [m])
        if not fmt:
            e.prove('ignored', not m.log)
            return
        if not m.log:
            e.prove('ignored only outside the sheet', rowx >= maxr)
            return
        e.cover('row')
        e.prove('one row', len(m.log) == 1)
        e.prove('row index', T(m.log[0][0]) == rowx)
        e.prove('inside the sheet', rowx < maxr)
        r = m.log[0][1]
        if b2rec:
            flag = bits(u8(e, d, 10), 0, 1)
            calls = [k for n, k in env.calls if n == 'b2xf']
            if calls:
                e.prove('default attributes only with the flag', flag == 1)
                e.prove('resolved once', len(calls) == 1)
                if long2:
                    check_b2(e, env, calls[0], d, 13, rowx, -1, true=u16(e, d, 16), attr=False)
                else:
                    check_b2(e, env, calls[0], d, 13, rowx, -1)
                w = row2_spec(u16(e, d, 6), u8(e, d, 10), env.b2.t)
            else:
                e.prove('no default attributes', flag == 0)
                w = row2_spec(u16(e, d, 6), u8(e, d, 10), z3.IntVal(-1))
            if r.name == 'shared':
                pass
        else:
            w = row_spec(u16(e, d, 6), None, u32(e, d, 12))
        for a, t in w.items():
            g = r.attrs.get(a)
            if b2rec and a in ROWA and w[a] == 0 and isinstance(w[a], int):
                e.prove(a, g is None or T(g) == 0)
            else:
                e.prove(a, g is not None and T(g) == T(t))
        for loc in env.locals:
            for key, v in loc.log:
                for a, t in rowkey_spec(key).items():
                    g = v.attrs.get(a)
                    e.prove('sharing dictionary/' + a, (g is None and isinstance(t, int) and t == 0) or
                            (g is not None and T(g) == T(t)))
    env.run(post)


CIA = ['width', 'xf_index', 'hidden', 'bit1_flag', 'outline_level', 'collapsed']


def colmap(e):
    """colinfo_map in an arbitrary state"""
    m = PDict()
    cache = []
    fn = {a: z3.Function(e.name('col_' + a), IntS, IntS) for a in CIA}
    has = z3.Function(e.name('has_col'), IntS, BoolS)

    def base(it, key):
        for k, o in cache:
            if z3.eq(z3.simplify(T(k)), z3.simplify(T(key))):
                return SBool(has(T(key))), o
        o = PObj(xlrd.sheet.Colinfo, {a: SInt(fn[a](T(key))) for a in CIA}, name='colinfo')
        cache.append((key, o))
        return SBool(has(T(key))), o
    m.base = base
    m.fn, m.has = fn, has
    return m


def col_loop(e, env, m, first, last, check, name='columns'):
    """loop over columns first..last (terms): one entry per column"""
    cnt = z3.If(last >= first, last - first + 1, 0)

    def body(L):
        del m.log[:]
        del env.calls[:]

    def end(L):
        e.cover('column')
        check(z3.simplify(first + L.i - 1))

    def exit(L):
        if L.phase == 'break':
            e.prove(name + '/all columns of the sheet', first + L.i > last)
            e.prove(name + '/nothing beyond', not m.log)
        else:
            e.prove(name + '/all columns', L.n >= cnt)
            e.prove(name + '/entered', True)
        del m.log[:]
        env.coldone = True
    sp = LoopSpec(name, kind='for', inv=lambda L: [], exit_hook=exit, body_hook=body,
                  modifies=lambda L: [(m, None, lambda L: None), (m, '*', 'keep'), (env.o, '*', 'keep')] +
                  [(v, '*', 'keep') for v in L.fr.vars.values() if isinstance(v, PObj)])
    sp.end_hook = end
    env.it.loop_specs.insert(0, sp)


def m_colinfo(e, bv, fmt, rc):
    d = data(e, 10)
    m = colmap(e)
    env = Env(e, bv, fmt, [(rc, d)], sheet=dict(colinfo_map=m))
    first, last = u16(e, d, 0), u16(e, d, 2)
    top = z3.If(last > 255, 255, last)
    fl = u16(e, d, 8)
    spec = dict(width=u16(e, d, 4), xf_index=u16(e, d, 6), hidden=bits(fl, 0, 1), bit1_flag=bits(fl, 1, 1),
                outline_level=bits(fl, 8, 3), collapsed=bits(fl, 12, 1))

    def check(col):
        e.prove('one entry per column', len(m.log) == 1)
        e.prove('column index', z3.And(T(m.log[0][0]) == col, col <= 255))
        c = m.log[0][1]
        for a, t in spec.items():
            e.prove(a, T(c.attrs[a]) == t)
    col_loop(e, env, m, first, top, check)

    def post(env):
        ok = z3.And(first <= last, last <= 256)
        if getattr(env, 'coldone', False):
            e.prove('valid range', ok)
        else:
            e.prove('ignored', not m.log and (not fmt or e.must(z3.Not(ok))))
        env.only_writes((), [m])
    env.run(post)


def m_colwidth(e, bv, fmt, rc):
    d = data(e, 4)
    m = colmap(e)
    env = Env(e, bv, fmt, [(rc, d)], sheet=dict(colinfo_map=m))
    first, last = u8(e, d, 0), u8(e, d, 1)

    def check(col):
        col_entry(e, m, col, dict(width=u16(e, d, 2)))
    col_loop(e, env, m, first, last, check)

    def post(env):
        if not getattr(env, 'coldone', False):
            e.prove('ignored', not m.log and (not fmt or e.must(first > last)))
        env.only_writes((), [m])
    env.run(post)


def col_entry(e, m, col, change):
    """entry of a column: existing or new, with only `change` changed"""
    e.prove('one entry per column', len(m.log) <= 1)
    if m.log:
        e.prove('new entry only if missing', z3.And(T(m.log[0][0]) == col, z3.Not(m.has(col))))
        c = m.log[0][1]
        old = {a: getattr(xlrd.sheet.Colinfo, a) for a in CIA}
    else:
        e.prove('existing entry', m.has(col))
        c = m.base(None, SInt(col))[1]
        old = {a: m.fn[a](col) for a in CIA}
    for a in CIA:
        g = c.attrs.get(a, getattr(xlrd.sheet.Colinfo, a))
        e.prove(a, T(g) == T(change.get(a, old[a])))


def m_coldefault(e, bv, fmt, rc):
    d = data(e, 4)
    m = colmap(e)
    env = Env(e, bv, fmt, [(rc, d)], sheet=dict(colinfo_map=m))
    first, past = u16(e, d, 0), u16(e, d, 2)
    top = z3.If(past > 256, 256, past)
    e.assume(d.ln >= 4 + 3 * (past - first))
    e.assume(z3.And(first < past, past <= 256))

    def check(col):
        calls = [k for n, k in env.calls if n == 'b2xf']
        e.prove('attributes resolved once', len(calls) == 1)
        k = calls[0]
        e.prove('attributes/row', T(k['rowx']) == -1)
        e.prove('attributes/column', T(k['colx']) == col)
        a = k['cell_attr']
        off = 4 + 3 * (col - first)
        e.prove('attributes/length', T(a.length) == 3)
        for j in range(3):
            e.prove('attributes/byte %d' % j, e.sel(a.arr, z3.simplify(T(a.off) + j)) == u8(e, d, off + j))
        col_entry(e, m, col, dict(xf_index=env.b2.t))
    col_loop(e, env, m, first, z3.simplify(top - 1), check)

    def post(env):
        if not getattr(env, 'coldone', False):
            e.prove('ignored', not m.log and not fmt)
        env.only_writes((), [m])
    env.run(post)


def m_ranges(names):
    def m(e, bv, fmt, rc):
        d = data(e, 2)
        env = Env(e, bv, fmt, [(rc, d)])
        calls = []
        ends = [T(e.int('end%d' % i)) for i in range(len(names))]
        e.assume(ends[-1] == d.ln)

        def h(it, a, k):
            n = ['output_list', 'data', 'pos', 'biff_version', 'addr_size']
            kw = dict(zip(n, a))
            kw.update(k)
            calls.append(kw)
            return SInt(ends[len(calls) - 1])
        env.it.contracts[env.it.resolve('xlrd.biffh.unpack_cell_range_address_list_update_pos')] = h

        def post(env):
            on = fmt or rc != 0xE5
            e.prove('lists read', len(calls) == (len(names) if on else 0))
            pos = z3.IntVal(0)
            for i, kw in enumerate(calls):
                e.prove(names[i] + '/list', kw['output_list'] is env.o.attrs[names[i]])
                e.prove(names[i] + '/data', kw['data'] is d)
                e.prove(names[i] + '/position', T(kw['pos']) == pos)
                e.prove(names[i] + '/entry size', T(kw['addr_size']) == 8)
                pos = ends[i]
            env.only_writes()
        env.run(post)
    return m


def m_breaks(attrname, hi):
    def m(e, bv, fmt, rc):
        d = data(e, 2)
        esz = 6 if bv >= 80 else 2
        n = u16(e, d, 0)
        e.assume(d.ln == 2 + esz * n)
        arrs = [z3.Array(e.name('b%d' % j), IntS, IntS) for j in range(3)]
        n0 = z3.Int(e.name('b.len'))
        e.assume(n0 >= 0)
        lst = SymList(('tuple', 'int', 'int', 'int'), list(arrs), n0, name=attrname)
        old = list(arrs)
        env = Env(e, bv, fmt, [(rc, d)], sheet={attrname: lst})
        k = z3.Int(e.name('k'))
        e.assume(k >= 0)

        def okk(upto):
            o = 2 + esz * (k - n0)
            w = [u16(e, d, o), u16(e, d, o + 2), u16(e, d, o + 4)] if bv >= 80 else [u16(e, d, o), z3.IntVal(0), z3.IntVal(hi)]
            return z3.And(*[z3.If(k < n0, z3.Select(lst.arrays[j], k) == z3.Select(old[j], k),
                                  z3.Implies(k < upto, z3.Select(lst.arrays[j], k) == w[j])) for j in range(3)])

        def inv(L):
            g = T(lst.ln) - n0
            c = [('count', z3.And(g >= 0, g <= n)), ('elements', okk(T(lst.ln)))]
            if L.i is not None:
                c.append(('index', g == L.i))
            if L.has('pos'):
                c.append(('position', L.I('pos') == 2 + esz * g))
            return c
        env.it.loop_specs.insert(0, LoopSpec('breaks', names=('pos',), inv=inv,
                                             modifies=lambda L: [(lst, None, None), (lst, '*', 'keep'), (env.o, '*', 'keep')],
                                             match=lambda it, node, fr: getattr(env, 'L', None) is not None))

        def post(env):
            if fmt:
                e.prove('number of breaks', T(lst.ln) == n0 + n)
                e.prove('every break', okk(n0 + n))
            env.only_writes((), [lst] if fmt else [])
        env.run(post)
    return m


def m_bof(e, bv, fmt, rc):
    """an embedded chart is skipped up to and including its own EOF"""
    d = data(e, 4)
    env = Env(e, bv, fmt, [(rc, d)])
    st = {}
    first = e.int('records before EOF', lo=0)      # records inside the embedded stream before its EOF
    st['read'] = z3.IntVal(0)

    def nxt(it, a, k):
        if env.nread == 0:
            env.nread = 1
            return rc, mkint(d.ln), d
        code = e.int('code', lo=0, hi=65535)
        e.assume((code.t == 10) == (st['read'] == first.t))
        st['read'] = st['read'] + 1
        x = e.seq('inner', inp=False)
        return code, mkint(x.ln), x
    env.it.contracts[env.it.resolve('xlrd.book.Book.get_record_parts')] = nxt

    def havoc(L):
        st['read'] = z3.Int(e.name('read'))

    def inv(L):
        return [('only records before the EOF skipped', z3.And(st['read'] >= 0, st['read'] <= first.t))]

    def entry(L):
        pass
    env.it.loop_specs.insert(0, LoopSpec('embedded', kind='while', inv=inv, modifies=lambda L: [(hv, None, havoc)],
                                         kinds={'code': lambda L: e.int('c'), 'data': lambda L: e.seq('d', inp=False)},
                                         match=lambda it, node, fr: getattr(env, 'L', None) is not None))
    hv = PDict()

    def post(env):
        e.prove('everything up to the EOF is skipped', st['read'] == first.t + 1)
        e.prove('no cell', not env.puts and not env.calls)
        env.only_writes()
    env.run(post)


KNOWN_CODES = sorted(set([0x203, 0xFD, 0x204, 0xD6, 0x27E, 0xBD, 0x208, 6, 0x206, 0x406, 0x205, 0x7D, 0x55, 0x99, 0xAB, 0x201, 0xBE, 0x200, 0,
                          0x1B8, 0x800, 10, 0x5D, 0xEC, 0x1B6, 0x1C, 0x872, 0x809, 0x409, 0x209, 9, 0x8C, 0x15F, 0x221, 0x4BC, 0x1B0, 0x1B1,
                          0x225, 0xE5, 0x23E, 0xA0, 0x41, 0x1B, 0x1A]))
OLD_CODES = [0x41E, 0x1E, 0x31, 0x231, 0x293, 0x92, 0x56, 0x443, 0x243, 0x43, 0x22, 0x42, 0x2F, 0x5C, 0x44, 3, 2, 4, 5, 1, 0x45, 8, 0x24, 0x20, 0x3E]


def m_other(e, bv, fmt, rc):
    """records xlrd does not interpret leave the sheet alone"""
    d = data(e, 0)
    code = e.int('code', lo=0, hi=65535, inp=True)
    e.assume(z3.And(*[code.t != x for x in KNOWN_CODES + (OLD_CODES if bv <= 45 else [])]))
    env = Env(e, bv, fmt, [(code, d)])

    def post(env):
        e.prove('no effect', not env.puts and not env.calls)
        env.only_writes()
    env.run(post)


def m_dispatch(e, bv, fmt, rc):
    """records handed to the workbook or to another method"""
    d = data(e, 0)
    want = {0x41E: 'handle_format', 0x1E: 'handle_format', 0x31: 'handle_font', 0x231: 'handle_font', 0x293: 'handle_style', 0x92: 'handle_palette',
            0x56: 'handle_builtinfmtcount', 0x443: 'handle_xf', 0x243: 'handle_xf', 0x43: 'handle_xf', 0x22: 'handle_datemode',
            0x42: 'handle_codepage', 0x2F: 'handle_filepass', 0x5C: 'handle_writeaccess', 0x45: 'handle_efont',
            0x1B8: 'handle_hlink', 0x800: 'handle_quicktip', 0x8C: 'handle_country'}[rc]
    env = Env(e, bv, fmt, [(rc, d)])

    def post(env):
        e.prove('no cell', not env.puts)
        e.prove('handed on exactly once', [n for n, a in env.calls] == [want])
        a = env.calls[0][1]
        e.prove('with the record data', any(x is d for x in a))
        if want == 'handle_format':
            e.prove('with the record type', any(cint(x) == rc for x in a if isinstance(x, (int, SInt))))
        env.only_writes()
    for nm in (want,):
        f = BOOK.__dict__.get(nm)
        if f is None and not nm.startswith(('handle_hlink', 'handle_quicktip')):
            env.book.attrs[nm] = SpecFn(env._logcall(nm))
    env.run(post)


def m_eof(e):
    """the end of the sheet: the grid is tidied, the reader's position is restored"""
    bv = ALL[e.choose('version', len(ALL))]
    env = Env(e, bv, e.choose('fmt'), [(10, b'')])
    env.post = lambda env: e.unreachable('EOF ends the loop')
    out = env.it.outcome(S + 'read', env.o, env.book)
    if out[0] == 'exc':
        e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
    e.cover('eof')
    e.prove('grid tidied, then magnification derived', [n for n, a in env.calls] == ['tidy_dimensions', 'update_cooked_mag_factors'])
    e.prove('position restored', T(env.book.attrs['_position']) == env.pos0.t)
    e.prove('no cell', not env.puts)
    e.expect_covers('eof')


named(m_eof, 'Sheet.read[EOF]')


def u_mag(e):
    """update_cooked_mag_factors"""
    it = Interp(e)
    scl = [None, e.int('scl', lo=10, hi=400, inp=True)][e.choose('SCL record')]
    pb = e.int('preview mode', lo=0, hi=1, inp=True)
    cn, cp = e.int('cached_normal', lo=0, hi=65535, inp=True), e.int('cached_preview', lo=0, hi=65535, inp=True)
    o = PObj(SHEET, dict(show_in_page_break_preview=pb, scl_mag_factor=scl, cached_normal_view_mag_factor=cn, number=0,
                         cached_page_break_preview_mag_factor=cp, verbosity=0, logfile=None))
    out = it.outcome(S + 'update_cooked_mag_factors', o)
    if out[0] != 'ok':
        e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
    z = z3.IntVal(100) if scl is None else scl.t
    wn = z3.If(pb.t == 1, z3.If(z3.And(cn.t >= 10, cn.t <= 400), cn.t, z), z)
    wp = z3.If(pb.t == 1, z, z3.If(cp.t == 0, 60, z3.If(z3.And(cp.t >= 10, cp.t <= 400), cp.t, z)))
    e.prove('normal view', T(o.attrs['cooked_normal_view_mag_factor']) == wn)
    e.prove('page break preview', T(o.attrs['cooked_page_break_preview_mag_factor']) == wp)
    e.cover('returns')
    e.expect_covers('returns')


named(u_mag, 'update_cooked_mag_factors')

C31 = [
    cell_unit('WINDOW2 BIFF8', [0x23E], [80], BK, plain(14, w_window2)),
    cell_unit('WINDOW2', [0x23E], ALL, BK, m_window2_old),
    cell_unit('WINDOW2 BIFF2', [0x3E], [21, 20], BK, m_window2_old),
    cell_unit('PANE', [0x41], ALL + [21], BK, plain(9, w_pane)),
    cell_unit('SCL', [0xA0], ALL, BK, plain(4, w_scl, exact=True)),
    cell_unit('DEFAULTROWHEIGHT', [0x225], ALL, BK, plain(4, w_drh, hi=4)),
    cell_unit('DEFAULTROWHEIGHT short', [0x225], ALL, BK, plain(2, w_drh2, hi=2)),
    cell_unit('DEFCOLWIDTH', [0x55], ALL + [21], BK, plain(2, lambda e, d, bv: dict(defcolwidth=u16(e, d, 0)))),
    cell_unit('STANDARDWIDTH', [0x99], ALL, BK, plain(2, lambda e, d, bv: dict(standardwidth=u16(e, d, 0)))),
    cell_unit('GCW', [0xAB], [None], BK, m_gcw),
    cell_unit('DIMENSION', [0x200, 0], ALL + [21], BK, plain(14, w_dim)),
    cell_unit('DIMENSION empty', [0x200, 0], ALL + [21], BK, plain(0, lambda e, d, bv: {}, exact=True)),
    cell_unit('IXFE', [0x44], [21], BK, plain(2, lambda e, d, bv: dict(_ixfe=u16(e, d, 0)), exact=True)),
    cell_unit('ROW', [0x208], ALL, BK, m_row, ('record', 'row')),
    cell_unit('ROW BIFF2', [8], [21], BK, m_row, ('record', 'row')),
    cell_unit('COLINFO', [0x7D], ALL, BK, m_colinfo, ('record', 'column')),
    cell_unit('COLWIDTH BIFF2', [0x24], [21], BK, m_colwidth, ('record', 'column')),
    cell_unit('COLUMNDEFAULT BIFF2', [0x20], [21], BK, m_coldefault, ('record', 'column')),
    cell_unit('MERGEDCELLS', [0xE5], [80], BK, m_ranges(['merged_cells'])),
    cell_unit('LABELRANGES', [0x15F], [80], BK, m_ranges(['row_label_ranges', 'col_label_ranges'])),
    cell_unit('HORIZONTALPAGEBREAKS', [0x1B], ALL, BK, m_breaks('horizontal_page_breaks', 255)),
    cell_unit('VERTICALPAGEBREAKS', [0x1A], ALL, BK, m_breaks('vertical_page_breaks', 65535)),
    cell_unit('embedded BOF', [0x809], [80, 50], BK, m_bof),
    cell_unit('uninterpreted records', [0], ALL + [21], BK, m_other),
    cell_unit('handed on', [0x1B8, 0x800, 0x8C], [80], BK, m_dispatch),
    cell_unit('handed on BIFF2-4', [0x41E, 0x1E, 0x31, 0x231, 0x293, 0x92, 0x56, 0x443, 0x243, 0x43, 0x22, 0x42, 0x2F, 0x5C, 0x45], [45, 40, 30, 21], BK, m_dispatch),
    m_eof, u_mag,
]
# records of other kinds store no cells
C26 += [u for u in C31 if u.__name__ in ['Sheet.read[%s]' % x for x in ('embedded BOF', 'uninterpreted records', 'handed on', 'handed on BIFF2-4')]]
