"""Contracts on the formatting records: number formats (C18), colours (C19), XF/font/style records (C20), column widths (C24),
BIFF2 cell attributes (C36)."""
from .common import *
from .basics import ustr_layout, cases8
from .walk import book, noexc
from .xftables import *
import xlrd.book
import xlrd.sheet
import xlrd.biffh
import xlrd.formatting
import xlrd.formula

FM = 'xlrd.formatting.'
F = xlrd.formatting
DATE, NUMBER = 3, 2
FUN, FDT, FNU, FGE, FTX = 0, 1, 2, 3, 4


def objlist(e, name, cls=None, attrs=(), ln=None):
    """list of symbolic length whose elements are objects with arbitrary attributes"""
    n = ln if ln is not None else e.int('n_' + name, lo=0).t
    l = SymList('objfn', [], n, name=name)
    fns = {a: z3.Function(e.name(name + '_' + a), IntS, IntS) for a in attrs}
    cache = {}

    def mk(it, i):
        k = z3.simplify(T(i)).sexpr()
        if k not in cache:
            cache[k] = PObj(cls or F.Font, {a: SInt(f(T(i))) for a, f in fns.items()}, name=name + '_elem')
        return cache[k]
    l.mkobj = mk
    l.fns = fns
    return l


def dyn_text(it, enc, d, off, n):
    return dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + off), z3.simplify(T(n)))


def word(e, d, f):
    off, size, lo, n = f
    w = {1: u8, 2: u16, 4: u32}[size](e, d, off)
    return bits(w, lo, n) if (lo, n) != (0, 8 * size) else w


def spec_value(e, d, f):
    if isinstance(f, int):
        return z3.IntVal(f)
    if f[0] == 'orient':
        o = word(e, d, f[1:])
        return z3.If(o == 0, 0, z3.If(o == 1, 255, z3.If(o == 2, 90, 180)))
    if f[0] == 'if':
        return z3.If(bits(u8(e, d, f[1]), f[2], 1) == 1, f[3], f[4])
    return word(e, d, f)


def get_path(o, path):
    for p in path.split('.'):
        if p in o.attrs:
            o = o.attrs[p]
        else:
            o = getattr(o.cls, p)
    return o


def format_map(e, name='fmt'):
    """format_map in an arbitrary state: which keys exist and their classification"""
    m = PDict()
    has = z3.Function(e.name('has_' + name), IntS, BoolS)
    ty = z3.Function(e.name('ty_' + name), IntS, IntS)
    cache = {}

    def base(it, k):
        if not isinstance(k, (int, SInt)):
            return False, None
        key = z3.simplify(T(k)).sexpr()
        if key not in cache:
            cache[key] = PObj(F.Format, dict(format_key=k, type=SInt(ty(T(k))), format_str=e.str('fs')), name='format')
            e.assume(z3.And(ty(T(k)) >= 0, ty(T(k)) <= 4))
        return SBool(has(T(k))), cache[key]
    m.base = base
    m.has, m.ty = has, ty
    return m


def cell_type(m, key):
    return z3.If(z3.And(m.has(key), m.ty(key) == FDT), DATE, NUMBER)


def u_xf(bv):
    size, spec = XFSPEC[bv]

    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        e.assume(d.ln == size if bv == 21 else z3.And(d.ln >= size, d.ln <= 8224))
        fi = e.choose('formatting_info')
        first = bool(e.choose('later XF')) is False
        n = e.int('n_xf', lo=0, inp=True)
        cnt = 0 if first else e.int('xfcount', lo=1)
        xl = objlist(e, 'xf', F.XF, (), n.t)
        tm = PDict()
        fm = format_map(e)
        calls = []
        it.contracts[it.resolve(FM + 'fill_in_standard_formats')] = lambda it, a, k: calls.append(('std', a[0], len(xl.__dict__.get('appended', ()))))
        it.contracts[it.resolve(FM + 'check_colour_indexes_in_obj')] = lambda it, a, k: calls.append(('check',) + tuple(a))
        b = book(biff_version=bv, formatting_info=fi, xf_list=xl, xfcount=cnt, format_map=fm, _xf_index_to_xl_type_map=tm)
        e.inputs.update(bv=bv, fi=fi)
        out = noexc(e, it.outcome(FM + 'handle_xf', b, d))
        e.cover('stored')
        ap = getattr(xl, 'appended', ())
        e.prove('one XF appended', len(ap) == 1 and T(xl.ln) is not None and e.must(T(xl.ln) == n.t + 1))
        x = ap[0]
        e.prove('is XF', isinstance(x, PObj) and x.cls is F.XF)
        e.prove('own parts', all(isinstance(get_path(x, p), PObj) and get_path(x, p).cls is c for p, c in (
            ('alignment', F.XFAlignment), ('border', F.XFBorder), ('background', F.XFBackground), ('protection', F.XFProtection))))
        raw = spec_value(e, d, spec['format_key'])
        e.prove('xf_index', T(get_path(x, 'xf_index')) == n.t)
        e.prove('xfcount', T(b.attrs['xfcount']) == T(cnt) + 1)
        for path, f in spec.items():
            if path == 'format_key':
                e.prove('format_key', T(get_path(x, path)) == z3.If(fm.has(raw), raw, 0))
            else:
                e.prove(path, T(get_path(x, path)) == spec_value(e, d, f))
        e.prove('standard formats', [c[0] for c in calls if c[0] == 'std'] == (['std'] if bv >= 50 and first else []))
        e.prove('standard formats first', all(c[2] == 0 and c[1] is b for c in calls if c[0] == 'std'))
        e.prove('cell type entry', len(tm.log) + len(tm.d) == 1)
        k, v = (tm.log or list(tm.d.items()))[0]
        e.prove('cell type key', T(k) == n.t)
        e.prove('cell type', T(v) == cell_type(fm, raw))
        e.prove('format map kept', not fm.log and not fm.d)
        e.expect_covers('stored')
    return named(unit, 'handle_xf[BIFF%d]' % bv)


def u_check_colours(e):
    """check_colour_indexes_in_obj changes nothing but the list of colour indexes in use"""
    it = Interp(e)
    cm = PDict({8: (0, 0, 0), 64: None})
    used = PDict()
    b = book(colour_map=cm, colour_indexes_used=used)
    c1, c2 = e.int('c1', lo=0, hi=127), e.int('c2', lo=0, hi=127)
    bd = PObj(F.XFBorder, dict(top_colour_index=c1, top_line_style=e.int('ls')))
    bg = PObj(F.XFBackground, dict(fill_pattern=e.int('fp'), pattern_colour_index=c2))
    x = PObj(F.XF, dict(border=bd, background=bg, xf_index=e.int('xfi'), font_index=e.int('fi'), protection=PObj(F.XFProtection, dict(cell_locked=1))))
    wr = []
    e.ghost['write_hook'] = lambda o, a: wr.append(o)
    noexc(e, it.outcome(FM + 'check_colour_indexes_in_obj', b, x, e.int('ix')))
    e.prove('frame', all(o is used for o in wr) and not cm.log and len(cm.d) == 2)
    ent = list(used.d.items()) + used.log
    for c in (c1, c2):
        known = z3.Or(c.t == 8, c.t == 64)
        e.prove('known indexes are recorded', known == z3.Or([T(k) == c.t for k, v in ent] + [z3.BoolVal(False)]))
    e.cover('returns')
    e.expect_covers('returns')


def u_stdformats(e):
    """fill_in_standard_formats adds every standard key that has no record, with its documented class; evaluated on the
    actual tables for an arbitrary format_map"""
    it = Interp(e)
    q = e.choose('key', 84)
    have = e.choose('present')
    m = PDict()
    own = PObj(F.Format, dict(format_key=q, type=FGE, format_str='x'))
    m.d = {k: PObj(F.Format, dict(format_key=k, type=FGE, format_str='x')) for k in range(84) if k != q}
    if have:
        m.d[q] = own
    before = dict(m.d)
    noexc(e, it.outcome(FM + 'fill_in_standard_formats', book(format_map=m)))
    want = std_class(q)
    now = dict(m.d)
    for k, v in m.log:
        now[cint(k)] = v
    e.prove('others kept', all(now.get(k) is v for k, v in before.items()))
    if have or want is None:
        e.prove('nothing added', set(now) == set(before))
    else:
        e.prove('added', set(now) == set(before) | {q})
        f = now[q]
        e.prove('class', isinstance(f, PObj) and f.cls is F.Format and cint(f.attrs['type']) == want and cint(f.attrs['format_key']) == q)
        e.prove('text', f.attrs['format_str'] == STDTEXT.get(q))


# ------------------------------------------------------------------ fonts, styles
def u_font(bv):
    size = 14 if bv >= 50 else (6 if bv >= 30 else 4)

    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        e.assume(z3.And(d.ln >= size, d.ln <= 8224))
        fi = e.choose('formatting_info')
        enc = e.str('encoding')
        fl = objlist(e, 'font', F.Font)
        n0 = T(fl.ln)
        b = book(biff_version=bv, formatting_info=fi, encoding=enc, font_list=fl)
        e.ghost['nonempty'] = enc
        e.assume(strlen_nonempty(it, enc))
        if bv >= 80:
            e.assume(size + 1 <= d.ln)
            n = u8(e, d, 14)
            txt, end, info = ustr_layout(e, d, z3.IntVal(14), n, z3.IntVal(15))
            e.assume(z3.Or(n == 0, info['body'] + info['nbytes'] <= d.ln))
        else:
            e.assume(size + 1 + u8(e, d, size) <= d.ln)
        wr = []
        e.ghost['write_hook'] = lambda o, a: wr.append(o)
        e.inputs.update(bv=bv, fi=fi)
        noexc(e, it.outcome(FM + 'handle_font', b, d))
        ap = getattr(fl, 'appended', ())
        if not fi:
            e.cover('off')
            e.prove('nothing stored', not ap and not wr)
            return
        e.cover('stored')
        four = e.branch(n0 == 4)
        e.prove('fonts appended', len(ap) == (2 if four else 1))
        f = ap[-1]
        k = n0 + 1 if four else n0
        e.prove('is Font', isinstance(f, PObj) and f.cls is F.Font)
        if four:
            e.cover('dummy')
            e.prove('dummy font 4', ap[0].cls is F.Font and e.must(T(ap[0].attrs['font_index']) == 4))
        e.prove('font_index', T(f.attrs['font_index']) == k)
        op = u16(e, d, 2)
        want = dict(height=u16(e, d, 0), bold=bits(op, 0, 1), italic=bits(op, 1, 1), underlined=bits(op, 2, 1), struck_out=bits(op, 3, 1))
        if bv >= 30:
            want.update(colour_index=u16(e, d, 4), outline=bits(op, 4, 1), shadow=bits(op, 5, 1))
        else:
            want.update(colour_index=z3.IntVal(0x7FFF), outline=z3.IntVal(0), shadow=z3.IntVal(0))
        if bv >= 50:
            want.update(weight=u16(e, d, 6), escapement=u16(e, d, 8), underline_type=u8(e, d, 10), family=u8(e, d, 11), character_set=u8(e, d, 12))
        else:
            want.update(weight=z3.If(bits(op, 0, 1) == 1, 700, 400), escapement=z3.IntVal(0), underline_type=bits(op, 2, 1), family=z3.IntVal(0),
                        character_set=z3.IntVal(1))
        for a, t in want.items():
            e.prove(a, T(get_path(f, a)) == t)
        nm = f.attrs['name']
        e.prove('name is text', is_text(nm))
        if bv >= 80:
            e.prove_cases('name', text(it, nm) == z3.If(n == 0, strlit(''), txt), [n == 0] + cases8(info))
        else:
            e.prove('name', text(it, nm) == dyn_text(it, enc, d, size + 1, u8(e, d, size)))
        e.expect_covers('off', 'stored', 'dummy')
    return named(unit, 'handle_font[BIFF%d]' % bv)


def strlen_nonempty(it, s):
    return T(it.length(s)) > 0


def u_efont(e):
    it = Interp(e)
    d = e.seq('data', ln=2)
    fi = e.choose('formatting_info')
    e.inputs.update(fi=fi)
    fl = objlist(e, 'font', F.Font, ('colour_index', 'height'))
    e.assume(T(fl.ln) >= 1)
    wr = []
    e.ghost['write_hook'] = lambda o, a: wr.append((o, a))
    noexc(e, it.outcome(FM + 'handle_efont', book(formatting_info=fi, font_list=fl), d))
    if not fi:
        e.prove('nothing stored', not wr)
        return
    e.cover('stored')
    f = fl.mkobj(it, T(fl.ln) - 1)
    e.prove('only the colour of the last font', len(wr) == 1 and wr[0][0] is f and wr[0][1] == 'colour_index')
    e.prove('colour', T(f.attrs['colour_index']) == u16(e, d, 0))
    e.expect_covers('stored')


STYLES = ['Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent', 'Comma [0]', 'Currency [0]', 'Hyperlink', 'Followed Hyperlink']


def u_style(bv):
    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        e.assume(z3.And(d.ln >= 4, d.ln <= 8224))
        fi = e.choose('formatting_info')
        enc = e.str('encoding')
        m = PDict()
        has_normal = e.boolean('has Normal')
        m.base = lambda it_, k: (has_normal if k == 'Normal' else False, (1, 0))
        b = book(biff_version=bv, formatting_info=fi, encoding=enc, style_name_map=m)
        fx = u16(e, d, 0)
        zero = z3.And(d.ln == 4, u32(e, d, 0) == 0, z3.Not(has_normal.t))
        builtin = fx >= 0x8000
        e.assume(z3.Implies(z3.And(builtin, z3.Not(zero)), u8(e, d, 2) <= 9))
        if bv >= 80:
            n = u16(e, d, 2)
            txt, end, info = ustr_layout(e, d, z3.IntVal(2), n, z3.IntVal(4))
            e.assume(z3.Or(zero, builtin, n == 0, info['body'] + info['nbytes'] <= d.ln))
        else:
            n = u8(e, d, 2)
            e.assume(z3.Or(zero, builtin, 3 + n <= d.ln))
        e.inputs.update(bv=bv, fi=fi)
        noexc(e, it.outcome(FM + 'handle_style', b, d))
        if not fi:
            e.prove('nothing stored', not m.log and not m.d)
            return
        ent = list(m.d.items()) + m.log
        e.prove('one entry', len(ent) == 1 and isinstance(ent[0][1], tuple) and len(ent[0][1]) == 2)
        nm, (bi, xfx) = ent[0]
        if e.branch(zero):
            e.cover('zero record')
            e.prove('zero record is Normal', it.equal(nm, 'Normal') is True and cint(bi) == 1 and cint(xfx) == 0)
            return
        e.prove('xf index', T(xfx) == bits(fx, 0, 12))
        if e.branch(builtin):
            e.cover('builtin')
            e.prove('built in', T(bi) == 1)
            want = None
            for i in range(9, -1, -1):
                s = strlit(STYLES[i])
                if i in (1, 2):
                    s = rope_term(it, STYLES[i], u8(e, d, 3) + 1)
                want = s if want is None else z3.If(u8(e, d, 2) == i, s, want)
            e.prove('built-in name', text(it, nm) == want)
        else:
            e.cover('user')
            e.prove('user defined', T(bi) == 0)
            if bv >= 80:
                e.prove_cases('name', text(it, nm) == z3.If(n == 0, strlit(''), txt), [n == 0] + cases8(info))
            else:
                e.prove('name', text(it, nm) == dyn_text(it, enc, d, 3, n))
        e.expect_covers('zero record', 'builtin', 'user')
    return named(unit, 'handle_style[BIFF%d]' % bv)


def rope_term(it, s, n):
    from .basics import rope, num
    return it.text_term(rope(s, num(n)))


C20 = [u_xf(bv) for bv in (80, 70, 50, 45, 40, 30, 21)] + [u_font(bv) for bv in (80, 70, 45, 30, 21)] + [u_efont] + \
    [u_style(bv) for bv in (80, 70)] + [u_check_colours]


# ------------------------------------------------------------------ C18
DCHARS = [ord(c) for c in 'ymdhsYMDHS']
NCHARS = [ord(c) for c in '0#?']
SKIP = [ord(c) for c in '$-+/(): ']
ESC = [ord(c) for c in '\\_*']
NONDATE = ['0.00E+00', '##0.0E+0', 'General', 'GENERAL', 'general', '@']


def anyof(c, xs):
    return z3.Or([T(c) == x for x in xs])


class Fold(object):
    """prefix functions of the two passes over a format text"""

    def __init__(self, e, it):
        self.e, self.it = e, it
        self.ST = z3.Function(e.name('state_before'), IntS, IntS)      # 0 plain, 1 in quotes, 2 after an escape
        self.RED = z3.Function(e.name('reduced_before'), IntS, Str)
        self.ND = z3.Function(e.name('date_chars_before'), IntS, IntS)
        self.NN = z3.Function(e.name('digit_chars_before'), IntS, IntS)

    def step1(self, c, i):
        """definition of ST/RED at i+1"""
        S, R = self.ST(i), self.RED(i)
        c = T(c)
        nst = z3.If(S == 0, z3.If(c == 34, 1, z3.If(anyof(c, ESC), 2, 0)), z3.If(S == 1, z3.If(c == 34, 0, 1), 0))
        keep = z3.And(S == 0, z3.Not(anyof(c, [34] + ESC + SKIP)))
        return nst, keep

    def step2(self, c, i):
        return (z3.If(anyof(c, DCHARS), 1, 0), z3.If(anyof(c, NCHARS), 1, 0))


def u_isdate(e):
    """is_date_format_string on every text"""
    it = Interp(e)
    fmt = e.seq('fmt', 'str')
    f = Fold(e, it)
    n = T(fmt.length)
    e.assume(z3.And(f.ST(0) == 0, f.RED(0) == strlit('')))
    st = {}

    def inv1(L):
        return [('state', L.I('state') == f.ST(L.i)),
                ('known states', z3.And(f.ST(L.i) >= 0, f.ST(L.i) <= 2)),
                ('reduced text', text(it, L['s']) == f.RED(L.i))]

    def end1(L):
        # unfold the definition of the prefix functions at this index
        i = z3.simplify(L.i - 1)
        c = e.sel(fmt.arr, z3.simplify(T(fmt.off) + i), 'str')
        nst, keep = f.step1(c, i)
        ch = text(it, Seq('str', items=[SInt(c)]))
        e.assume(f.ST(L.i) == nst)
        e.assume(z3.Implies(z3.Not(keep), f.RED(L.i) == f.RED(i)))
        st['ch'] = ch
        if e.branch(keep):
            prev = L.data['s0']
            e.assume(f.RED(L.i) == text(it, st['cat'](prev, it.elem(fmt, i))))

    def body1(L):
        L.data['s0'] = L['s']
    st['cat'] = lambda a, b: it.binop('Add', a, b)
    sp = LoopSpec('strip', names=('state', 's'), kind='for', inv=inv1, kinds={'s': lambda L: e.str('s')},
                  match=lambda it_, node, fr: 'num_count' not in fr.vars, body_hook=body1)
    sp.end_hook = end1
    it.loop_specs.append(sp)
    sub = e.seq('sub', 'str', inp=False)
    m = T(sub.length)
    calls = []

    def subst(it_, a, k):
        calls.append(a)
        # a[0]: the compiled pattern (its meaning is the unit below)
        e.prove('the pattern is the bracket pattern', a[0] is it.resolve(FM + 'fmt_bracketed_sub').__self__)
        e.prove('square brackets replaced by nothing', it.equal(a[1], '') is True)
        e.prove('the stripped text is what brackets are removed from', text(it, a[2]) == f.RED(n))
        return sub
    it.contracts['re', 'sub'] = subst
    e.assume(z3.And(f.ND(0) == 0, f.NN(0) == 0))

    def inv2(L):
        return [('date characters', L.I('date_count') == 5 * f.ND(L.i)), ('digit characters', L.I('num_count') == 5 * f.NN(L.i)),
                ('counts', z3.And(f.ND(L.i) >= 0, f.NN(L.i) >= 0))]

    def end2(L):
        i = z3.simplify(L.i - 1)
        c = e.sel(sub.arr, z3.simplify(T(sub.off) + i), 'str')
        a, b = f.step2(c, i)
        e.assume(z3.And(f.ND(L.i) == f.ND(i) + a, f.NN(L.i) == f.NN(i) + b))
    sp2 = LoopSpec('count', names=('date_count', 'num_count'), kind='for', inv=inv2)
    sp2.end_hook = end2
    it.loop_specs.append(sp2)
    out = noexc(e, it.outcome(FM + 'is_date_format_string', book(), fmt))
    e.cover('returns')
    e.prove('brackets removed once', len(calls) == 1)
    special = z3.Or([B(it.equal(sub, x)) for x in NONDATE])
    got = B(it.truth(out)) if not isinstance(out, bool) else z3.BoolVal(out)
    e.prove('answer is a boolean', isinstance(out, (bool, SBool)))
    if e.branch(special):
        e.cover('known number format')
        e.prove('known non-date formats', z3.Not(got))
    else:
        e.prove('date iff more date characters than digits', got == (f.ND(m) > f.NN(m)))
    e.expect_covers('returns', 'known number format', 'strip/iter', 'count/iter')


named(u_isdate, 'is_date_format_string')


def sre_to_z3(items, C):
    """the language of a parsed regular expression (re's own parser) as a z3 regular expression; only constructs whose
    matches do not depend on the context"""
    import re._constants as K
    ch = lambda c: z3.Re(z3.StringVal(chr(c)))
    one = z3.AllChar(z3.ReSort(z3.StringSort()))
    out = []
    for op, av in items:
        if op is K.LITERAL:
            out.append(ch(av))
        elif op is K.NOT_LITERAL:
            out.append(z3.Intersect(one, z3.Complement(ch(av))))
        elif op is K.IN:
            neg = bool(av) and av[0][0] is K.NEGATE
            alts = []
            for o, v in av[1 if neg else 0:]:
                if o is K.LITERAL:
                    alts.append(ch(v))
                elif o is K.RANGE:
                    alts.append(z3.Range(chr(v[0]), chr(v[1])))
                else:
                    raise Unsupported('character class %s in a pattern' % (o,))
            u = alts[0] if len(alts) == 1 else z3.Union(*alts)
            out.append(z3.Intersect(one, z3.Complement(u)) if neg else u)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            r = sre_to_z3(list(sub), C)
            if hi is K.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Concat(*([r] * lo + [z3.Star(r)])))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is K.SUBPATTERN:
            out.append(sre_to_z3(list(av[3]), C))
        elif op is K.BRANCH:
            out.append(z3.Union(*[sre_to_z3(list(x), C) for x in av[1]]))
        else:
            raise Unsupported('%s in a pattern' % (op,))
    if not out:
        return z3.Re(z3.StringVal(''))
    return out[0] if len(out) == 1 else z3.Concat(*out)


def u_brackets(e):
    """the bracket-removing pattern: its language is '[', any characters but ']', then ']'.  No such text is a proper prefix
    of another one, so by the documented behaviour of sub() (leftmost matches, from left to right) every bracketed
    part, from a '[' to the first ']' behind it, is removed, and nothing else"""
    import re._parser
    it = Interp(e)
    fn = it.resolve(FM + 'fmt_bracketed_sub')
    pat = getattr(fn, '__self__', None)
    if getattr(fn, '__name__', '') != 'sub' or not hasattr(pat, 'pattern'):
        raise Unsupported('fmt_bracketed_sub is not the sub method of a pattern')
    e.prove('no flags', pat.flags & ~32 == 0)
    r = sre_to_z3(list(re._parser.parse(pat.pattern, pat.flags)), None)
    one = z3.AllChar(z3.ReSort(z3.StringSort()))
    ref = z3.Concat(z3.Re('['), z3.Star(z3.Intersect(one, z3.Complement(z3.Re(']')))), z3.Re(']'))
    s, t = z3.String(e.name('s')), z3.String(e.name('t'))
    e.cover('ran')
    e.prove('matches exactly the bracketed parts', z3.InRe(s, r) == z3.InRe(s, ref))
    e.prove('prefix-free', z3.Not(z3.And(z3.InRe(s, ref), z3.InRe(z3.Concat(s, t), ref), z3.Length(t) > 0)))
    e.expect_covers('ran')


named(u_brackets, 'bracket pattern')


def u_format(bv, rt):
    """FORMAT / FORMAT2 record: key, text and classification stored"""
    ebv = min(bv, 30) if rt == 0x1E else bv

    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        enc = e.str('encoding')
        e.assume(strlen_nonempty(it, enc))
        cnt = e.int('actualfmtcount', lo=0, inp=True)
        ans = e.boolean('is date')
        calls = []
        it.contracts[it.resolve(FM + 'is_date_format_string')] = lambda it_, a, k: (calls.append(a), ans)[1]
        xlrd.book.Book.is_date_format_string = xlrd.formatting.is_date_format_string
        if ebv >= 80:
            e.assume(z3.And(d.ln >= 5, d.ln <= 8224))
            n = u16(e, d, 2)
            txt, end, info = ustr_layout(e, d, z3.IntVal(2), n, z3.IntVal(4))
            e.assume(z3.Or(n == 0, info['body'] + info['nbytes'] <= d.ln))
        else:
            p = 0 if ebv <= 30 else 2
            e.assume(z3.And(d.ln >= p + 1, d.ln <= 8224))
            n = u8(e, d, p)
            e.assume(p + 1 + n <= d.ln)
        m = PDict()
        fl = objlist(e, 'fl', F.Format)
        n0 = T(fl.ln)
        b = book(biff_version=bv, encoding=enc, actualfmtcount=cnt, format_map=m, format_list=fl)
        e.inputs.update(bv=bv, rt=rt)
        noexc(e, it.outcome(FM + 'handle_format', b, d, rt))
        e.cover('stored')
        ap = getattr(fl, 'appended', ())
        ent = list(m.d.items()) + m.log
        e.prove('one format', len(ap) == 1 and len(ent) == 1 and ent[0][1] is ap[0] and ap[0].cls is F.Format)
        f, (k, _) = ap[0], ent[0]
        key = u16(e, d, 0) if ebv >= 50 else cnt.t
        e.prove('key', T(k) == key)
        e.prove('format_key', T(f.attrs['format_key']) == key)
        e.prove('classification', T(f.attrs['type']) == z3.If(ans.t, FDT, FGE))
        e.prove('count', T(b.attrs['actualfmtcount']) == cnt.t + 1)
        tx = f.attrs['format_str']
        e.prove('text', is_text(tx))
        if ebv >= 80:
            e.prove_cases('format string', text(it, tx) == z3.If(n == 0, strlit(''), txt), [n == 0] + cases8(info))
        else:
            e.prove('format string', text(it, tx) == dyn_text(it, enc, d, p + 1, n))
        e.prove('the stored text is what is classified', len(calls) == 1 and calls[0][1] is tx)
        e.expect_covers('stored')
    return named(unit, 'handle_format[BIFF%d,%#x]' % (bv, rt))


named(u_stdformats, 'fill_in_standard_formats')


def u_xf_epilogue(fi):
    """xf_epilogue: the cell type of every XF is settled from its format; parent repair; nothing else changes"""
    def unit(e):
        it = Interp(e)
        xl = objlist(e, 'xf', F.XF, ('format_key', 'is_style', 'parent_style_index', 'xf_index', 'font_index', '_alignment_flag', '_background_flag',
                                     '_border_flag', '_protection_flag', '_format_flag', '_font_flag'))
        n = T(xl.ln)
        fm = format_map(e)
        tm = PDict()
        present = z3.Function(e.name('tm_has'), IntS, BoolS)
        ty = z3.Function(e.name('tm_type'), IntS, IntS)
        st = {'P': present, 'T': ty}
        b = book(biff_version=80 if fi else 30, formatting_info=fi, xf_list=xl, format_map=fm, _xf_index_to_xl_type_map=tm, _xf_epilogue_done=0)
        w = e.int('w', lo=0, inp=True)
        e.inputs.update(fi=fi)
        i0 = z3.Int('anyxf')
        wr = []
        e.ghost['write_hook'] = lambda o, a: wr.append((o, a))
        if e.branch(w.t < n):
            e.assume(xl.fns['xf_index'](w.t) == w.t)

        def look(q):
            P, V = st['P'](q), st['T'](q)
            for k, v in list(tm.d.items()) + tm.log:
                P, V = z3.Or(P, T(k) == q), z3.If(T(k) == q, T(v), V)
            return P, V
        tm.base = lambda it_, k: (SBool(st['P'](T(k))), SInt(st['T'](T(k))))

        def inv(L):
            P, V = look(w.t)
            want = cell_type(fm, xl.fns['format_key'](w.t))
            return [('types settled', z3.Implies(w.t < L.i, z3.And(P, V == want)))]

        def havoc(L):
            tm.d.clear()
            del tm.log[:]
            st['P'] = z3.Function(e.name('tm_has'), IntS, BoolS)
            st['T'] = z3.Function(e.name('tm_type'), IntS, IntS)

        def body(L):
            e.assume(xl.fns['xf_index'](L.i) == L.i)
            st['x'] = xl.mkobj(it, L.i)
            del wr[:]

        def end(L):
            x = st['x']
            ok = all(o is tm or (o is x and a == 'parent_style_index') for o, a in wr)
            e.prove('frame: only this XF and the type map', ok)
            i = L.i - 1
            p0 = xl.fns['parent_style_index'](i)
            e.prove('parent', T(x.attrs['parent_style_index']) == (z3.If(
                z3.Or(xl.fns['is_style'](i) != 0, z3.And(p0 >= 0, p0 < n)), p0, 0) if fi else p0))
        sp = LoopSpec('xfs', kind='for', inv=inv, body_hook=body, modifies=lambda L: [(tm, None, havoc), (xl, '*', 'keep')],
                      match=lambda it_, node, fr: fr.qual.endswith('xf_epilogue'))
        sp.end_hook = end
        sp.any_object = True
        it.loop_specs.append(sp)
        noexc(e, it.outcome(FM + 'xf_epilogue', b))
        e.cover('returns')
        P, V = look(w.t)
        e.prove('types', z3.Implies(w.t < n, z3.And(P, V == cell_type(fm, xl.fns['format_key'](w.t)))))
        e.prove('done', T(b.attrs['_xf_epilogue_done']) == 1)
        e.expect_covers('returns', 'xfs/iter')
    return named(unit, 'xf_epilogue[formatting_info=%d]' % fi)


C18 = [u_isdate, u_brackets] + [u_format(bv, 0x41E) for bv in (80, 70, 50, 45, 40)] + [u_format(bv, 0x1E) for bv in (80, 70, 45, 30, 21)] + \
    [u_stdformats, u_xf_epilogue(0), u_xf_epilogue(1)]


# ------------------------------------------------------------------ C19
def u_initmap(e):
    """initialise_colour_map: the whole table, for every BIFF version, with and without formatting information"""
    it = Interp(e)
    bv = (80, 70, 50, 45, 40, 30, 21, 20)[e.choose('version', 8)]
    fi = e.choose('formatting_info')
    b = book(biff_version=bv, formatting_info=bool(fi))
    noexc(e, it.outcome(FM + 'initialise_colour_map', b))
    m, used = b.attrs['colour_map'], b.attrs['colour_indexes_used']
    got = {cint(k): v for k, v in m.d.items()}
    got.update({cint(k): v for k, v in m.log})
    got = {k: None if v is None else tuple(cint(x) for x in v) for k, v in got.items()}
    e.inputs.update(bv=bv, fi=fi)
    want = default_map(bv) if fi else {}
    for k in sorted(set(got) | set(want)):
        e.prove('default colour %d' % k, k in got and k in want and got[k] == want[k])
    e.prove('no colour used yet', isinstance(used, PDict) and not used.d and not used.log)
    e.cover('fi%d' % fi)
    e.expect_covers('fi0', 'fi1')


named(u_initmap, 'initialise_colour_map')


class CMap(object):
    """a colour map with arbitrary contents, looked up at arbitrary indexes"""

    def __init__(self, e):
        self.e, self.d = e, PDict()
        self.fresh()
        self.d.base = lambda it_, k: (SBool(self.P(T(k))), tuple(SInt(f(T(k))) for f in self.C))

    def fresh(self):
        e = self.e
        self.d.d.clear()
        del self.d.log[:]
        self.P = z3.Function(e.name('cm_has'), IntS, BoolS)
        self.C = [z3.Function(e.name('cm_' + c), IntS, IntS) for c in 'rgb']

    def look(self, q):
        """(present, [r, g, b]) at index q, now"""
        P, C = self.P(q), [f(q) for f in self.C]
        for k, v in list(self.d.d.items()) + self.d.log:
            if not (isinstance(v, tuple) and len(v) == 3):
                raise Unsupported('colour is not a triple')
            P = z3.Or(T(k) == q, P)
            C = [z3.If(T(k) == q, T(x), c) for x, c in zip(v, C)]
        return P, C


def rgb_at(e, d, i):
    o = z3.simplify(2 + 4 * T(i))
    return [u8(e, d, o), u8(e, d, z3.simplify(o + 1)), u8(e, d, z3.simplify(o + 2))]


def u_palette(bv):
    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        e.assume(z3.And(d.ln >= 2, d.ln <= 8224))
        fi = e.choose('formatting_info')
        cm = CMap(e)
        pr = SymList('objfn', [], z3.IntVal(0), name='palette')
        st = {'R': None}
        pr.mkobj = lambda it_, i: tuple(SInt(f(T(i))) for f in st['R'])
        b = book(biff_version=bv, formatting_info=bool(fi), colour_map=cm.d, palette_record=pr)
        q, j = e.int('q', inp=True), e.int('j', lo=0, inp=True)
        P0, C0 = cm.look(q.t)
        n = u16(e, d, 0)
        e.inputs.update(bv=bv, fi=fi)
        wr = []
        e.ghost['write_hook'] = lambda o, a: wr.append((o, a))

        def rec(i):
            """components of palette entry i, now"""
            C = [f(i) for f in st['R']] if st['R'] else [z3.IntVal(0)] * 3
            for at, v in zip(range(-len(getattr(pr, 'appended', ())), 0), getattr(pr, 'appended', ())):
                C = [z3.If(i == z3.simplify(T(pr.ln) + at), T(x), c) for x, c in zip(v, C)]
            return C

        def inv(L):
            P, C = cm.look(q.t)
            inside = z3.And(q.t >= 8, q.t < 8 + L.i)
            want = rgb_at(e, d, z3.simplify(q.t - 8))
            out = [('palette length', T(pr.ln) == L.i), ('index present', P == z3.Or(P0, inside))]
            for nm, c, w, o in zip('rgb', C, want, C0):
                out.append(('colour ' + nm, z3.Implies(P, c == z3.If(inside, w, o))))
            for nm, c, w in zip('rgb', rec(j.t), rgb_at(e, d, j.t)):
                out.append(('palette entry ' + nm, z3.Implies(j.t < L.i, c == w)))
            return out

        def havoc_pr(L):
            st['R'] = [z3.Function(e.name('pal_' + c), IntS, IntS) for c in 'rgb']
            pr.appended = ()
            pr.ln = e.int('npal', lo=0).t
            pr.mkobj = lambda it_, i: tuple(SInt(f(T(i))) for f in st['R'])
        sp = LoopSpec('colours', kind='for', inv=inv, modifies=lambda L: [(pr, None, havoc_pr), (cm.d, None, lambda L: cm.fresh())])

        def split(L):
            e.branch(q.t == z3.simplify(7 + L.i)) or e.branch(j.t == z3.simplify(L.i - 1))
        sp.end_hook = split
        it.loop_specs.append(sp)
        out = it.outcome(FM + 'handle_palette', b, d)
        if not fi:
            e.cover('off')
            noexc(e, out)
            P, C = cm.look(q.t)
            e.prove('formatting off: nothing changes', z3.And(P == P0, *[x == y for x, y in zip(C, C0)]))
            e.prove('formatting off: no palette', T(pr.ln) == 0 and not wr)
            return
        ok = z3.And(4 * n + 2 <= T(d.ln), T(d.ln) <= 4 * n + 6)
        if out[0] == 'exc':
            e.cover('bad size')
            e.prove('size error only', z3.Not(ok))
            e.prove('XLRDError', exc_is(out, 'XLRDError'))
            P, C = cm.look(q.t)
            e.prove('rejected: nothing changes', z3.And(P == P0, *[x == y for x, y in zip(C, C0)]))
            return
        e.cover('stored')
        e.prove('size accepted', ok)
        P, C = cm.look(q.t)
        inside = z3.And(q.t >= 8, q.t < 8 + n)
        e.prove('index present', P == z3.Or(P0, inside))
        if e.branch(inside):
            e.prove('replaced colour', z3.And([x == y for x, y in zip(C, rgb_at(e, d, z3.simplify(q.t - 8)))]))
        else:
            e.prove('other colours kept', z3.Implies(P, z3.And([x == y for x, y in zip(C, C0)])))
        e.prove('palette length', T(pr.ln) == n)
        if e.branch(j.t < n):
            e.prove('palette entry', z3.And([x == y for x, y in zip(rec(j.t), rgb_at(e, d, j.t))]))
        e.expect_covers('off', 'bad size', 'stored', 'colours/iter')
    return named(unit, 'handle_palette[BIFF%d]' % bv)


def u_epilogue(e):
    """palette_epilogue: records which known colour indexes the fonts use, and changes nothing else"""
    it = Interp(e)
    fl = objlist(e, 'font', F.Font, ('font_index', 'colour_index'))
    n = T(fl.ln)
    cm = CMap(e)
    used = PDict()
    st = {'U': z3.Function(e.name('used'), IntS, BoolS)}
    for_q = e.int('q', inp=True)
    w = e.int('w', lo=0, inp=True)
    wr = []
    e.ghost['write_hook'] = lambda o, a: wr.append((o, a))
    q = for_q.t
    used.base = lambda it_, k: (SBool(st['U'](T(k))), 1)
    b = book(font_list=fl, colour_map=cm.d, colour_indexes_used=used)
    U0 = st['U']

    def look(x):
        r = st['U'](x)
        for k, v in list(used.d.items()) + used.log:
            r = z3.Or(r, T(k) == x)
        return r

    def cond(i):
        fi, cx = fl.fns['font_index'](i), fl.fns['colour_index'](i)
        return z3.And(fi != 4, cx != 0x7FFF, cm.P(cx))

    def inv(L):
        cx = fl.fns['colour_index'](w.t)
        return [('earlier fonts recorded', z3.Implies(z3.And(w.t < L.i, cond(w.t)), look(cx))),
                ('only known indexes', z3.Implies(z3.And(look(q), z3.Not(U0(q))), cm.P(q))),
                ('kept', z3.Implies(U0(q), look(q)))]

    def havoc(L):
        used.d.clear()
        del used.log[:]
        st['U'] = z3.Function(e.name('used'), IntS, BoolS)
    it.loop_specs.append(LoopSpec('fonts', kind='for', inv=inv, modifies=lambda L: [(used, None, havoc)]))
    noexc(e, it.outcome(FM + 'palette_epilogue', b))
    e.cover('returns')
    cx = fl.fns['colour_index'](w.t)
    e.prove('font colour recorded', z3.Implies(z3.And(w.t < n, cond(w.t)), look(cx)))
    e.prove('only known indexes', z3.Implies(z3.And(look(q), z3.Not(U0(q))), cm.P(q)))
    e.prove('nothing else written', not [x for x in wr if x[0] is not used])
    e.expect_covers('returns', 'fonts/iter')


named(u_epilogue, 'palette_epilogue')


def u_nearest(e):
    """nearest_colour_index: an index of minimal distance (0 when the map holds no known colour)"""
    it = Interp(e)
    rgb = tuple(e.int('rgb%d' % i, lo=0, hi=255) for i in range(3))
    n = e.int('n', lo=0).t
    items = SymList('objfn', [], n, name='items')
    K = z3.Function(e.name('key'), IntS, IntS)
    C = [z3.Function(e.name('col_' + c), IntS, IntS) for c in 'rgb']
    none = z3.Function(e.name('unknown'), IntS, BoolS)

    def bounds(i):
        return z3.And([z3.And(f(i) >= 0, f(i) <= 255) for f in C])

    def mk(it_, i):
        i = T(i)
        e.assume(bounds(i))
        if e.branch(none(i)):
            return (SInt(K(i)), None)
        return (SInt(K(i)), tuple(SInt(f(i)) for f in C))
    items.mkobj = mk
    cmap = PObj(object, {'items': SpecFn(lambda it_, a, k: items)}, name='colour_map')
    w = e.int('w', lo=0, inp=True)
    e.assume(bounds(w.t))
    best = z3.Function(e.name('best_at'), IntS, IntS)          # ghost: position of the best candidate among the first i
    st = {'i': None}

    def dist(i):
        return z3.Sum([(T(r) - f(i)) * (T(r) - f(i)) for r, f in zip(rgb, C)])

    def good(p, i, x, m):
        return z3.And(p >= 0, p < i, z3.Not(none(p)), x == K(p), m == dist(p))

    def inv(L):
        m, x = L.I('best_metric'), L.I('best_colourx')
        return [('best so far', z3.Or(good(best(L.i), L.i, x, m), z3.And(x == 0, m > 3 * 255 * 255))),
                ('no earlier is nearer', z3.Implies(z3.And(w.t < L.i, z3.Not(none(w.t))), m <= dist(w.t)))]

    def body(L):
        L.data['m0'], L.data['x0'], st['i'] = L.I('best_metric'), L.I('best_colourx'), L.i

    def end(L):
        i, st['i'] = z3.simplify(L.i - 1), None
        # (the ghost follows what the code did: a new best is at position i)
        e.assume(best(L.i) == z3.If(z3.And(L.I('best_metric') == L.data['m0'], L.I('best_colourx') == L.data['x0']), best(i), i))
    sp = LoopSpec('candidates', names=('best_metric', 'best_colourx'), kind='for', inv=inv, body_hook=body)
    sp.end_hook = end
    it.loop_specs.append(sp)
    got = noexc(e, it.outcome(FM + 'nearest_colour_index', cmap, rgb))
    g = T(got)
    p = best(n) if st['i'] is None else st['i']
    e.cover('early' if st['i'] is not None else 'all')
    if e.branch(z3.And(w.t < n, z3.Not(none(w.t)))):
        e.prove('an index of the map', z3.And(p >= 0, p < n, z3.Not(none(p)), g == K(p)))
        e.prove('no colour of the map is nearer', dist(p) <= dist(w.t))
    else:
        e.prove('an index of the map or 0', z3.Or(z3.And(p >= 0, p < n, z3.Not(none(p)), g == K(p)), g == 0))
    e.expect_covers('early', 'all', 'candidates/iter')


named(u_nearest, 'nearest_colour_index')

C19 = [u_initmap, u_nearest] + [u_palette(bv) for bv in (80, 70, 50, 45, 40, 30)] + [u_epilogue]


def u_install(e):
    """initialise_book (executed) makes the formatting handlers the methods of Book"""
    it = Interp(e)
    B = xlrd.book.Book
    b = B.__new__(B)
    b.formatting_info, b.biff_version, b.verbosity, b.logfile = 0, 80, 0, None
    it.resolve(FM + 'initialise_book')(b)
    for m in ('handle_font', 'handle_efont', 'handle_format', 'is_date_format_string', 'handle_palette', 'palette_epilogue', 'handle_style', 'handle_xf', 'xf_epilogue'):
        e.prove(m, getattr(B, m, None) is getattr(F, m))
    e.cover('ran')
    e.expect_covers('ran')


named(u_install, 'initialise_book')
C18 += [u_install]
C19 += [u_install]
C20 += [u_install]


# ------------------------------------------------------------------ C24
SH = 'xlrd.sheet.Sheet.'
SHEET = xlrd.sheet.Sheet


def u_colwidth(bv):
    def unit(e):
        it = Interp(e)
        fi = bool(e.choose('formatting_info'))
        colx = e.int('colx', lo=0, hi=255, inp=True)
        has = z3.Function(e.name('has_col'), IntS, BoolS)
        width = z3.Function(e.name('col_width'), IntS, IntS)
        gcw = z3.Function(e.name('gcw'), IntS, IntS)
        infos = {}

        def base(it_, k):
            key = z3.simplify(T(k)).sexpr()
            infos.setdefault(key, PObj(xlrd.sheet.Colinfo, dict(width=SInt(width(T(k)))), name='colinfo'))
            return SBool(has(T(k))), infos[key]
        cm = PDict()
        cm.base = base
        e.assume(z3.And(gcw(colx.t) >= 0, gcw(colx.t) <= 1))
        arr = z3.Array(e.name('gcw'), IntS, IntS)
        e.assume(z3.Select(arr, colx.t) == gcw(colx.t))
        sw = e.int('standardwidth', lo=0, hi=65535, inp=True) if e.choose('standardwidth') else None
        dw = e.int('defcolwidth', lo=0, hi=65535, inp=True) if e.choose('defcolwidth') else None
        g = SymList('int', [arr], z3.IntVal(256), name='gcw')
        b = book(formatting_info=fi)
        sh = PObj(SHEET, dict(biff_version=bv, formatting_info=fi, colinfo_map=cm, standardwidth=sw, defcolwidth=dw, gcw=g, book=b,
                              verbosity=0, logfile=None, number=0), name='sheet')
        e.inputs.update(bv=bv, fi=fi)
        wr = []
        e.ghost['write_hook'] = lambda o, a: wr.append((o, a))
        out = it.outcome(SH + 'computed_column_width', sh, colx)
        e.prove('nothing written', not wr)
        if not fi:
            e.cover('off')
            e.prove('needs formatting information', exc_is(out, 'XLRDError'))
            return
        got = noexc(e, out)
        e.cover('on')
        own = has(colx.t)
        dflt = z3.IntVal(2048) if dw is None else 256 * dw.t
        std = dflt if sw is None else sw.t
        if bv >= 80:
            want = z3.If(own, width(colx.t), std)
        elif bv >= 40:
            want = z3.If(gcw(colx.t) == 1, std, z3.If(own, width(colx.t), dflt))
        elif bv == 30:
            want = z3.If(own, width(colx.t), dflt)
        else:
            want = dflt
        e.prove('width', isinstance(got, (int, SInt)))
        e.prove('width', T(got) == want)
        e.expect_covers('off', 'on')
    return named(unit, 'computed_column_width[BIFF%d]' % bv)


def sheet_units(names, props=('C31', 'C26')):
    """record units of Sheet.read, by record name"""
    from . import reading
    out = []
    for n in names:
        us = [u for p in props for u in getattr(reading, p) if u.__name__ == 'Sheet.read[%s]' % n]
        if not us:
            raise AssertionError('no unit for record %r' % n)
        out.append(us[0])
    return out


C24 = [u_colwidth(bv) for bv in (80, 70, 50, 45, 40, 30, 21)]


# ------------------------------------------------------------------ C36
class B2(object):
    """a BIFF2 sheet with an arbitrary history of cell attributes"""

    def __init__(self, e, bv, empty):
        self.e, self.it = e, Interp(e)
        self.n = z3.IntVal(0) if empty else e.int('n_xf', lo=1, inp=True).t
        self.xl = objlist(e, 'xf', F.XF, (), self.n)
        self.fm = format_map(e)
        self.fl = objlist(e, 'fl', F.Format)
        self.known = z3.Function(e.name('known_attr'), IntS, IntS, IntS, BoolS)
        self.index = z3.Function(e.name('attr_index'), IntS, IntS, IntS, IntS)
        self.attrs = PDict()
        self.attrs.base = self._base
        self.tm = PDict()
        self.book = book(biff_version=bv, formatting_info=True, xf_list=self.xl, format_map=self.fm, format_list=self.fl,
                         _xf_index_to_xl_type_map=self.tm)
        self.sheet = PObj(SHEET, dict(biff_version=bv, formatting_info=True, book=self.book, verbosity=0, logfile=None, number=0,
                                      _cell_attr_to_xfx=self.attrs, _ixfe=None, _xf_index_to_xl_type_map=self.tm), name='sheet')
        self.wr = []
        e.ghost['write_hook'] = lambda o, a: self.wr.append((o, a))

    def _base(self, it, k):
        bs = self.bytes3(k)
        return SBool(self.known(*bs)), SInt(self.index(*bs))

    def bytes3(self, k):
        it = self.it
        s = it.lift_seq(k)
        if not self.e.branch(T(s.length) == 3):
            raise Unsupported('cell attributes are not three bytes')
        return [T(it.seq_get(s, i)) for i in range(3)]

    def attr(self, name='cell_attr'):
        d = self.e.seq(name)
        self.e.assume(d.ln == 3)
        return d


def u_b2_index21(e):
    """with an XF table: the low 6 bits (or the given index), 63 standing for the latest IXFE"""
    w = B2(e, 21, False)
    a = w.attr()
    ix = e.int('ixfe', lo=0, hi=65535, inp=True) if e.choose('IXFE seen') else None
    tx = e.int('true_xfx', lo=0, hi=65535, inp=True) if e.choose('index given') else None
    w.sheet.attrs['_ixfe'] = ix
    if tx is not None and e.choose('no attribute'):
        a = None
    w.it.contracts[w.it.resolve(SH + 'insert_new_BIFF20_xf')] = lambda *x: e.fail('no XF is made up', 'insert_new_BIFF20_xf called')
    row, col = e.int('row', lo=0), e.int('col', lo=0)
    out = w.it.outcome(SH + 'fixed_BIFF2_xfindex', w.sheet, a, row, col, *([] if tx is None else [tx]))
    raw = tx.t if tx is not None else bits(u8(e, a, 0), 0, 6)
    e.prove('nothing written', not w.wr)
    if out[0] == 'exc':
        e.cover('no IXFE')
        e.prove('refused only for 63 without IXFE', z3.And(raw == 63, ix is None))
        e.prove('XLRDError', exc_is(out, 'XLRDError'))
        return
    e.cover('index')
    e.prove('index', T(out[1]) == (raw if ix is None else z3.If(raw == 63, ix.t, raw)))
    if ix is None:
        e.prove('63 needs an IXFE', raw != 63)
    e.expect_covers('index', 'no IXFE')


def u_b2_index20(e):
    """without an XF table: one XF entry per distinct attribute, created on first use"""
    how = e.choose('state', 3)                  # 2.0 with entries, 2.0 without, "2.1" without XF records
    w = B2(e, 21 if how == 2 else 20, how > 0)
    a = w.attr()
    e.assume(bits(u8(e, a, 0), 0, 6) == 0)
    calls = []
    newx = [e.int('new%d' % i, lo=0) for i in range(20)]

    def ins(it_, args, k):
        d = dict(zip(('self', 'cell_attr', 'style'), args))
        d.update(k)
        calls.append(d)
        return newx[len(calls) - 1]
    w.it.contracts[w.it.resolve(SH + 'insert_new_BIFF20_xf')] = ins
    row, col = e.int('row', lo=0), e.int('col', lo=0)
    got = noexc(e, w.it.outcome(SH + 'fixed_BIFF2_xfindex', w.sheet, a, row, col))
    bs = w.bytes3(a)
    e.prove('the workbook is BIFF 2.0', cint(w.sheet.attrs['biff_version']) == 20 and cint(w.book.attrs['biff_version']) == 20)
    if e.branch(w.known(*bs)):
        e.cover('known')
        e.prove('same attribute, same index', z3.And(T(got) == w.index(*bs), not calls))
        return
    if how == 0:
        e.cover('another')
        e.prove('one entry', len(calls) == 1)
    else:
        e.cover('first')
        e.prove('sixteen defaults, then the entry', len(calls) == 17)
        e.prove('defaults', all(w.it.equal(c['cell_attr'], b'\x40\0\0') is True for c in calls[:16]))
    e.prove('entry of this attribute', calls[-1]['cell_attr'] is a or w.it.equal(calls[-1]['cell_attr'], a) is True)
    e.prove('index of the new entry', T(got) == newx[len(calls) - 1].t)
    e.expect_covers('known', 'another', 'first')


def u_b2_insert(e):
    """insert_new_BIFF20_xf: the entry is the decoded attribute, appended, registered under the attribute, with its cell type"""
    w = B2(e, 20, bool(e.choose('first')))
    a = w.attr()
    key = e.int('format_key', lo=0, hi=63)
    xf = PObj(F.XF, dict(format_key=key), name='xf')
    calls = []
    w.it.contracts[w.it.resolve(SH + 'fake_XF_from_BIFF20_cell_attr')] = lambda it_, args, k: (calls.append(args), xf)[1]
    style = e.int('style', lo=0, hi=1)
    got = noexc(e, w.it.outcome(SH + 'insert_new_BIFF20_xf', w.sheet, a, style))
    e.cover('returns')
    ap = getattr(w.xl, 'appended', ())
    e.prove('decoded from the attribute', len(calls) == 1 and calls[0][1] is a)
    e.prove('appended', len(ap) == 1 and ap[0] is xf)
    e.prove('index', z3.And(T(got) == w.n, T(xf.attrs['xf_index']) == w.n))
    fa, fe = getattr(w.fl, 'appended', ()), list(w.fm.d.items()) + w.fm.log
    if e.branch(w.fm.has(key.t)):
        e.cover('known format')
        e.prove('formats kept', not fa and not fe)
        ct = cell_type(w.fm, key.t)
    else:
        e.cover('new format')
        ok = len(fa) == 1 and len(fe) == 1 and fe[0][1] is fa[0] and fa[0].cls is F.Format
        e.prove('one format added', ok)
        e.prove('format key', z3.And(T(fe[0][0]) == key.t, T(fa[0].attrs['format_key']) == key.t))
        e.prove('General', w.it.equal(fa[0].attrs['format_str'], 'General') is True and cint(fa[0].attrs['type']) != FDT)
        ct = z3.IntVal(NUMBER)
    te = list(w.tm.d.items()) + w.tm.log
    e.prove('cell type registered', len(te) == 1)
    e.prove('cell type', z3.And(T(te[0][0]) == w.n, T(te[0][1]) == ct))
    ae = list(w.attrs.d.items()) + w.attrs.log
    e.prove('registered under the attribute', len(ae) == 1 and (ae[0][0] is a or w.it.equal(ae[0][0], a) is True))
    e.prove('registered index', T(ae[0][1]) == w.n)
    e.expect_covers('returns', 'known format', 'new format')


def u_b2_fake(e):
    """fake_XF_from_BIFF20_cell_attr: every field from its bits"""
    w = B2(e, 20, False)
    a = w.attr()
    x = noexc(e, w.it.outcome(SH + 'fake_XF_from_BIFF20_cell_attr', w.sheet, a, e.int('style', lo=0, hi=1)))
    e.cover('returns')
    e.prove('is XF', isinstance(x, PObj) and x.cls is F.XF)
    for path, f in B20.items():
        e.prove(path, T(get_path(x, path)) == spec_value(e, a, f))
    e.prove('own parts', all(isinstance(get_path(x, p), PObj) and get_path(x, p).cls is c for p, c in (
        ('alignment', F.XFAlignment), ('border', F.XFBorder), ('background', F.XFBackground), ('protection', F.XFProtection))))
    e.expect_covers('returns')


for _u, _n in ((u_b2_index21, 'fixed_BIFF2_xfindex[2.1]'), (u_b2_index20, 'fixed_BIFF2_xfindex[2.0]'), (u_b2_insert, 'insert_new_BIFF20_xf'),
               (u_b2_fake, 'fake_XF_from_BIFF20_cell_attr')):
    named(_u, _n)
C36 = [u_b2_index21, u_b2_index20, u_b2_insert, u_b2_fake]


def from_grid():
    from . import grid
    return [u for u in grid.C07 if u.__name__.startswith('put_cell')]


C18 += from_grid()
C24 += sheet_units(['DEFCOLWIDTH', 'STANDARDWIDTH', 'GCW', 'COLINFO'])
C36 += sheet_units(['IXFE', 'NUMBER BIFF2', 'LABEL BIFF2', 'BOOLERR BIFF2', 'BLANK BIFF2'])
