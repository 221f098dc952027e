"""Contracts on the byte-level decoders: compact numbers (C04), strings (C05),
cell addresses (C14, C15), range lists (C30)."""
from .common import *

BH = 'xlrd.biffh.'
SH = 'xlrd.sheet.'


# ------------------------------------------------------------------ C04
def rk_value(it, d, i=0):
    """spec: the double denoted by the 4 bytes d[i:i+4]"""
    e = it.e
    R = u32(e, d, i)
    s = z3.If(R >= 2 ** 31, R - 2 ** 32, R)
    asint = i2f((s - s % 4) / 4)
    asflt = f64((R - R % 4) * 4294967296)
    base = z3.If(bitset(R, 1), asint, asflt)
    return z3.If(bitset(R, 0), fbin['div'](base, i2f(z3.IntVal(100))), base)


def u_rk(e):
    """unpack_RK: all 2^32 inputs"""
    it = Interp(e)
    d = e.seq('rk', ln=4)
    out = it.outcome(SH + 'unpack_RK', d)
    if out[0] != 'ok':
        e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
    e.cover('returns')
    e.prove('is float', isinstance(out[1], (float, SFlt)))
    e.prove_cases('value', it.to_sflt(out[1]).t == rk_value(it, d),
                  [z3.And(a, b) for a in (bitset(d.items[0], 1), z3.Not(bitset(d.items[0], 1)))
                   for b in (bitset(d.items[0], 0), z3.Not(bitset(d.items[0], 0)))])
    e.expect_covers('returns')


named(u_rk, 'unpack_RK')
RK = [u_rk]


# ------------------------------------------------------------------ C05
def ustr_layout(e, d, pos, nchars, after):
    """spec of the BIFF8 unicode string whose option byte is at `after`:
    (text term, end position)"""
    opt = u8(e, d, after)
    rich, phon, wide = bitset(opt, 3), bitset(opt, 2), bitset(opt, 0)
    p1 = after + 1
    rt = u16(e, d, p1)
    p2 = z3.If(rich, p1 + 2, p1)
    sz = u32(e, d, p2)
    p3 = z3.If(phon, p2 + 4, p2)
    nb = z3.If(wide, 2 * nchars, nchars)
    txt = z3.If(wide, decoded(e, 'utf_16_le', d, p3, 2 * nchars), decoded(e, 'latin_1', d, p3, nchars))
    end = p3 + nb + z3.If(rich, 4 * rt, 0) + z3.If(phon, sz, 0)
    return txt, end, dict(opt=opt, rich=rich, phon=phon, wide=wide, body=p3, nbytes=nb, rt=rt, sz=sz, p2=p2)


def cases8(info):
    out = []
    for a in (info['rich'], z3.Not(info['rich'])):
        for b in (info['phon'], z3.Not(info['phon'])):
            for c in (info['wide'], z3.Not(info['wide'])):
                out.append(z3.And(a, b, c))
    return out


def rd(e, d, pos, lenlen):
    return u8(e, d, pos) if lenlen == 1 else u16(e, d, pos)


def u_unicode(lenlen):
    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        pos = e.int('pos', lo=0, inp=True)
        e.inputs['lenlen'] = lenlen
        n = rd(e, d, pos.t, lenlen)
        e.assume(pos.t + lenlen <= d.ln)
        txt, end, info = ustr_layout(e, d, pos.t, n, pos.t + lenlen)
        # well-formed: header and characters are inside the record
        e.assume(z3.Or(n == 0, info['body'] + info['nbytes'] <= d.ln))
        out = it.outcome(BH + 'unpack_unicode', d, pos, lenlen)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        e.prove('is text', is_text(out[1]))
        if e.must(n == 0):
            e.cover('empty')
            e.prove('empty', text(it, out[1]) == strlit(''))
        else:
            e.cover('nonempty')
            e.prove_cases('text', z3.If(n == 0, text(it, out[1]) == strlit(''), text(it, out[1]) == txt), cases8(info))
        e.expect_covers('empty', 'nonempty')
    return named(unit, 'unpack_unicode[lenlen %d]' % lenlen)


def u_unicode_upd(lenlen, known):
    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        pos = e.int('pos', lo=0, inp=True)
        e.inputs['lenlen'] = lenlen
        kw = {}
        if known:
            kl = e.int('known_len', lo=0, hi=65535, inp=True)
            n = kl.t
            after = pos.t
            kw['known_len'] = kl
        else:
            n = rd(e, d, pos.t, lenlen)
            after = pos.t + lenlen
            kw['lenlen'] = lenlen
        e.assume(after <= d.ln)
        bare = z3.And(n == 0, after == d.ln)      # zero-length string without options byte
        txt, end, info = ustr_layout(e, d, pos.t, n, after)
        e.assume(z3.Or(bare, z3.And(info['body'] + info['nbytes'] <= d.ln,
                                    z3.Implies(info['phon'], info['sz'] < 2 ** 31))))
        out = it.outcome(BH + 'unpack_unicode_update_pos', d, pos, **kw)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        r = out[1]
        e.prove('is pair', isinstance(r, tuple) and len(r) == 2 and is_text(r[0]))
        e.prove_cases('text', text(it, r[0]) == z3.If(bare, strlit(''), txt), [bare] + cases8(info))
        e.prove_cases('end position', T(r[1]) == z3.If(bare, after, end), [bare] + cases8(info))
        e.cover('returns')
        e.expect_covers('returns')
    return named(unit, 'unpack_unicode_update_pos[%s]' % ('known' if known else lenlen))


def u_bstring(lenlen, upd, known):
    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        pos = e.int('pos', lo=0, inp=True)
        e.inputs['lenlen'] = lenlen
        enc = e.str('encoding')
        kw = {}
        if known:
            kl = e.int('known_len', lo=0, hi=65535, inp=True)
            n, after = kl.t, pos.t
            kw['known_len'] = kl
        else:
            n, after = rd(e, d, pos.t, lenlen), pos.t + lenlen
            kw['lenlen'] = lenlen
        e.assume(after <= d.ln)
        e.assume(after + n <= d.ln)
        want = dec_dyn(text(it, enc), d.arr, z3.simplify(T(d.off) + after), n)
        out = it.outcome(BH + ('unpack_string_update_pos' if upd else 'unpack_string'), d, pos, enc, **kw)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        e.cover('returns')
        r = out[1]
        if upd:
            e.prove('is pair', isinstance(r, tuple) and len(r) == 2)
            e.prove('end position', T(r[1]) == after + n)
            r = r[0]
        e.prove('is text', is_text(r))
        e.prove('text', text(it, r) == want)
        e.expect_covers('returns')
    return named(unit, 'unpack_string%s[%s]' % ('_update_pos' if upd else '', 'known' if known else lenlen))


C05 = [u_unicode(1), u_unicode(2), u_unicode_upd(1, False), u_unicode_upd(2, False), u_unicode_upd(1, True),
       u_bstring(1, False, False), u_bstring(2, False, False), u_bstring(1, True, False), u_bstring(2, True, False),
       u_bstring(1, True, True)]


# ------------------------------------------------------------------ C14
FM = 'xlrd.formula.'
cn = z3.Function('A1_column_name', IntS, Str)


def a1(n):
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def u_colname(qual, limit):
    def unit(e):
        it = Interp(e)
        for c in range(limit):
            out = it.outcome(qual, c)
            e.prove('value', out == ('ok', a1(c)))
        e.cover('returns')
    return named(unit, 'colname[%s, every column < %d]' % (qual.split('.')[1], limit))


def with_colname(e, it):
    def c(it2, a, k):
        x = a[0] if a else k['colx']
        e.prove('pre:colname', z3.And(T(x) >= 0, T(x) < 702))
        return SStr(cn(T(x)))
    it.contracts[it.resolve(FM + 'colname')] = c


def num(t):
    return SStr(s_of_int(z3.simplify(T(t))))


def rope(*p):
    return SStr(*p)


def same(it, a, b):
    return is_text(a) and text(it, a) == text(it, b)


def check_text(e, it, name, out, want):
    if out[0] != 'ok':
        e.unreachable(name + '/noexc', 'raises %s' % out[1].cls.__name__)
    e.prove(name + '/is text', is_text(out[1]))
    e.prove(name, text(it, out[1]) == text(it, want))


def u_cellname(e):
    it = Interp(e)
    with_colname(e, it)
    r, c = e.int('rowx', lo=0, inp=True), e.int('colx', lo=0, hi=701, inp=True)
    C = SStr(cn(c.t))
    k = e.choose('which', 3)
    if k == 0:
        check_text(e, it, 'cellname', it.outcome(FM + 'cellname', r, c), rope(C, num(r.t + 1)))
    elif k == 1:
        check_text(e, it, 'cellnameabs', it.outcome(FM + 'cellnameabs', r, c), rope('$', C, '$', num(r.t + 1)))
    else:
        check_text(e, it, 'cellnameabs r1c1', it.outcome(FM + 'cellnameabs', r, c, 1),
                   rope('R', num(r.t + 1), 'C', num(c.t + 1)))
    e.cover('returns')


named(u_cellname, 'cellname/cellnameabs')


def u_rangename2d(e):
    it = Interp(e)
    with_colname(e, it)
    rlo, clo = e.int('rlo', lo=0, inp=True), e.int('clo', lo=0, inp=True)
    rhi, chi = e.int('rhi', inp=True), e.int('chi', hi=702, inp=True)
    e.assume(z3.And(rlo.t < rhi.t, clo.t < chi.t))
    out = it.outcome(FM + 'rangename2d', rlo, rhi, clo, chi)
    first = ('$', SStr(cn(clo.t)), '$', num(rlo.t + 1))
    single = z3.And(rhi.t == rlo.t + 1, chi.t == clo.t + 1)
    if e.must(single):
        e.cover('single')
        check_text(e, it, 'single cell', out, rope(*first))
    else:
        e.prove('not single', z3.Not(single))
        e.cover('range')
        check_text(e, it, 'range', out, rope(*(first + (':$', SStr(cn(z3.simplify(chi.t - 1))), '$', num(rhi.t)))))
    e.expect_covers('single', 'range')


named(u_rangename2d, 'rangename2d')


def cell_rel(r, c, rrel, crel, br, bc, rc):
    """spec of a cell reference text; returns rope. rrel etc are python bools"""
    if (rrel and br is None) or (crel and bc is None):
        rc = True
    if rc:
        out = ['R']
        out += [('[', r, ']')] if rrel else [num(r + 1)]
        out.append('C')
        out += [('[', c, ']')] if crel else [num(c + 1)]
        return True, out
    out = []
    if not crel:
        out.append('$')
    out.append(SStr(cn(z3.simplify((bc + c) % 256 if crel else c))))
    if not rrel:
        out.append('$')
    out.append(num((br + r) % 65536 + 1 if rrel else r + 1))
    return False, out


def u_cellnamerel(e):
    it = Interp(e)
    with_colname(e, it)
    rrel, crel, rc = e.choose('rowrel'), e.choose('colrel'), e.choose('r1c1')
    hasr = hasc = e.choose('base cell given')
    r, c = e.int('rowx', inp=True), e.int('colx', inp=True)
    if not rrel:
        e.assume(z3.And(r.t >= 0))
    if not crel:
        e.assume(z3.And(c.t >= 0, c.t < 702))
    br, bc = e.int('browx', lo=0, inp=True), e.int('bcolx', lo=0, inp=True)
    e.inputs.update(rowrel=rrel, colrel=crel, r1c1=rc, hasr=hasr, hasc=hasc)
    out = it.outcome(FM + 'cellnamerel', r, c, rrel, crel, br if hasr else None, bc if hasc else None, rc)
    isrc, parts = cell_rel(r.t, c.t, rrel, crel, br.t if hasr else None, bc.t if hasc else None, rc)
    want = []
    for p in parts:
        if isinstance(p, tuple):
            # "[n]" unless n is zero
            if e.branch(p[1] == 0):
                continue
            want += ['[', num(p[1]), ']']
        else:
            want.append(p)
    e.cover('returns')
    check_text(e, it, 'value', out, rope(*want))


named(u_cellnamerel, 'cellnamerel')


def u_rangename2drel(e):
    it = Interp(e)
    cref = z3.Function('cellref', IntS, IntS, IntS, IntS, IntS, IntS, IntS, Str)
    rel = [e.choose('rel%d' % i) for i in range(4)]
    hasr, hasc, rc = e.choose('browx'), e.choose('bcolx'), e.choose('r1c1')
    v = [e.int(n, inp=True) for n in ('rlo', 'rhi', 'clo', 'chi')]
    br, bc = e.int('browx', lo=0, inp=True), e.int('bcolx', lo=0, inp=True)
    B_ = br.t if hasr else z3.IntVal(-1)
    C_ = bc.t if hasc else z3.IntVal(-1)

    def key(x):
        return z3.IntVal(-1) if x is None else T(x)

    def truthint(x):
        return z3.If(T(x) != 0, 1, 0) if not isinstance(x, (bool, int)) else z3.IntVal(1 if x else 0)

    def c(it2, a, k):
        names = ('rowx', 'colx', 'rowxrel', 'colxrel', 'browx', 'bcolx', 'r1c1')
        d = dict(browx=None, bcolx=None, r1c1=0)
        d.update(zip(names, a))
        d.update(k)
        return SStr(cref(T(d['rowx']), T(d['colx']), truthint(d['rowxrel']), truthint(d['colxrel']),
                         key(d['browx']), key(d['bcolx']), truthint(d['r1c1'])))
    it.contracts[it.resolve(FM + 'cellnamerel')] = c
    out = it.outcome(FM + 'rangename2drel', tuple(v), tuple(rel), br if hasr else None, bc if hasc else None, rc)
    r1 = 1 if rc or ((rel[0] or rel[1]) and not hasr) or ((rel[2] or rel[3]) and not hasc) else 0
    I = z3.IntVal
    w1 = cref(v[0].t, v[2].t, I(rel[0]), I(rel[2]), B_, C_, I(r1))
    w2 = cref(z3.simplify(v[1].t - 1), z3.simplify(v[3].t - 1), I(rel[1]), I(rel[3]), B_, C_, I(r1))
    if out[0] != 'ok' or not is_text(out[1]):
        e.fail('shape', repr(out))
        return
    parts = out[1].parts
    e.prove('shape', len(parts) == 3 and parts[1] == ':')
    if len(parts) == 3:
        e.prove('first corner', parts[0] == w1)
        e.prove('last corner', parts[2] == w2)
    e.cover('returns')


named(u_rangename2drel, 'rangename2drel')

C14 = [u_colname(FM + 'colname', 702), u_colname('xlrd.book.colname', 18278), u_cellname, u_rangename2d, u_cellnamerel,
       u_rangename2drel]


# ------------------------------------------------------------------ C15
def addr_spec(bv, rowval, colval, reldelta, br, bc):
    if bv >= 80:
        rrel, crel = bits(colval, 15, 1), bits(colval, 14, 1)
        row, col = rowval, colval % 256
        nr = 65536
    else:
        rrel, crel = bits(rowval, 15, 1), bits(rowval, 14, 1)
        row, col = rowval % 16384, colval
        nr = 16384
    if reldelta:
        row = z3.If(z3.And(rrel == 1, row >= nr // 2), row - nr, row)
        col = z3.If(z3.And(crel == 1, col >= 128), col - 256, col)
    else:
        row = z3.If(rrel == 1, row - br, row)
        col = z3.If(crel == 1, col - bc, col)
    return row, col, rrel, crel


def u_addr(rng):
    def unit(e):
        it = Interp(e)
        bv = (80, 70, 50, 45, 40, 30, 21)[e.choose('bv', 7)]
        reldelta = e.choose('reldelta')
        d = e.seq('data')
        pos = e.int('pos', lo=0, inp=True)
        br, bc = e.int('browx', lo=0, hi=65535, inp=True), e.int('bcolx', lo=0, hi=255, inp=True)
        e.inputs.update(bv=bv, reldelta=reldelta)
        if rng:
            size = 8 if bv >= 80 else 6
            fn = 'get_cell_range_addr'
        else:
            size = 4 if bv >= 80 else 3
            fn = 'get_cell_addr'
        e.assume(pos.t + size <= d.ln)
        out = it.outcome(FM + fn, d, pos, bv, reldelta, br, bc)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        e.cover('returns')
        if rng:
            rows = [u16(e, d, pos.t), u16(e, d, pos.t + 2)]
            cols = [u16(e, d, pos.t + 4), u16(e, d, pos.t + 6)] if bv >= 80 else [u8(e, d, pos.t + 4), u8(e, d, pos.t + 5)]
            e.prove('shape', isinstance(out[1], tuple) and len(out[1]) == 2)
            res = out[1]
        else:
            rows = [u16(e, d, pos.t)]
            cols = [u16(e, d, pos.t + 2)] if bv >= 80 else [u8(e, d, pos.t + 2)]
            res = [out[1]]
        for i in range(len(rows)):
            w = addr_spec(bv, rows[i], cols[i], reldelta, br.t, bc.t)
            e.prove('shape4', isinstance(res[i], tuple) and len(res[i]) == 4)
            for nm, g, x in zip(('row', 'column', 'row relative flag', 'column relative flag'), res[i], w):
                e.prove('%s[%d]' % (nm, i), T(g) == x)
        e.expect_covers('returns')
    return named(unit, 'get_cell_range_addr' if rng else 'get_cell_addr')


C15 = [u_addr(False), u_addr(True)]


# ------------------------------------------------------------------ C30
def u_ranges(size):
    def unit(e):
        it = Interp(e)
        d = e.seq('data')
        pos = e.int('pos', lo=0, inp=True)
        e.inputs['addr_size'] = size
        e.assume(pos.t + 2 <= d.ln)
        n = u16(e, d, pos.t)
        e.assume(pos.t + 2 + n * size <= d.ln)
        arrs = [z3.Array(e.name('out%d' % j), IntS, IntS) for j in range(4)]
        n0 = z3.Int(e.name('out.len'))
        e.assume(n0 >= 0)
        lst = SymList(('tuple', 'int', 'int', 'int', 'int'), list(arrs), n0, name='output_list')
        old = list(arrs)
        k = z3.Int(e.name('k'))       # an arbitrary element
        e.assume(k >= 0)

        def entry(k):
            o = pos.t + 2 + size * (k - n0)
            if size == 8:
                f = [u16(e, d, o + 2 * j) for j in range(4)]
            else:
                f = [u16(e, d, o), u16(e, d, o + 2), u8(e, d, o + 4), u8(e, d, o + 5)]
            return [f[0], f[1] + 1, f[2], f[3] + 1]

        def okk(upto):
            w = entry(k)
            return z3.And(*[z3.If(k < n0, z3.Select(lst.arrays[j], k) == z3.Select(old[j], k),
                                  z3.Implies(k < upto, z3.Select(lst.arrays[j], k) == w[j])) for j in range(4)])

        def inv(L):
            return [('length', T(lst.ln) == n0 + L.i),
                    ('position', L.I('pos') == pos.t + 2 + size * L.i),
                    ('elements', okk(n0 + L.i))]
        it.loop_specs.append(LoopSpec('ranges', names=('pos', 'output_list'), inv=inv, kind='for',
                                      modifies=lambda L: [(lst, None, None), (lst, '*', 'keep')]))
        bv = e.int('bv', lo=20, hi=80, inp=True)
        out = it.outcome(BH + 'unpack_cell_range_address_list_update_pos', lst, d, pos, bv, size)
        if out[0] != 'ok':
            e.unreachable('noexc', 'raises %s' % out[1].cls.__name__)
        e.cover('returns')
        e.prove('end position', T(out[1]) == pos.t + 2 + size * n)
        e.prove('number of ranges', T(lst.ln) == n0 + n)
        e.prove('every range', okk(n0 + n))
        e.expect_covers('returns')
    return named(unit, 'unpack_cell_range_address_list[%d]' % size)


C30 = [u_ranges(6), u_ranges(8)]
