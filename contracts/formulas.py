"""Contracts on the evaluation of the formulas of defined names (C17).

evaluate_name_formula is a loop over the tokens of the formula (reverse Polish notation).  Each unit takes one kind of token: an arbitrary
iteration of the loop, at an arbitrary position of arbitrary formula bytes, with an arbitrary stack of operands below the
ones the token uses, and an arbitrary state of the flags.  Proved: which operands are taken, which one is put in their place (kind, value, text), that everything
below stays as it was, the position of the next token, the flags, and which tokens are refused."""
from .common import *
from .walk import noexc, book
from .functable import FUNCS
import copy
import math
import operator
import builtins
import xlrd.formula
import xlrd.book
from pyvc.values import SpecFn
from pyvc.ops import to_pv

FM = 'xlrd.formula.'
Or, And, If, Not, Implies = z3.Or, z3.And, z3.If, z3.Not, z3.Implies
oREL, oREF, oUNK, oSTRG, oNUM, oBOOL, oERR, oMSNG = -2, -1, 0, 1, 2, 3, 4, 5
LEAF = 90


def operand(e, kind, value, name='operand'):
    return PObj(xlrd.formula.Operand, dict(kind=kind, value=value, text=e.str('text'), rank=e.int('rank', lo=0, hi=90)), name=name)


def ref(e, rel=False, flags=None):
    o = PObj(xlrd.formula.Ref3D, {}, name='ref')
    c = tuple(e.int(x) for x in ('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi'))
    for x, v in zip(('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi'), c):
        o.attrs[x] = v
    o.attrs['coords'] = c
    o.attrs['relflags'] = tuple(e.int('rel', lo=0, hi=1) for _ in range(6)) if rel else (0,) * 6
    return o


class Stack(object):
    """the operand stack: an arbitrary number of operands that the token does not touch, and the ones on top of them, made when first looked at.
    Operands are numbered from the bottom; `mk(depth)` makes the one at distance `depth` below the original top."""

    def __init__(self, e, mk=None, size=None):
        self.e = e
        self.base = e.int('stack size', lo=0).t if size is None else z3.IntVal(size)     # operands of the original stack still there
        self.n0 = self.base
        self.tops = []
        self.mk = mk or (lambda d: operand(e, e.int('kind', lo=-2, hi=5), PObj(None, {}, name='some value')))
        self.made = {}
        o = self.obj = PObj(None, {}, name='stack')
        for nm, f in dict(pop=self.pop, append=self.append, __len__=self.len, __getitem__=self.get, __setitem__=self.set,
                          __getslice__=self.slice, __delslice__=self.delslice).items():
            o.attrs[nm] = SpecFn(lambda it, a, k, f=f: f(it, *a))

    def at(self, t):
        """operand number t (term) of the original stack"""
        d = z3.simplify(self.n0 - T(t))
        key = str(d)
        if key not in self.made:
            for d2, o in list(self.made.values()):
                if self.e.must(d == d2):
                    self.made[key] = (d, o)
                    return o
            self.made[key] = (d, self.mk(d))
        return self.made[key][1]

    def top(self, k):
        """k-th operand from the top of the original stack, 1 the topmost"""
        return self.at(self.n0 - k)

    def len(self, it):
        return mkint(self.base + len(self.tops))

    def append(self, it, x):
        self.tops.append(x)

    def pop(self, it, k=None):
        if k is not None and cint(k) != -1:
            raise Unsupported('pop(i)')
        if self.tops:
            return self.tops.pop()
        if not self.e.branch(self.base > 0):
            it.throw(IndexError, 'pop from empty list')
        x = self.at(self.base - 1)
        self.base = z3.simplify(self.base - 1)
        return x

    def index(self, it, k):
        """(where, which): an operand on top or of the original stack"""
        k = T(k)
        n = self.base + len(self.tops)
        i = z3.simplify(If(k < 0, k + n, k))
        if not z3.is_int_value(k):
            i = z3.simplify(k + n) if self.e.branch(k < 0) else k
        elif k.as_long() < 0:
            i = z3.simplify(k + n)
        if not self.e.branch(And(i >= 0, i < n)):
            it.throw(IndexError, 'list index out of range')
        for j in range(len(self.tops)):
            if self.e.must(i == self.base + j):
                return 'top', j
        if self.tops and not self.e.must(i < self.base):
            raise Unsupported('index into the stack')
        return 'base', i

    def get(self, it, k):
        w, i = self.index(it, k)
        return self.tops[i] if w == 'top' else self.at(i)

    def set(self, it, k, v):
        w, i = self.index(it, k)
        if w == 'top':
            self.tops[i] = v
        elif self.e.must(i == self.base - 1) and not self.tops:
            self.base = z3.simplify(self.base - 1)
            self.tops.append(v)
        else:
            raise Unsupported('assignment below the top of the stack')

    def bounds(self, it, lo, hi, st):
        if st is not None or hi is not None or self.tops:
            raise Unsupported('slice of the stack')
        lo = T(lo)
        if self.e.branch(lo < 0):
            lo = z3.simplify(lo + self.base)
            if self.e.branch(lo < 0):
                lo = z3.IntVal(0)
        if self.e.branch(lo > self.base):
            lo = self.base
        return lo

    def slice(self, it, lo, hi, st):
        return self.view(self.bounds(it, lo, hi, st))

    def view(self, lo):
        n = z3.simplify(self.base - lo)
        if z3.is_int_value(n):
            return PList([self.at(z3.simplify(lo + k)) for k in range(n.as_long())])
        v = PObj(None, {'start': lo, 'n': n}, name='operands from %s' % lo)

        def get(it, a, k):
            i = T(a[0])
            if self.e.branch(i < 0):
                i = z3.simplify(i + n)
            if not self.e.branch(And(i >= 0, i < n)):
                it.throw(IndexError, 'list index out of range')
            return self.at(z3.simplify(lo + i))
        v.attrs['__getitem__'] = SpecFn(get)
        v.attrs['__len__'] = SpecFn(lambda it, a, k: mkint(n))
        return v

    def delslice(self, it, lo, hi, st):
        self.base = z3.simplify(self.bounds(it, lo, hi, st))


ARGT = z3.Function('texts of the arguments joined', IntS, IntS, Str)


class Tok(object):
    """an arbitrary iteration of the loop of evaluate_name_formula"""

    def __init__(self, e, bv, tok, body, size=None, mk=None, blah=0, level=None, need=0, **attrs):
        self.e, self.bv = e, bv
        it = self.it = Interp(e)
        it.contracts[it.resolve('xlrd.biffh.hex_char_dump')] = lambda it_, a, k: None
        it.contracts[it.resolve('xlrd.biffh.BaseObject.dump')] = lambda it_, a, k: None
        self.stack = Stack(e, mk)
        e.assume(self.stack.n0 >= need)
        self.data = d = e.seq('formula', inp=False)
        self.fl = e.int('formula length', lo=1)
        self.nobj = PObj(xlrd.book.Name, dict(raw_formula=d, basic_formula_len=self.fl, name=e.str('name'), evaluated=0), name='nobj')
        self.bk = book(biff_version=bv, logfile=None, **attrs)
        self.rel, self.err = e.int('any_rel', lo=0, hi=1), e.int('any_err', lo=0, hi=1)
        self.pos = e.int('pos', lo=0)
        self.namex = e.int('namex', lo=0)
        self.level = level if level is not None else e.int('level', lo=0, hi=5)
        self.tok, self.body = tok, body
        self.L = None
        self.done = False
        e.assume(self.fl.t <= d.ln)
        e.assume(self.pos.t + 1 + len(body) <= d.ln)
        # the bytes of the token
        arr = d.arr
        for i, b in enumerate([tok] + list(body)):
            arr = z3.Store(arr, z3.simplify(T(d.off) + self.pos.t + i), T(b))
            if not isinstance(b, int):
                e.assume(And(T(b) >= 0, T(b) <= 255))
        d.arr = arr

        def enter(L):
            self.L = L
        spec = LoopSpec('tokens', names=('pos', 'stack'), kind='while', inv=lambda L: [('position', T(L['pos']) >= 0)], body_hook=enter,
                        kinds={'pos': lambda L: self.pos, 'stack': lambda L: self.stack.obj, 'spush': lambda L: self.stack.obj.attrs['append'],
                               'any_rel': lambda L: self.rel, 'any_err': lambda L: self.err})

        def end(L):
            self.done = True
            self.ended(L)
        spec.end_hook = end

        def leave(L):            # what happens after the last token: u_result
            raise PathEnd()
        spec.exit_hook = leave
        it.loop_specs.append(spec)
        self.blah = blah

    def run(self, check):
        self.check = check
        return self.it.outcome(FM + 'evaluate_name_formula', self.bk, self.nobj, self.namex, self.blah, self.level)

    def ended(self, L):
        e = self.e
        self.newpos = T(L['pos']) - self.pos.t
        self.anyrel, self.anyerr = L['any_rel'], L['any_err']
        self.check(self)

    # what the token did
    def flag(self, v, old, add, name):
        add = z3.BoolVal(add) if isinstance(add, bool) else B(add)
        if not isinstance(v, (int, bool, SInt, SBool)):
            v = self.it.truth(v)
        self.e.prove(name, Or(old.t != 0, add) == (T(v) != 0))

    def same(self, taken, put, size, rel=False, err=False):
        """the topmost `taken` operands are gone, `put` new ones there; returns them"""
        e, s = self.e, self.stack
        e.prove('next token', self.newpos == size)
        e.prove('operands taken', s.base == s.n0 - taken)
        e.prove('operands put', len(s.tops) == put)
        self.flag(self.anyrel, self.rel, rel, 'any_rel')
        self.flag(self.anyerr, self.err, err, 'any_err')
        for d, o in s.made.values():
            pass
        return s.tops[0] if put and s.tops else None

    def is_operand(self, o, kind, value, text=None, rank=None):
        e, it = self.e, self.it
        e.prove('kind', T(it.getattr(o, 'kind')) == T(kind))
        v = it.getattr(o, 'value')
        if value is None:
            e.prove('no value', v is None)
        elif callable(value):
            value(v)
        else:
            e.prove('a value', v is not None)
            if isnum(value) or isinstance(value, (SFlt,)):
                e.prove('value', eqval(it, v, value))
            elif is_text(value):
                e.prove('value', is_text(v) and text_eq(it, v, value))
            else:
                e.prove('value', v is value)
        if text is not None:
            t = it.getattr(o, 'text')
            e.prove('text', is_text(t) and text_eq(it, t, text))
        if rank is not None:
            e.prove('rank', T(it.getattr(o, 'rank')) == rank)


def isnum(v):
    return isinstance(v, (int, float, SInt, SBool, SFlt)) and not isinstance(v, bool) or isinstance(v, bool)


def eqval(it, v, w):
    """the same number"""
    fl = isinstance(w, (float, SFlt))
    if not isnum(v):
        return False
    if fl or isinstance(v, (float, SFlt)):
        if not (isinstance(v, (float, SFlt)) and fl):
            return False
        return it.to_sflt(v).t == it.to_sflt(w).t
    return T(v) == T(w)


def text_eq(it, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return text(it, a) == text(it, b)


def flat(parts):
    for p in parts:
        if isinstance(p, list):
            for q in flat(p):
                yield q
        else:
            yield p


def cat(it, *parts):
    """the texts put together"""
    parts = [p for p in flat(parts) if p != '']
    if len(parts) == 1:
        return parts[0]
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return SStr(*[p if isinstance(p, (str, SStr)) else text(it, p) for p in parts])


def paren(it, e, o, rank):
    """the operand's text, in parentheses if it binds less tightly"""
    t = it.getattr(o, 'text')
    if e.branch(T(it.getattr(o, 'rank')) < rank):
        return ['(', t, ')']
    return [t]


# ------------------------------------------------------------------ operators
POW = z3.Function('math.pow', Flt, Flt, Flt)
FLOAT = z3.Function('float of text', Str, Flt)
NTXT = z3.Function('str of float', Flt, Str)
N2S = z3.Function('number as text', Flt, Str)

BIN = {3: ('+', 30, oNUM), 4: ('-', 30, oNUM), 5: ('*', 40, oNUM), 6: ('/', 40, oNUM), 7: ('^', 50, oNUM), 8: ('&', 20, oSTRG),
       9: ('<', 10, oBOOL), 10: ('<=', 10, oBOOL), 11: ('=', 10, oBOOL), 12: ('>=', 10, oBOOL), 13: ('>', 10, oBOOL), 14: ('<>', 10, oBOOL)}
CASES = ('other', 'number', 'number unknown', 'text', 'text unknown')


def mkcase(e, c):
    if c == 0:
        k = e.int('kind', lo=-2, hi=5)
        e.assume(And(k.t != oNUM, k.t != oSTRG))
        return operand(e, k, PObj(None, {}, name='some value') if e.choose('known') else None)
    if c in (1, 2):
        return operand(e, oNUM, e.flt('number') if c == 1 else None)
    return operand(e, oSTRG, e.str('text value') if c == 3 else None)


class Raises(object):
    """whether a library function raised, and what"""

    def __init__(self):
        self.exc = None


def lib(it, e, r):
    def fpow(it_, a, k):
        x, y = it_.to_sflt(a[0]), it_.to_sflt(a[1])
        c = e.choose('math.pow raises', 3)
        if c:
            r.exc = (ValueError, OverflowError)[c - 1]
            it_.throw(r.exc, 'math')
        return SFlt(POW(x.t, y.t))
    it.contracts[math.pow] = fpow

    def flt(it_, a, k):
        v = a[0]
        if is_text(v):
            if e.choose('float raises'):
                r.exc = ValueError
                it_.throw(ValueError, 'could not convert')
            return SFlt(FLOAT(text(it_, v)))
        return it_.to_sflt(v)
    it.contracts[float] = flt
    it.contracts[it.resolve(FM + 'num2strg')] = lambda it_, a, k: SStr(N2S(it_.to_sflt(a[0]).t))


def u_binop(opc):
    sym, rank, kind = BIN[opc]

    def unit(e):
        st = {}

        def mk(d):
            k = str(d)
            return st[k]
        t = Tok(e, 80, opc, [], mk=mk, need=2)
        it = t.it
        r = Raises()
        lib(it, e, r)
        cb, ca = e.choose('second operand', 5), e.choose('first operand', 5)
        st['1'], st['2'] = mkcase(e, cb), mkcase(e, ca)
        b, a = st['1'], st['2']

        def check(t):
            o = t.same(2, 1, 1)
            tx = cat(it, paren(it, e, a, rank), sym, paren(it, e, b, rank))
            known = ca in (1, 3) and cb in (1, 3) and r.exc is None
            va, vb = a.attrs['value'], b.attrs['value']
            val = None
            if known:
                e.cover('known')
                if opc < 8:
                    x, y = [(SFlt(FLOAT(text(it, v))) if is_text(v) else v).t for v in (va, vb)]
                    if opc == 6:
                        if e.branch(Or(y == fltlit(0.0), y == fltlit(-0.0))):
                            known = False
                    val = SFlt(POW(x, y) if opc == 7 else fbin[{3: 'add', 4: 'sub', 5: 'mul', 6: 'div'}[opc]](x, y))
                elif opc == 8:
                    val = cat(it, *[v if is_text(v) else SStr(N2S(v.t)) for v in (va, vb)])
                elif ca != cb:
                    # numbers and texts are never equal, and not ordered
                    if opc in (11, 14):
                        val = int(opc == 14)
                    else:
                        known = False
                else:
                    cmpop = {9: 'Lt', 10: 'LtE', 11: 'Eq', 12: 'GtE', 13: 'Gt', 14: 'NotEq'}[opc]
                    val = 1 if it.truth(it.compare(cmpop, va, vb)) else 0
            if not known:
                val = None
                e.cover('unknown')
            t.is_operand(o, kind, val, tx, rank)
        run_ok(e, t, check)
        e.expect_covers('known', 'unknown', 'tokens/iter')
    return named(unit, 'operator[%s]' % sym)


def run_ok(e, t, check):
    """no exception in the iteration"""
    out = t.run(check)
    if t.L is not None:
        # the path of the iteration ends in end_hook; whatever comes here was raised (or left the loop)
        e.fail('token accepted', 'the iteration ends with %r' % (out,))
    raise PathEnd()


UN = {0x12: ('+', ''), 0x13: ('-', ''), 0x14: ('', '%')}


def u_unop(opc):
    pre, post = UN[opc]
    rank = 60 if opc == 0x14 else 70

    def unit(e):
        c = e.choose('operand', 6)
        a = mkcase(e, c) if c < 5 else operand(e, oBOOL, e.int('truth', lo=0, hi=1))
        if c == 0:
            e.assume(T(a.attrs['kind']) != oBOOL)
        t = Tok(e, 80, opc, [], mk=lambda d: a, need=1)
        it = t.it
        r = Raises()
        lib(it, e, r)

        def check(t):
            o = t.same(1, 1, 1)
            tx = cat(it, *[x for x in (pre, paren(it, e, a, rank), post) if x != ''])
            v = a.attrs['value']
            val = None
            if c in (1, 3, 5) and r.exc is None:
                e.cover('known')
                x = SFlt(FLOAT(text(it, v))) if c == 3 else v
                val = x if opc == 0x12 else it.unary('USub', x) if opc == 0x13 else it.binop('Div', x, 100.0)
            t.is_operand(o, oNUM, val, tx, rank)
        run_ok(e, t, check)
        e.expect_covers('known', 'tokens/iter')
    return named(unit, 'operator[unary %s%s]' % (pre, post))


# ------------------------------------------------------------------ reference operators
BOXES = {0x0F: (' ', ('max', 'min') * 3), 0x10: (',', None), 0x11: (':', ('min', 'max') * 3)}
FIELDS = ('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi')


class Areas(object):
    """a list of any number of references"""

    def __init__(self, e):
        self.n = e.int('references', lo=1)
        self.obj = o = PObj(None, {}, name='references')
        o.attrs['__len__'] = SpecFn(lambda it, a, k: self.n)
        o.attrs['__add__'] = SpecFn(lambda it, a, k: self.add(it, a[0]))
        self.added = None

    def add(self, it, other):
        self.added = PObj(None, {}, name='references added')
        self.added.src = (self.obj, other)
        return self.added


def u_refop(opc):
    sym, fun = BOXES[opc]

    def unit(e):
        ops = []
        for nm in 'ab':
            k = e.choose('kind of ' + nm, 5)
            kind = (oERR, oUNK, oREF, oREL)[k] if k < 4 else None
            if kind is None:
                kind = e.int('kind', lo=1, hi=5)
                e.assume(kind.t != oERR)
            val = None
            if k in (2, 3) and e.choose('known ' + nm):
                val = Areas(e) if opc == 0x10 and nm == 'a' else PList([ref(e, rel=k == 3)])
            o = operand(e, kind, val.obj if isinstance(val, Areas) else val)
            ops.append((k, o, val))
        (ka, a, va), (kb, b, vb) = ops
        t = Tok(e, 80, opc, [], mk=lambda d: {'1': b, '2': a}[str(d)], need=2)
        it = t.it

        def check(t):
            o = t.same(2, 1, 1)
            if ka == 0 or kb == 0:
                kind = oERR
            elif opc == 0x10:
                kind = oREL if {ka, kb} <= {2, 3} and 3 in (ka, kb) else oREF
            else:
                kind = oREL if ka == kb == 3 else oREF
            e.prove('kind', T(it.getattr(o, 'kind')) == kind)
            tx = cat(it, paren(it, e, a, 80), sym, paren(it, e, b, 80))
            e.prove('text', text(it, it.getattr(o, 'text')) == text(it, tx))
            rk = T(it.getattr(o, 'rank'))
            e.prove('rank', rk <= 80)
            v = it.getattr(o, 'value')
            both = va is not None and vb is not None
            if opc == 0x10:
                if both:
                    e.cover('value')
                    e.prove('the references of both', v is not None and getattr(v, 'src', None) == (va.obj, vb))
                else:
                    e.prove('no value', v is None)
                return
            same = both and ka == kb
            if same and ka == 3:
                ra, rb = [x.items[0].attrs['relflags'] for x in (va, vb)]
                same = e.branch(And(*[T(x) == T(y) for x, y in zip(ra, rb)]))
                if not same:
                    e.cover('flags differ')
            if not same:
                e.prove('no value', v is None)
                return
            e.cover('value')
            e.prove('one reference', isinstance(v, (PList, list)))
            v = v.items if isinstance(v, PList) else v
            e.prove('one reference', len(v) == 1 and getattr(v[0], 'cls', None) is xlrd.formula.Ref3D)
            ra, rb = va.items[0], vb.items[0]
            for k, f in enumerate(FIELDS):
                x, y = T(ra.attrs[f]), T(rb.attrs[f])
                want = If(x < y, x, y) if fun[k] == 'min' else If(x < y, y, x)
                e.prove(f, T(it.getattr(v[0], f)) == want)
                e.prove('coords ' + f, T(it.getitem(it.getattr(v[0], 'coords'), k)) == want)
                e.prove('relative ' + f, T(it.getitem(it.getattr(v[0], 'relflags'), k)) == (T(ra.attrs['relflags'][k]) if ka == 3 else 0))
        run_ok(e, t, check)
        e.expect_covers('value', 'tokens/iter', *([] if opc == 0x10 else ['flags differ']))
    return named(unit, 'operator[%s]' % {' ': 'intersection', ',': 'union', ':': 'range'}[sym])


# ------------------------------------------------------------------ constants and attributes
def quiet(e, bv, tok, body, size, **kw):
    """a token that leaves the operands alone"""
    t = Tok(e, bv, tok, body, **kw)

    def check(t):
        t.same(0, 0, size)
        e.cover('accepted')
    run_ok(e, t, check)


def u_nothing(e):
    """parentheses, attributes without effect, the cell reference subexpression header"""
    w = e.choose('token', 3)
    bv = BVS[e.choose('version', 3)]
    if w == 0:
        quiet(e, bv, 0x15, [], 1)
    elif w == 1:
        sub, nc = e.int('attribute', lo=0, hi=255), [e.int('count', lo=0, hi=255) for _ in range(2)]
        e.assume(sub.t != 0x10)
        size = z3.simplify(If(sub.t == 4, 2 * (nc[0].t + 256 * nc[1].t) + 6, z3.IntVal(4)))
        quiet(e, bv, 0x19, [sub] + nc, size)
    else:
        quiet(e, bv, 0x20 * (1 + e.choose('class', 3)) + 9, [e.int('count', lo=0, hi=255) for _ in range(2)], 3)


BVS = (50, 70, 80)
ERRTEXT = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!', 0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}


def u_attrsum(e):
    a = operand(e, e.int('kind', lo=-2, hi=5), PObj(None, {}, name='some value'))
    t = Tok(e, BVS[e.choose('version', 3)], 0x19, [0x10, e.int('x', lo=0, hi=255), e.int('y', lo=0, hi=255)], mk=lambda d: a, need=1)

    def check(t):
        o = t.same(1, 1, 4)
        t.is_operand(o, oNUM, None, cat(t.it, 'SUM(', a.attrs['text'], ')'), LEAF)
    run_ok(e, t, check)
    e.expect_covers('tokens/iter')


def u_missarg(e):
    t = Tok(e, BVS[e.choose('version', 3)], 0x16, [])
    run_ok(e, t, lambda t: t.is_operand(t.same(0, 1, 1), oMSNG, None, '', LEAF))
    e.expect_covers('tokens/iter')


def fstr(it, x):
    return it.call(str, [x])


def u_const(e):
    bv = BVS[e.choose('version', 3)]
    w = e.choose('token', 4)
    by = lambda n: [e.int('byte', lo=0, hi=255) for _ in range(n)]
    if w == 0:
        code = sorted(ERRTEXT)[e.choose('error', 7)]
        t = Tok(e, bv, 0x1C, [code])
        run_ok(e, t, lambda t: t.is_operand(t.same(0, 1, 2), oERR, code, '"%s"' % ERRTEXT[code], LEAF))
    elif w == 1:
        code = e.choose('truth')
        code = 1 if code else 0
        t = Tok(e, bv, 0x1D, [code])
        run_ok(e, t, lambda t: t.is_operand(t.same(0, 1, 2), oBOOL, code, ('FALSE', 'TRUE')[code], LEAF))
    elif w == 2:
        b = by(2)
        t = Tok(e, bv, 0x1E, b)

        def check(t):
            v = SFlt(i2f(b[0].t + 256 * b[1].t))
            t.is_operand(t.same(0, 1, 3), oNUM, v, fstr(t.it, v), LEAF)
        run_ok(e, t, check)
    else:
        b = by(8)
        t = Tok(e, bv, 0x1F, b)

        def check(t):
            v = SFlt(f64(sum((x.t * 256 ** k for k, x in enumerate(b)), z3.IntVal(0))))
            t.is_operand(t.same(0, 1, 9), oNUM, v, fstr(t.it, v), LEAF)
        run_ok(e, t, check)
    e.expect_covers('tokens/iter')


def u_string(e):
    bv = BVS[e.choose('version', 3)]
    enc = 'cp1252'
    t = Tok(e, bv, 0x17, [e.int('length', lo=0, hi=255)], encoding=enc)
    it = t.it
    s, n = e.str('string'), e.int('end', lo=0)

    def up(it_, a, k):
        p = dict(zip(('data', 'pos'), a[:2]), **k)
        e.prove('the string after the token', p['data'] is t.data and bool(e.must(T(p['pos']) == t.pos.t + 1)))
        rest = list(a[2:])
        if bv <= 70:
            e.prove('encoding', (rest.pop(0) if rest else p.get('encoding')) == enc)
        e.prove('one byte length', (rest.pop(0) if rest else p.get('lenlen')) == 1)
        e.prove('nothing else', not rest and not p.get('known_len'))
        e.assume(n.t > t.pos.t + 1)
        e.cover('read')
        return (s, n)
    it.contracts[it.resolve('xlrd.biffh.unpack_string_update_pos' if bv <= 70 else 'xlrd.biffh.unpack_unicode_update_pos')] = up
    def check(t):
        tx = cat(it, '"', it.call(it.getattr(s, 'replace'), ['"', '""']), '"')
        t.is_operand(t.same(0, 1, n.t - t.pos.t), oSTRG, s, tx, LEAF)
    run_ok(e, t, check)
    e.expect_covers('tokens/iter', 'read')


SZ = {'Func': (3, 3), 'FuncVar': (4, 4), 'Name': (15, 5), 'Ref': (4, 5), 'Area': (7, 9), 'NameX': (25, 7), 'Ref3d': (18, 7), 'Area3d': (21, 11),
      'Array': (8, 8), 'MemErr': (7, 7), 'MemNoMem': (7, 7), 'RefErr': (4, 5), 'AreaErr': (7, 9), 'RefErr3d': (18, 7), 'AreaErr3d': (21, 11)}


def size_of(nm, bv):
    return SZ[nm][bv >= 80]


def cls(e):
    return 0x20 * (1 + e.choose('class', 3))


def u_errors(e):
    """references to deleted cells: an operand of kind oERR, and the formula is flagged"""
    bv = BVS[e.choose('version', 3)]
    opc, nm = ((7, 'MemErr'), (8, 'MemNoMem'), (0xA, 'RefErr'), (0xB, 'AreaErr'), (0x1C, 'RefErr3d'), (0x1D, 'AreaErr3d'))[e.choose('token', 6)]
    t = Tok(e, bv, cls(e) + opc, [])
    run_ok(e, t, lambda t: t.is_operand(t.same(0, 1, size_of(nm, bv), err=True), oERR, None))
    e.expect_covers('tokens/iter')


def u_array(e):
    bv = BVS[e.choose('version', 3)]
    t = Tok(e, bv, cls(e), [])
    run_ok(e, t, lambda t: t.is_operand(t.same(0, 1, 8), oUNK, None))
    e.expect_covers('tokens/iter')


def u_refused(e):
    """tokens that no formula of a name can contain are refused, not misread"""
    bv = BVS[e.choose('version', 3)]
    cl = e.choose('class', 4)
    plain = [0, 1, 2, 0x18, 0x1A, 0x1B]
    other = [6, 0xC, 0xD, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x1E, 0x1F]
    ops = other if cl else plain
    t = Tok(e, bv, 0x20 * cl + ops[e.choose('token', len(ops))], [])
    out = t.run(lambda t: e.fail('refused', 'accepted'))
    if t.L is None:
        return
    e.prove('FormulaError', exc_is(out, 'FormulaError', 'XLRDError') and out[1].cls is xlrd.formula.FormulaError)
    e.cover('refused')
    e.expect_covers('refused')


# ------------------------------------------------------------------ functions
class Joined(object):
    def __init__(self, view):
        self.view = view


def joins(e, t):
    """the argument texts, put together by separator.join(a.text for a in <operands>)"""
    def comp(it, x, elt, seq, sub):
        if not (isinstance(seq, PObj) and 'start' in seq.attrs):
            return None
        k = e.int('argument', lo=0)
        e.assume(k.t < T(seq.attrs['n']))
        o = operand(e, e.int('kind', lo=-2, hi=5), PObj(None, {}, name='some value'))
        it.assign(x.generators[0].target, o, sub)
        e.prove('every argument', not x.generators[0].ifs and len(x.generators) == 1)
        e.prove('its text', text(it, it.eval(elt, sub)) == text(it, o.attrs['text']))
        r = PObj(None, {}, name='texts')
        r.src = seq
        return r
    e.ghost['comp_hook'] = comp

    def join(it, sep, xs):
        src = getattr(xs, 'src', None)
        if src is None:
            raise Unsupported('join')
        e.prove('separator', sep == ',')
        return SStr(ARGT(z3.simplify(t.stack.n0 - src.attrs['start']), T(src.attrs['n'])))
    e.ghost['join_hook'] = join


def argtext(t, nargs):
    """the text of the topmost nargs operands, separated by commas"""
    n = z3.simplify(T(nargs))
    return SStr(ARGT(n, n))


def u_func(e):
    """functions with a fixed number of arguments"""
    fixed = sorted(k for k, v in FUNCS.items() if v[1] == v[2])
    part = e.choose('part', 12)
    fid = fixed[part::12][e.choose('function', len(fixed[part::12]))]
    bv = BVS[fid % 3]
    name, n, _ = FUNCS[fid]
    t = Tok(e, bv, 0x20 * (1 + fid % 3) + 1, [fid % 256, fid // 256], need=n)
    it = t.it

    def check(t):
        o = t.same(n, 1, 3)
        tx = ['%s(' % name]
        for k in range(n, 0, -1):
            tx += [it.getattr(t.stack.top(k), 'text')] + ([','] if k > 1 else [])
        t.is_operand(o, oUNK, None, cat(it, tx, ')'), LEAF)
    run_ok(e, t, check)
    e.expect_covers('tokens/iter')


def result_of(e, it, t, fid, nargs):
    """(kind, value) of a function of constant arguments: IF and CHOOSE select an argument"""
    if fid not in (1, 100):
        return oUNK, None
    test = t.stack.at(t.stack.n0 - nargs)
    k, v = test.attrs['kind'], test.attrs['value']
    pick = None
    if fid == 1:
        if k in (oNUM, oBOOL) and v is not None:
            if it.truth(it.compare('Eq', v, 1)):
                pick = t.stack.at(t.stack.n0 - nargs + 1)
            elif it.truth(it.compare('Eq', v, 0)):
                if e.branch(nargs == 2):
                    e.cover('IF without else')
                    return oBOOL, 0
                pick = t.stack.at(t.stack.n0 - nargs + 2)
    elif k == oNUM and v is not None:
        if e.branch(And(fcmp['le'](fltlit(1.0), v.t), fcmp['lt'](v.t, i2f(nargs)))):
            pick = t.stack.at(t.stack.n0 - nargs + f2i(v.t))
    if pick is None:
        return oUNK, None
    e.cover('selected')
    if e.branch(T(pick.attrs['kind']) == oMSNG):
        return oNUM, 0
    return pick.attrs['kind'], pick.attrs['value']


def u_funcvar(ids, nm):
    def unit(e):
        fid = ids[e.choose('function', len(ids))] if len(ids) > 1 else ids[0]
        few = len(ids) > 1
        bv = BVS[fid % 3 if few else e.choose('version', 3)]
        name, lo, hi = FUNCS[fid]
        nargs = e.int('arguments', lo=lo, hi=hi)
        made = []
        kinds = []

        def mk(d):
            # the test argument is the deepest one
            if fid in (1, 100) and e.must(d == nargs.t):
                c = e.choose('test', 4)
                made.append(c)
                if c == 0:
                    return operand(e, oBOOL, e.int('truth', lo=0, hi=1))
                if c == 1:
                    v = e.flt('test value')
                    e.assumed.add('truncation of floats: int(0.0) = 0, int(1.0) = 1, and 1 <= int(v) < n whenever 1 <= v < n')
                    e.assume(And(f2i(fltlit(0.0)) == 0, f2i(fltlit(1.0)) == 1))
                    e.assume(Implies(And(fcmp['le'](fltlit(1.0), v.t), fcmp['lt'](v.t, i2f(nargs.t))), And(f2i(v.t) >= 1, f2i(v.t) < nargs.t)))
                    return operand(e, oNUM, v)
                if c == 2:
                    return operand(e, oNUM, None)
                k = (oUNK, oSTRG, oERR, oREF, oREL, oMSNG)[e.choose('test kind', 6)]
                return operand(e, k, PObj(None, {}, name='some value'))
            return operand(e, e.int('kind', lo=-2, hi=5), PObj(None, {}, name='some value'))
        prompt, macro = (False, False) if few else (e.choose('prompt'), e.choose('macro'))
        t = Tok(e, bv, 0x20 * (1 + fid % 3) + 2, [mkint(nargs.t + (128 if prompt else 0)), fid % 256, fid // 256 + (128 if macro else 0)], mk=mk)
        e.assume(t.stack.n0 >= nargs.t)
        it = t.it
        joins(e, t)

        def check(t):
            e.prove('next token', t.newpos == 4)
            e.prove('operands taken', t.stack.base == t.stack.n0 - nargs.t)
            e.prove('operands put', len(t.stack.tops) == 1)
            t.flag(t.anyrel, t.rel, False, 'any_rel')
            t.flag(t.anyerr, t.err, False, 'any_err')
            o = t.stack.tops[0]
            kind, value = result_of(e, it, t, fid, nargs.t)
            t.is_operand(o, kind, value, cat(it, '%s(' % name, argtext(t, nargs.t), ')'), LEAF)
        run_ok(e, t, check)
        e.expect_covers('tokens/iter')
    return named(unit, 'function[%s]' % nm)


def u_table(e):
    """the table of functions"""
    it = Interp(e)
    d = it.resolve(FM + 'func_defs')
    for k in sorted(FUNCS):
        e.prove('function %d' % k, k in d and tuple(d[k][:3]) == FUNCS[k])
    e.prove('no others', set(d) == set(FUNCS))


def u_unknown(e):
    """a function that is not in the table: nothing is known of the result"""
    bv = BVS[e.choose('version', 3)]
    lo, hi = e.int('function, low byte', lo=0, hi=255), e.int('function, high byte', lo=0, hi=127)
    fid = lo.t + 256 * hi.t
    e.assume(And(*[fid != k for k in FUNCS]))
    nargs = e.int('arguments', lo=0, hi=127)
    t = Tok(e, bv, 0x22, [nargs, lo, hi])
    e.assume(t.stack.n0 >= nargs.t)

    def check(t):
        e.prove('next token', t.newpos == 4)
        e.prove('operands taken', t.stack.base == t.stack.n0 - nargs.t)
        e.prove('operands put', len(t.stack.tops) == 1)
        t.is_operand(t.stack.tops[0], oUNK, None)
    run_ok(e, t, check)
    e.expect_covers('tokens/iter')


# ------------------------------------------------------------------ other names
def u_name_ref(tok, bv):
    """a name in a formula stands for what it refers to, by way of a copy of its result; it is evaluated first if need be"""
    def unit(e):
        level = e.int('level', lo=0, hi=9 if e.choose('deep') else 4)
        lo, hi = e.int('name, low byte', lo=0, hi=255), e.int('name, high byte', lo=0, hi=255)
        ix = lo.t + 256 * hi.t - 1
        refx = None
        if tok == 'Name':
            body = [lo, hi] + ([0] * 12 if bv < 80 else [0, 0])
        else:
            rl, rh = e.int('sheet reference, low byte', lo=0, hi=255), e.int('sheet reference, high byte', lo=0, hi=255)
            refx = rl.t + 256 * rh.t
            body = [rl, rh, lo, hi, 0, 0] if bv >= 80 else [rl, rh] + [0] * 8 + [lo, hi] + [0] * 12
        n = e.int('names', lo=1)
        e.assume(And(ix >= 0, ix < n.t))
        flags = {f: e.int(f, lo=0, hi=1) for f in ('macro', 'binary', 'any_err', 'any_rel')}
        scope = e.int('scope', lo=-4)
        target = PObj(xlrd.book.Name, dict(evaluated=1 if e.choose('evaluated') else 0, macro=flags['macro'], binary=flags['binary'], scope=scope,
                                           name=e.str('target name')), name='target')
        result = operand(e, e.int('kind', lo=-2, hi=5), PObj(None, {}, name='some value'), name='result')

        def known():
            target.attrs.update(any_err=flags['any_err'], any_rel=flags['any_rel'], stack=PList([result]), result=result)
        if target.attrs['evaluated']:
            known()
        names = PObj(None, {}, name='name_obj_list')

        def nth(it_, a, k):
            e.prove('the name', T(a[0]) == ix)
            return target
        names.attrs['__getitem__'] = SpecFn(nth)
        sheets = PObj(None, {}, name='_sheet_names')
        SH = z3.Function('sheet name', IntS, Str)
        e.assume(scope.t < e.int('sheets', lo=0).t)

        def sheet(it_, a, k):
            e.prove('the sheet of the name', And(T(a[0]) == scope.t, scope.t >= 0))
            return SStr(SH(T(a[0])))
        sheets.attrs['__getitem__'] = SpecFn(sheet)
        exty = e.int('type', lo=0, hi=4)
        types = PObj(None, {}, name='_externsheet_type_b57')

        def typ(it_, a, k):
            r = If(refx >= 32768, refx - 65536, refx)
            e.prove('the type of the sheet reference', And(r < 0, T(a[0]) == -r - 1))
            return exty
        types.attrs['__getitem__'] = SpecFn(typ)
        t = Tok(e, bv, 0x20 * (1 + e.choose('class', 3)) + (3 if tok == 'Name' else 0x19), body, level=level,
                name_obj_list=names, _sheet_names=sheets, _externsheet_type_b57=types)
        it = t.it
        st = {'copies': 0, 'evaluated': 0}
        S1, S2 = e.int('first sheet'), e.int('last sheet')

        def again(it_, a, k):
            p = dict(zip(('bk', 'nobj', 'namex', 'blah', 'level'), a), **k)
            if not st['evaluated'] and t.L is None:
                raise Unsupported('evaluated early')
            e.prove('evaluates the target', p['bk'] is t.bk and p['nobj'] is target and bool(e.must(T(p['namex']) == ix)))
            e.prove('one level deeper', T(p['level']) == level.t + 1)
            e.prove('not evaluated before', target.attrs['evaluated'] == 0)
            st['evaluated'] += 1
            target.attrs['evaluated'] = 1
            known()
        target_fn = it.resolve(FM + 'evaluate_name_formula')
        entered = []

        def dispatch(it_, a, k):
            return again(it_, a, k)
        it.contracts[target_fn] = dispatch

        def cp(it_, a, k):
            e.prove('copies the result', a[0] is result)
            st['copies'] += 1
            o = PObj(xlrd.formula.Operand, dict(result.attrs), name='copy')
            o.src = result
            return o
        it.contracts[copy.deepcopy] = cp

        def rng(it_, a, k):
            e.prove('the sheets of the reference', a[0] is t.bk and bool(e.must(T(a[1]) == refx)))
            return (S1, S2)
        it.contracts[it.resolve(FM + 'get_externsheet_local_range')] = rng
        before = dict(result.attrs)

        def check(t):
            external, selfref = False, False
            if tok == 'NameX':
                selfref = e.branch(ix == t.namex.t)
                if bv >= 80:
                    external = selfref or e.branch(S1.t < -1)
                else:
                    r = If(refx >= 32768, refx - 65536, refx)
                    external = selfref or e.branch(Or(r >= 0, exty.t != 4))
            e.prove('next token', t.newpos == size_of(tok, bv))
            e.prove('operands taken', t.stack.base == t.stack.n0)
            e.prove('operands put', len(t.stack.tops) == 1)
            o = t.stack.tops[0]
            if external:
                e.cover('elsewhere')
                t.is_operand(o, oUNK, None)
                t.flag(t.anyrel, t.rel, False, 'any_rel')
                t.flag(t.anyerr, t.err, bool(selfref), 'any_err')
                return
            e.prove('evaluated', target.attrs['evaluated'] == 1)
            bad = Or(flags['macro'].t != 0, flags['binary'].t != 0, flags['any_err'].t != 0)
            tx = cat(it, SStr(SH(scope.t)), '!', target.attrs['name']) if e.branch(scope.t >= 0) else target.attrs['name']
            if e.branch(bad):
                e.cover('bad')
                t.is_operand(o, oUNK, None, tx, LEAF)
                t.flag(t.anyerr, t.err, True, 'any_err')
                t.flag(t.anyrel, t.rel, flags['any_rel'].t != 0, 'any_rel')
            else:
                e.cover('good')
                t.is_operand(o, result.attrs['kind'], lambda v: e.prove('value', v is result.attrs['value']), tx, LEAF)
                t.flag(t.anyerr, t.err, False, 'any_err')
                t.flag(t.anyrel, t.rel, False, 'any_rel')
            e.prove('the result of the name is left alone', o is not result and all(result.attrs.get(k) is v for k, v in before.items()))
        run_ok(e, t, check)
        e.expect_covers('tokens/iter', 'good', 'bad', *(['elsewhere'] if tok == 'NameX' else []))
    return named(unit, 'name%s[BIFF%d]' % ({'Name': '', 'NameX': ' of a reference'}[tok], bv))


# ------------------------------------------------------------------ cell references
def cell(bv, row, col):
    """(row, column, row relative, column relative) of a cell address: offsets are signed"""
    row, col = T(row), T(col)
    if bv >= 80:
        rr, cr = (col / 32768) % 2, (col / 16384) % 2
        r, c, wrap = row, col % 256, 65536
    else:
        rr, cr = (row / 32768) % 2, (row / 16384) % 2
        r, c, wrap = row % 16384, col, 16384
    return (If(And(rr == 1, r >= wrap // 2), r - wrap, r), If(And(cr == 1, c >= 128), c - 256, c), rr, cr)


def addr_bytes(e, bv, area):
    """bytes of an address, and its corners"""
    by = lambda n: [e.int('byte', lo=0, hi=255) for _ in range(n)]
    w = lambda b: b[0].t + 256 * b[1].t
    nc = 2 if bv >= 80 else 1
    if area:
        r1, r2, c1, c2 = by(2), by(2), by(nc), by(nc)
        body = r1 + r2 + c1 + c2
    else:
        r1, c1 = by(2), by(nc)
        r2, c2 = r1, c1
        body = r1 + c1
    v = lambda b: w(b) if len(b) == 2 else b[0].t
    return body, cell(bv, v(r1), v(c1)), cell(bv, v(r2), v(c2))


def check_ref(e, it, o, kind, sheets, a, b, rel, optype):
    e.prove('kind', T(it.getattr(o, 'kind')) == kind)
    v = it.getattr(o, 'value')
    if optype != 1:
        e.prove('no value', v is None)
        return None
    v = v.items if isinstance(v, PList) else v
    e.prove('one reference', isinstance(v, list) and len(v) == 1 and getattr(v[0], 'cls', None) is xlrd.formula.Ref3D)
    r = v[0]
    check_box(e, it, r, sheets, a, b, rel)
    return r


def check_box(e, it, r, sheets, a, b, rel):
    want = (sheets[0], sheets[1] + 1, a[0], b[0] + 1, a[1], b[1] + 1)
    for k, f in enumerate(FIELDS):
        e.prove(f, T(it.getattr(r, f)) == want[k])
        e.prove('coords ' + f, T(it.getitem(it.getattr(r, 'coords'), k)) == want[k])
        e.prove('relative ' + f, T(it.getitem(it.getattr(r, 'relflags'), k)) == T(rel[k]))


def u_ref2d(area, bv):
    """references without a sheet: relative to the sheet the name is used on"""
    def unit(e):
        body, a, b = addr_bytes(e, bv, area)
        optype = 1 + e.choose('class', 3)
        t = Tok(e, bv, 0x20 * optype + (5 if area else 4), body)
        it = t.it

        def check(t):
            o = t.same(0, 1, size_of('Area' if area else 'Ref', bv), rel=True)
            check_ref(e, it, o, oREL if optype == 1 else oUNK, (z3.IntVal(0), z3.IntVal(0)), a, b, (1, 1, a[2], b[2], a[3], b[3]), optype)
        run_ok(e, t, check)
        e.expect_covers('tokens/iter')
    return named(unit, '%s on the same sheet[BIFF%d]' % ('area' if area else 'cell', bv))


def u_ref3d(area, bv):
    """references with a sheet"""
    def unit(e):
        body, a, b = addr_bytes(e, bv, area)
        optype = 1 + (e.choose('class', 3) if bv >= 80 or not area else 0)
        by = lambda n: [e.int('byte', lo=0, hi=255) for _ in range(n)]
        w = lambda x: x[0].t + 256 * x[1].t
        sg = lambda x: If(w(x) >= 32768, w(x) - 65536, w(x))
        if bv >= 80:
            x = by(2)
            head = x
        else:
            x, s1, s2 = by(2), by(2), by(2)
            head = x + [0] * 8 + s1 + s2
        t = Tok(e, bv, 0x20 * optype + (0x1B if area else 0x1A), head + body)
        it = t.it
        S1, S2 = e.int('first sheet', lo=-666), e.int('last sheet', lo=-666)

        def r8(it_, p, k):
            e.prove('the sheets of the reference', p[0] is t.bk and bool(e.must(T(p[1]) == w(x))))
            e.cover('sheets')
            return (S1, S2)

        def r7(it_, p, k):
            e.prove('the sheets of the reference', And(T(p[1]) == sg(x), T(p[2]) == sg(s1), T(p[3]) == sg(s2)))
            e.cover('sheets')
            return (S1, S2)
        it.contracts[it.resolve(FM + 'get_externsheet_local_range')] = r8 if bv >= 80 else None
        it.contracts[it.resolve(FM + 'get_externsheet_local_range_b57')] = r7 if bv < 80 else None
        it.contracts = {k: v for k, v in it.contracts.items() if v is not None}
        R = Or(*[f == 1 for f in (a[2], a[3], b[2], b[3])])
        txt = e.str('text of the reference')
        named_ = []

        def nm(rel):
            def h(it_, p, k):
                q = dict(zip(('book', 'ref3d', 'browx', 'bcolx', 'r1c1') if rel else ('book', 'ref3d'), p), **k)
                e.prove('its own text', q['book'] is t.bk)
                e.prove('relative or not', R if rel else Not(R))
                if rel:
                    e.prove('in R1C1 notation', q.get('browx') is None and q.get('bcolx') is None)
                check_box(e, it, q['ref3d'], (S1.t, S2.t), a, b, (0, 0, a[2], b[2], a[3], b[3]) if rel else (0,) * 6)
                named_.append(q['ref3d'])
                return txt
            return h
        it.contracts[it.resolve(FM + 'rangename3d')] = nm(False)
        it.contracts[it.resolve(FM + 'rangename3drel')] = nm(True)

        def check(t):
            o = t.same(0, 1, size_of('Area3d' if area else 'Ref3d', bv), rel=R, err=S1.t < -1)
            rel = e.branch(R)
            r = check_ref(e, it, o, oREL if rel else oREF, (S1.t, S2.t), a, b, (0, 0, a[2], b[2], a[3], b[3]) if rel else (0,) * 6, optype)
            e.prove('text', it.getattr(o, 'text') is txt)
            e.prove('rank', T(it.getattr(o, 'rank')) == LEAF)
        run_ok(e, t, check)
        e.expect_covers('tokens/iter', 'sheets')
    return named(unit, '%s on a sheet[BIFF%d]' % ('area' if area else 'cell', bv))


# ------------------------------------------------------------------ before and after
def u_result(e):
    """what is stored in the Name"""
    it = Interp(e)
    it.contracts[it.resolve('xlrd.biffh.hex_char_dump')] = lambda it_, a, k: None
    it.contracts[it.resolve('xlrd.biffh.fprintf')] = lambda it_, a, k: None
    d = e.seq('formula', inp=False)
    fl = e.int('formula length', lo=0)
    e.assume(fl.t <= d.ln)
    nobj = PObj(xlrd.book.Name, dict(raw_formula=d, basic_formula_len=fl, name=e.str('name'), evaluated=0), name='nobj')
    bv = BVS[e.choose('version', 3)]
    bk = book(biff_version=bv, logfile=None)
    level = e.int('level', lo=0)
    st = Stack(e)
    rel, err = e.int('any_rel', lo=0, hi=1), e.int('any_err', lo=0, hi=1)
    s = {}

    def begin(L):
        s['in'] = True
        sk = L['stack']
        s['empty'] = isinstance(sk, PList) and not sk.items
        e.prove('starts at the beginning', T(L['pos']) == 0)
        e.prove('no flags', And(T(L['any_rel']) == 0, T(L['any_err']) == 0))
        if e.branch(fl.t == 0):
            e.prove('an empty formula: one unknown operand', isinstance(sk, PList) and len(sk.items) == 1)
            t = sk.items[0]
            e.prove('unknown', T(it.getattr(t, 'kind')) == oUNK and it.getattr(t, 'value') is None)
            s['only'] = t
        else:
            e.prove('no operands', s['empty'])

    def done(L):
        if not e.must(fl.t == 0):
            s['ran'] = True
            L.fr.vars['stack'] = st.obj
            L.fr.vars['spush'] = st.obj.attrs['append']
            L.fr.vars['any_rel'], L.fr.vars['any_err'] = rel, err
        else:
            s['ran'] = False

    spec = LoopSpec('tokens', names=('pos', 'stack'), kind='while', inv=lambda L: [('position', T(L['pos']) >= 0)], entry_hook=begin, exit_hook=done,
                    kinds={'pos': lambda L: e.int('pos', lo=0), 'stack': lambda L: L['stack'], 'spush': lambda L: L['spush'],
                           'any_rel': lambda L: L['any_rel'], 'any_err': lambda L: L['any_err']})

    def cut(L):
        raise PathEnd()
    spec.body_hook = cut
    it.loop_specs.append(spec)
    out = it.outcome(FM + 'evaluate_name_formula', bk, nobj, e.int('namex'), 1 if e.choose('blah') else 0, level)
    if e.branch(level.t > 10):
        e.cover('too deep')
        e.prove('circular references are reported', exc_is(out, 'XLRDError'))
        e.prove('not evaluated', nobj.attrs['evaluated'] == 0)
    else:
        if out[0] != 'ok':
            e.fail('no exception', repr(out))
            return
        e.cover('done')
        e.prove('evaluated', nobj.attrs['evaluated'] == 1)
        if not s.get('ran'):
            o = s['only']
            e.prove('stack', isinstance(nobj.attrs['stack'], PList) and nobj.attrs['stack'].items == [o])
            e.prove('result', nobj.attrs['result'] is o)
            e.prove('flags', And(T(nobj.attrs['any_rel']) == 0, T(nobj.attrs['any_err']) == 0, T(nobj.attrs['any_external']) == 0))
            return
        e.cover('some tokens')
        e.prove('stack', nobj.attrs['stack'] is st.obj)
        e.prove('operands left alone', And(st.base == st.n0, len(st.tops) == 0))
        e.prove('any_rel', (T(nobj.attrs['any_rel']) != 0) == (rel.t != 0))
        e.prove('any_err', (T(nobj.attrs['any_err']) != 0) == (err.t != 0))
        r = nobj.attrs['result']
        if e.branch(st.n0 == 1):
            e.cover('one operand')
            e.prove('result', r is st.at(z3.IntVal(0)))
        else:
            e.prove('no result', r is None)
    e.expect_covers('too deep', 'done', 'some tokens', 'one operand')


# ------------------------------------------------------------------ the text of a reference
QUOTED = z3.Function('sheet name, quoted if need be', IntS, Str)
R2D = z3.Function('rangename2d', IntS, IntS, IntS, IntS, Str)
R2R = z3.Function('rangename2drel', *([IntS] * 9 + [Str]))


def u_quoted(e):
    """sheet names with spaces or apostrophes are put in apostrophes"""
    it = Interp(e)
    shx = e.int('sheet')
    n = e.int('sheets', lo=0)
    e.assume(shx.t < n.t)
    names = PObj(None, {}, name='sheet names')
    N = SStr(z3.Const('the name', Str))

    def get(it_, a, k):
        e.prove('the sheet', And(T(a[0]) == shx.t, shx.t >= 0))
        return N
    names.attrs['__getitem__'] = SpecFn(get)

    out = it.outcome(FM + 'quotedsheetname', names, shx)
    if out[0] != 'ok':
        e.fail('no exception', repr(out))
        return
    r = out[1]
    if e.branch(shx.t >= 0):
        e.cover('a sheet')
        sp, ap = [it.truth(it.contains(N, x)) for x in (' ', "'")]
        if ap:
            want = cat(it, "'", it.call(it.getattr(N, 'replace'), ["'", "''"]), "'")
        elif sp:
            want = cat(it, "'", N, "'")
        else:
            want = N
        e.prove('text', text(it, r) == text(it, want))
        return
    e.cover('no sheet')
    e.prove('is text', is_text(r))
    special = {-1: "'?internal; any sheet?'", -2: "'internal; deleted sheet'", -3: "'internal; macro sheet'", -4: '<<external>>'}
    for k, v in special.items():
        if e.branch(shx.t == k):
            e.prove('text %d' % k, text(it, r) == text(it, v))
            return
    e.prove('text of an error', text(it, r) == text(it, cat(it, "'?error ", SStr(s_of_int(shx.t)), "?'")))


def u_text3d(rel):
    def unit(e):
        it = Interp(e)
        names = PObj(None, {}, name='sheet names')
        bk = PObj(None, {'sheet_names': SpecFn(lambda it_, a, k: names)}, name='book')
        c = tuple(e.int(f) for f in FIELDS)
        e.assume(And(c[2].t < c[3].t, c[4].t < c[5].t, c[0].t < c[1].t))
        fl = tuple(e.int('relative', lo=0, hi=1) for _ in range(4))
        here = rel and e.choose('on the same sheet')
        if here:
            e.assume(And(c[0].t == 0, c[1].t == 1))
        flags = ((1, 1) if here else (0, 0)) + (fl if rel else (0,) * 4)
        r = PObj(xlrd.formula.Ref3D, dict(zip(FIELDS, c), coords=c, relflags=flags), name='ref')

        def quoted(it_, a, k):
            e.prove('the sheet names of the book', a[0] is names)
            e.assume(QUOTED(T(a[1])) != strlit(''))      # u_quoted; the name of a sheet is not empty
            return SStr(QUOTED(T(a[1])))

        def r2(it_, a, k):
            p = dict(zip(('rlo', 'rhi', 'clo', 'chi', 'r1c1'), a), **k)
            e.prove('A1 notation', p.get('r1c1', 0) == 0)
            return SStr(R2D(*[T(p[x]) for x in ('rlo', 'rhi', 'clo', 'chi')]))
        base = [None, None]
        rc = e.choose('r1c1') if rel else False
        if rel and e.choose('base cell'):
            base = [e.int('browx', lo=0), e.int('bcolx', lo=0)]

        def r2r(it_, a, k):
            p = dict(zip(('rows', 'rel', 'browx', 'bcolx', 'r1c1'), a), **k)
            e.prove('base cell and notation', [p.get('browx'), p.get('bcolx')] == base and bool(p.get('r1c1', 0)) == rc)
            return SStr(R2R(*[T(it_.getitem(p['rows'], i)) for i in range(4)], *[T(it_.getitem(p['rel'], i)) for i in range(4)], z3.IntVal(0)))
        it.contracts[it.resolve(FM + 'quotedsheetname')] = quoted
        it.contracts[it.resolve(FM + 'rangename2d')] = r2
        it.contracts[it.resolve(FM + 'rangename2drel')] = r2r
        if rel:
            out = it.outcome(FM + 'rangename3drel', bk, r, *(base + [1 if rc else 0]))
        else:
            out = it.outcome(FM + 'rangename3d', bk, r)
        if out[0] != 'ok':
            e.fail('no exception', repr(out))
            return
        if rel:
            rng = SStr(R2R(*[x.t for x in c[2:]], *[x.t for x in fl], z3.IntVal(0)))
        else:
            rng = SStr(R2D(*[x.t for x in c[2:]]))
        if here:
            e.cover('same sheet')
            want = rng
        else:
            sh = [SStr(QUOTED(c[0].t))]
            if e.branch(c[0].t != c[1].t - 1):
                e.cover('several sheets')
                sh += [':', SStr(QUOTED(z3.simplify(c[1].t - 1)))]
            want = cat(it, sh, '!', rng)
        e.prove('text', is_text(out[1]) and text(it, out[1]) == text(it, want))
        e.expect_covers('several sheets', *(['same sheet'] if rel else []))
    return named(unit, 'rangename3d%s' % ('rel' if rel else ''))


VARF = sorted(k for k, v in FUNCS.items() if k not in (1, 100))

C17 = [u_binop(k) for k in sorted(BIN)] + [u_unop(k) for k in sorted(UN)] + [u_refop(k) for k in sorted(BOXES)] + [
    u_nothing, u_attrsum, u_missarg, u_const, u_string, u_errors, u_array, u_refused, u_func, u_funcvar([1], 'IF'), u_funcvar([100], 'CHOOSE'),
    u_funcvar([4], 'SUM')] + [u_funcvar(VARF[k::4], 'any, part %d' % (k + 1)) for k in range(4)] + [u_table, u_unknown] + [
    u_name_ref(t, bv) for t in ('Name', 'NameX') for bv in BVS] + [f(a, bv) for f in (u_ref2d, u_ref3d) for a in (False, True) for bv in BVS] + [u_result, u_quoted, u_text3d(False), u_text3d(True)]
