"""Operators, containers and attribute access over symbolic values."""
import builtins
import operator
import re
import struct
import types
import z3
from fractions import Fraction
from .values import *
from .engine import PathEnd, Unsupported, PyExc

NATIVE_BIN = {
    'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
    'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
    'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
}
NATIVE_CMP = {
    'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt,
    'GtE': operator.ge,
}

RND = Fraction(1, 2 ** 53)
TINY = Fraction(1, 2 ** 1074)


def runs(mask):
    """contiguous bit runs of a non-negative mask: [(lo, n)]"""
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def shr(t, k):
    """floor(t / 2^k), merging nested shifts"""
    if z3.is_idiv(t) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        return t.arg(0) / z3.IntVal(t.arg(1).as_long() * 2 ** k)
    return t / (2 ** k)


def unsign(t, m):
    """for t = sN >> k (sN the signed reading of the n-byte unsigned u): t & m == (u >> k) & m
    when m << k fits in n bytes (two's complement)"""
    b, k = t, 1
    if z3.is_idiv(t) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        b, k = t.arg(0), t.arg(1).as_long()
    r = SIGNED.get(b.get_id())
    if r is not None and z3.eq(r[0], b) and m * k < 256 ** r[2]:
        return r[1] if k == 1 else r[1] / z3.IntVal(k)
    return t


def and_const(t, m):
    """z3 term for t & m, m constant python int"""
    if m == 0:
        return z3.IntVal(0)
    if m > 0:
        t = unsign(t, m)
        s = None
        for lo, n in runs(m):
            x = t if lo == 0 else t / z3.IntVal(2 ** lo)
            x = (x % z3.IntVal(2 ** n))
            if lo:
                x = x * z3.IntVal(2 ** lo)
            s = x if s is None else s + x
        return s
    # negative mask: t & m = t - (t & ~m)
    return t - and_const(t, ~m)


def isnum(v):
    return isinstance(v, (bool, int, float, SInt, SBool, SReal, SFlt))


def isintv(v):
    return isinstance(v, (bool, int, SInt, SBool))


def isfltv(v):
    return isinstance(v, (float, SReal, SFlt))


def istext(v):
    return isinstance(v, (str, SStr)) or (isinstance(v, Seq) and v.kind == 'str')


def to_pv(it, v):
    if v is None:
        return PV.pvnone
    if isinstance(v, SVal):
        return v.t
    if isinstance(v, bool):
        return PV.pvbool(z3.BoolVal(v))
    if isinstance(v, SBool):
        return PV.pvbool(v.t)
    if isinstance(v, (int, SInt)):
        return PV.pvint(T(v))
    if isinstance(v, float):
        return PV.pvflt(fltlit(v))
    if isinstance(v, SFlt):
        return PV.pvflt(v.t)
    if isinstance(v, str):
        return PV.pvstr(strlit(v))
    if isinstance(v, SStr):
        return PV.pvstr(v.term())
    if isinstance(v, Seq) and v.kind == 'str':
        return PV.pvstr(it.seq_term(v))
    if isinstance(v, PObj):
        return PV.pvobj(z3.IntVal(v.birth))
    raise Unsupported('value %r in a container' % (v,))


def from_elem(etype, t):
    if etype == 'int':
        return mkint(t)
    if etype == 'bool':
        return mkbool(t)
    if etype == 'flt':
        return SFlt(t)
    if etype == 'str':
        return SStr(t)
    if etype == 'pv':
        return SVal(t)
    raise Unsupported('element type %r' % (etype,))


def esort(etype):
    return {'int': IntS, 'bool': BoolS, 'flt': Flt, 'str': Str, 'pv': PV}[etype]


def elem_term(it, etype, v):
    if etype == 'int':
        return T(v)
    if etype == 'bool':
        return B(v)
    if etype == 'flt':
        return v.t if isinstance(v, SFlt) else fltlit(v)
    if etype == 'str':
        return it.text_term(v)
    if etype == 'pv':
        return to_pv(it, v)
    raise Unsupported('element type %r' % (etype,))


class Ops(object):

    # ------------------------------------------------------------ text helpers
    def seq_term(self, v):
        """opaque text term of a str Seq"""
        f = z3.Function('text_of', ArrII, IntS, IntS, Str)
        v = self.as_view(v)
        return f(v.arr, T(v.off), T(v.ln))

    def text_term(self, v):
        if isinstance(v, str):
            return strlit(v)
        if isinstance(v, SStr):
            return v.term()
        if isinstance(v, Seq):
            if v.items is not None and all(isinstance(x, int) for x in v.items):
                return strlit(''.join(map(chr, v.items)))
            return self.seq_term(v)
        if isinstance(v, SVal):
            return PV.sval(v.t)
        raise Unsupported('text of %r' % (v,))

    def as_view(self, v):
        if v.items is None:
            return v
        arr = z3.K(IntS, z3.IntVal(0))
        for i, x in enumerate(v.items):
            arr = z3.Store(arr, i, T(x))
        return Seq(v.kind, arr=arr, off=0, ln=len(v.items))

    def lift_seq(self, v):
        if isinstance(v, (bytes, bytearray)):
            return Seq('bytes', items=list(v))
        if isinstance(v, str):
            return Seq('str', items=[ord(c) for c in v])
        return v

    def lower_seq(self, v):
        """concrete Seq -> python bytes/str"""
        if isinstance(v, Seq) and v.items is not None and all(cint(x) is not None for x in v.items):
            xs = [cint(x) for x in v.items]
            return bytes(xs) if v.kind == 'bytes' else ''.join(map(chr, xs))
        return v

    def seq_get(self, s, i):
        """z3 term / int of element i (in range)"""
        if s.items is not None:
            ci = cint(i)
            if ci is not None:
                return s.items[ci]
            r = T(s.items[-1]) if s.items else z3.IntVal(0)
            for k in range(len(s.items) - 2, -1, -1):
                r = z3.If(T(i) == k, T(s.items[k]), r)
            return r
        return self.e.sel(s.arr, z3.simplify(T(s.off) + T(i)), s.kind)

    # ------------------------------------------------------------ binary operators
    def binop(self, op, a, b, inplace=False):
        if isinstance(a, SVal) or isinstance(b, SVal):
            a, b = self.unval(a), self.unval(b)
        if isinstance(a, SBool):
            if op in ('BitAnd', 'BitOr') and isinstance(b, (bool, SBool)):
                return mkbool((z3.And if op == 'BitAnd' else z3.Or)(B(a), B(b)))
            a = SInt(T(a))
        if isinstance(b, SBool):
            b = SInt(T(b))
        if not isinstance(a, V) and not isinstance(b, V) and not isinstance(a, (tuple, list)) and \
                not isinstance(b, (tuple, list)):
            if op == 'Mod' and isinstance(a, str):
                return a % (b,) if not isinstance(b, (tuple, dict)) else a % b
            try:
                return NATIVE_BIN[op](a, b)
            except Exception as x:
                self.throw(type(x), *x.args)
        if op == 'Mod' and (istext(a) or isinstance(a, bytes)):
            return self.format(a, b)
        if isintv(a) and isintv(b):
            return self.int_binop(op, a, b)
        if isnum(a) and isnum(b):
            return self.flt_binop(op, a, b)
        if op == 'Add' and isinstance(a, PObj) and isinstance(a.attrs.get('__add__'), SpecFn):
            return self.call(a.attrs['__add__'], [b])
        if op == 'Add':
            import datetime
            from .models import SDelta, SDateTime
            if isinstance(a, datetime.datetime) and isinstance(b, SDelta):
                return SDateTime(a, b)
            if isinstance(b, datetime.datetime) and isinstance(a, SDelta):
                return SDateTime(b, a)
        if op == 'Add':
            return self.concat(a, b, inplace)
        if op == 'Mult':
            if isintv(b):
                return self.repeat(a, b)
            if isintv(a):
                return self.repeat(b, a)
        if isinstance(a, PObj):
            m = self.class_attr(a.cls, {'Add': '__add__', 'Sub': '__sub__'}.get(op, '?'))
            if m:
                return self.call(m, [a, b])
        if isinstance(a, PSet) or isinstance(b, PSet):
            raise Unsupported('set op')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('operator %s on opaque' % op)
        if (istext(a) and isnum(b)) or (istext(b) and isnum(a)) or a is None or b is None:
            self.throw(TypeError, 'unsupported operand types')
        raise Unsupported('operator %s on %r, %r' % (op, a, b))

    def unval(self, v):
        """resolve an SVal by forking on its constructor"""
        if not isinstance(v, SVal):
            return v
        t = z3.simplify(v.t)
        for name, mk in (('pvint', lambda: mkint(PV.ival(t))), ('pvflt', lambda: SFlt(PV.fval(t))),
                         ('pvstr', lambda: SStr(PV.sval(t))), ('pvbool', lambda: mkbool(PV.bval(t))),
                         ('pvnone', lambda: None)):
            if self.e.branch(getattr(PV, 'is_' + name)(t)):
                return mk()
        raise Unsupported('value %r of unknown type' % (v,))

    def int_binop(self, op, a, b):
        e = self.e
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None:
            try:
                return NATIVE_BIN[op](ca, cb)
            except Exception as x:
                self.throw(type(x), *x.args)
        ta, tb = T(a), T(b)
        if op == 'Add':
            return mkint(ta + tb)
        if op == 'Sub':
            return mkint(ta - tb)
        if op == 'Mult':
            return mkint(ta * tb)
        if op in ('FloorDiv', 'Mod'):
            if cb is None:
                if e.branch(tb == 0):
                    self.throw(ZeroDivisionError)
                if not e.must(tb > 0):
                    if not e.branch(tb > 0):
                        # floor division by a negative number
                        q, r = (-ta) / (-tb), (-ta) % (-tb)
                        return mkint(q) if op == 'FloorDiv' else mkint(-r)
            elif cb == 0:
                self.throw(ZeroDivisionError)
            elif cb < 0:
                q, r = (-ta) / (-tb), (-ta) % (-tb)
                return mkint(q) if op == 'FloorDiv' else mkint(-r)
            return mkint(ta / tb) if op == 'FloorDiv' else mkint(ta % tb)
        if op == 'Div':
            return self.flt_binop(op, a, b)
        if op == 'LShift':
            if cb is not None:
                if cb < 0:
                    self.throw(ValueError)
                return mkint(ta * (2 ** cb))
            h = e.ghost.get('shl_hook')
            if h:
                return h(self, a, b)
            if ca is not None and e.must(z3.And(tb >= 0, tb <= 64)):
                r = z3.IntVal(ca << 64)
                for k in range(63, -1, -1):
                    r = z3.If(tb == k, z3.IntVal(ca << k), r)
                return mkint(r)
            raise Unsupported('shift by symbolic amount')
        if op == 'RShift':
            if cb is not None:
                if cb < 0:
                    self.throw(ValueError)
                return mkint(shr(ta, cb))
            if e.must(z3.And(tb >= 0, tb <= 64)):
                r = ta / (2 ** 64)
                for k in range(63, -1, -1):
                    r = z3.If(tb == k, ta / (2 ** k), r)
                return mkint(r)
            raise Unsupported('shift by symbolic amount')
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ca is not None and cb is None:
                ta, tb, ca, cb = tb, ta, cb, ca
            if cb is not None:
                an = and_const(ta, cb)
                if op == 'BitAnd':
                    return mkint(an)
                if op == 'BitOr':
                    return mkint(ta + cb - an)
                return mkint(ta + cb - 2 * an)
            # disjoint bits?
            for x, y in ((ta, tb), (tb, ta)):
                for k in (8, 16, 24, 32):
                    if e.must(z3.And(x >= 0, x < 2 ** k, y % (2 ** k) == 0, y >= 0), timeout=300):
                        return mkint(z3.IntVal(0)) if op == 'BitAnd' else mkint(x + y)
            # general case through bit vectors (needs 0 <= x < 2^32)
            if e.must(z3.And(ta >= 0, ta < 2 ** 32, tb >= 0, tb < 2 ** 32)):
                x, y = z3.Int2BV(ta, 32), z3.Int2BV(tb, 32)
                r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]
                return mkint(z3.BV2Int(r))
            raise Unsupported('bit operation on two symbolic ints')
        if op == 'Pow':
            if ca == 2 and self.e.must(z3.And(tb >= 0, tb <= 64)):
                r = z3.IntVal(2 ** 64)
                for k in range(63, -1, -1):
                    r = z3.If(tb == k, z3.IntVal(2 ** k), r)
                return mkint(r)
            if cb is not None and 0 <= cb <= 4:
                r = z3.IntVal(1)
                for _ in range(cb):
                    r = r * ta
                return mkint(r)
        raise Unsupported('int op %s' % op)

    # -- floats
    def to_sreal(self, v):
        if isinstance(v, SReal):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            fr = Fraction(float(v))
            return SReal(z3.RealVal(fr))
        if isinstance(v, (SInt, SBool)):
            t = T(v)
            if getattr(v, 'exact', False):
                return SReal(z3.ToReal(t))
            if self.e.must(z3.And(t >= -2 ** 53, t <= 2 ** 53)):
                return SReal(z3.ToReal(t))
            return SReal(self.rnd(z3.ToReal(t)))
        raise Unsupported('to_sreal %r' % (v,))

    def to_sflt(self, v):
        if isinstance(v, SFlt):
            return v
        if isinstance(v, float):
            return SFlt(fltlit(v))
        if isinstance(v, (bool, int, SInt, SBool)):
            return SFlt(i2f(T(v)))
        raise Unsupported('to_sflt %r' % (v,))

    def rnd(self, exact, positive_consts=(0, 1, 60, 3600, 24, 1000, 86400, 86400000)):
        """fresh real = IEEE round-to-nearest of `exact`: relative error bound,
        monotonicity against small integers, exact integers (all trusted facts about IEEE-754)"""
        e = self.e
        e.assumed.add('IEEE-754 double rounding facts (|fl(x)-x| <= 2^-53|x| + 2^-1074, monotone at small integers, exact there)')
        r = z3.Real(e.name('fl'))
        d = r - exact
        ab = z3.If(exact >= 0, exact, -exact)
        e.assume(z3.And(d <= ab * RND + TINY, -d <= ab * RND + TINY))
        for c in positive_consts:
            e.assume(z3.Implies(exact <= c, r <= c))
            e.assume(z3.Implies(exact >= c, r >= c))
            e.assume(z3.Implies(exact <= -c, r <= -c))
            e.assume(z3.Implies(exact >= -c, r >= -c))
        return r

    def flt_binop(self, op, a, b):
        if isinstance(a, SReal) or isinstance(b, SReal) or (self.float_mode == 'real'):
            x, y = self.to_sreal(a).t, self.to_sreal(b).t
            if op == 'Sub':
                ex = x - y
                r = self.rnd(ex)
                # Sterbenz: exact when y/2 <= x <= 2y; also x - 0
                self.e.assumed.add('Sterbenz lemma for double subtraction')
                self.e.assume(z3.Implies(z3.And(y > 0, y <= 2 * x, x <= 2 * y), r == ex))
                self.e.assume(z3.Implies(y == 0, r == ex))
                return SReal(r)
            if op == 'Add':
                ex = x + y
                r = self.rnd(ex)
                self.e.assume(z3.Implies(z3.Or(x == 0, y == 0), r == ex))
                return SReal(r)
            if op == 'Mult':
                if z3.is_rational_value(z3.simplify(x)) or z3.is_rational_value(z3.simplify(y)):
                    return SReal(self.rnd(x * y))
                raise Unsupported('nonlinear float product')
            if op == 'Div':
                if z3.is_rational_value(z3.simplify(y)):
                    yv = z3.simplify(y)
                    if yv.as_fraction() == 0:
                        self.throw(ZeroDivisionError)
                    return SReal(self.rnd(x / yv))
            raise Unsupported('float op %s' % op)
        x, y = self.to_sflt(a), self.to_sflt(b)
        key = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'Pow': 'pow', 'Mod': 'mod'}.get(op)
        if key is None:
            raise Unsupported('float op %s' % op)
        if key in ('div', 'mod'):
            if isinstance(b, (int, float)):
                if b == 0:
                    self.throw(ZeroDivisionError)
            elif self.e.branch(z3.Or(y.t == fltlit(0.0), y.t == fltlit(-0.0)) if not isintv(b) else T(b) == 0):
                self.throw(ZeroDivisionError)
        if key == 'pow':
            h = self.e.ghost.get('pow_hook')
            if h:
                h(self, x, y)
        return SFlt(fbin[key](x.t, y.t))

    # -- sequences
    def concat(self, a, b, inplace=False):
        a, b = self.unrow(a), self.unrow(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, list):
            a = PList(a)
        if isinstance(b, list):
            b = PList(b)
        if isinstance(a, PList) and isinstance(b, (PList, tuple)):
            bi = b.items if isinstance(b, PList) else list(b)
            if inplace:
                self.touch(a)
                a.items.extend(bi)
                return a
            if isinstance(b, tuple):
                self.throw(TypeError, 'list + tuple')
            return PList(a.items + bi)
        if isinstance(a, (SymList, PList)) and isinstance(b, (SymList, PList)):
            if inplace:
                self.list_extend(a, b)
                return a
            return self.symlist_concat(a, b)
        at = istext(a) or isinstance(a, Opaque)
        bt = istext(b) or isinstance(b, Opaque)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if at and bt:
                return Opaque('text')
        if at and bt:
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, Seq) and not isinstance(b, SStr) or isinstance(b, Seq) and not isinstance(a, SStr):
                return self.seq_concat(self.lift_seq(a), self.lift_seq(b))
            return SStr(self.rope(a), self.rope(b))
        if isinstance(a, bytes) or isinstance(b, bytes) or (isinstance(a, Seq) and isinstance(b, Seq)):
            x, y = self.lift_seq(a), self.lift_seq(b)
            if isinstance(x, Seq) and isinstance(y, Seq) and x.kind == y.kind:
                return self.seq_concat(x, y)
            self.throw(TypeError, 'cannot concatenate')
        if (at and not bt) or (bt and not at):
            if isnum(a) or isnum(b) or a is None or b is None or isinstance(a, (tuple, PList)) or isinstance(b, (tuple, PList)):
                self.throw(TypeError, 'can only concatenate str')
        if a is None or b is None or isnum(a) != isnum(b):
            self.throw(TypeError, 'unsupported operand types for +')
        raise Unsupported('concat %r + %r' % (a, b))

    def rope(self, v):
        if isinstance(v, SStr) or isinstance(v, str):
            return v
        if isinstance(v, Seq):
            return SStr(self.text_term(v))
        raise Unsupported('rope of %r' % (v,))

    def seq_concat(self, a, b):
        la, lb = a.length, b.length
        if isinstance(la, int) and la == 0:
            return b
        if isinstance(lb, int) and lb == 0:
            return a
        if isinstance(la, int) and isinstance(lb, int) and la + lb <= 4096:
            return Seq(a.kind, items=[self.seq_get(a, i) for i in range(la)] + [self.seq_get(b, i) for i in range(lb)])
        va, vb = self.as_view(a), self.as_view(b)
        # adjacent views of the same array
        if va.arr.eq(vb.arr) and self.e.must(T(va.off) + T(la) == T(vb.off)):
            return Seq(a.kind, arr=va.arr, off=va.off, ln=z3.simplify(T(la) + T(lb)))
        k = z3.Int(self.e.name('k'))
        arr = z3.Lambda([k], z3.If(k < T(la), z3.Select(va.arr, T(va.off) + k),
                                   z3.Select(vb.arr, T(vb.off) + k - T(la))))
        return Seq(a.kind, arr=arr, off=0, ln=z3.simplify(T(la) + T(lb)))

    def repeat(self, a, n):
        cn = cint(n)
        if isinstance(a, (str, bytes)) and cn is not None:
            return a * cn
        if isinstance(a, tuple) and cn is not None:
            return a * cn
        if isinstance(a, PList):
            if cn is not None:
                return PList(a.items * cn)
            if len(a.items) == 1:
                x = a.items[0]
                tn = T(n)
                ln = z3.If(tn > 0, tn, 0)
                r = self.const_list(x, ln)
                if getattr(a, 'is_array', False):
                    r.is_array = True
                    r.store_bound = getattr(a, 'store_bound', None)
                return r
        if isinstance(a, Seq) and a.items is not None and cn is not None:
            return Seq(a.kind, items=a.items * max(cn, 0))
        if isinstance(a, (bytes, str, Seq)):
            a = self.lift_seq(a)
            if isinstance(a.length, int) and a.length == 1:
                tn = T(n)
                return Seq(a.kind, arr=z3.K(IntS, T(self.seq_get(a, 0))), off=0, ln=z3.simplify(z3.If(tn > 0, tn, 0)))
            if isinstance(a, Seq) and a.kind == 'bytes' and a.items is not None and a.items:
                # the bytes over and over
                m, tn, q = len(a.items), T(n), z3.Int(self.e.name('k'))
                body = T(a.items[-1])
                for j in range(m - 1):
                    body = z3.If(q % m == j, T(a.items[j]), body)
                return Seq('bytes', arr=z3.Lambda([q], body), off=0, ln=z3.simplify(z3.If(tn > 0, m * tn, 0)))
            if isinstance(a, Seq):
                return Opaque('repeat')
        if isinstance(a, SymList) and len(a.arrays) and cint(a.ln) == 1:
            # [x] * n where a is a one element symbolic list
            v = self.elem(a, 0)
            tn = T(n)
            return self.const_list(v, z3.If(tn > 0, tn, 0))
        if isinstance(a, SStr) and cn is not None:
            return SStr(*([a] * cn))
        if isinstance(a, (SStr,)):
            return Opaque('repeat')
        if a is None or isinstance(a, (PObj, PDict)):
            self.throw(TypeError)
        raise Unsupported('repeat %r * %r' % (a, n))

    def const_list(self, x, ln, etype=None):
        ln = z3.simplify(ln)
        if etype is None:
            if isinstance(x, bool) or isinstance(x, SBool):
                etype = 'bool'
            elif isinstance(x, (int, SInt)):
                etype = 'int'
            else:
                etype = 'pv'
        return SymList(etype, [z3.K(IntS, elem_term(self, etype, x))], ln, name='rep')

    def coerce_list(self, lst, etype):
        """list value -> (arrays, ln) with element type etype"""
        if isinstance(lst, RowView):
            lst = self.unrow(lst)
        if isinstance(lst, list):
            lst = PList(lst)
        if isinstance(lst, tuple):
            lst = PList(lst)
        if isinstance(lst, PList):
            ets = etype[1:] if isinstance(etype, tuple) and etype[0] == 'tuple' else (etype,)
            arrays = []
            for j, et in enumerate(ets):
                arr = z3.K(IntS, self.default_term(et))
                for i, x in enumerate(lst.items):
                    arr = z3.Store(arr, i, elem_term(self, et, x[j] if isinstance(etype, tuple) else x))
                arrays.append(arr)
            return arrays, z3.IntVal(len(lst.items))
        if isinstance(lst, Seq) and etype == 'int':
            v = self.as_view(lst)
            if cint(v.off) == 0:
                return [v.arr], T(v.ln)
            k = z3.Int(self.e.name('k'))
            return [z3.Lambda([k], z3.Select(v.arr, T(v.off) + k))], T(v.ln)
        if isinstance(lst, SymList):
            if lst.etype == etype:
                return list(lst.arrays), T(lst.ln)
            if etype == 'pv' and lst.etype in ('int', 'str', 'flt', 'bool'):
                k = z3.Int(self.e.name('k'))
                return [z3.Lambda([k], to_pv(self, from_elem(lst.etype, z3.Select(lst.arrays[0], k))))], T(lst.ln)
        raise Unsupported('list coercion %r to %r' % (lst, etype))

    def default_term(self, et):
        return {'int': z3.IntVal(0), 'bool': z3.BoolVal(False), 'pv': PV.pvnone,
                'str': strlit(''), 'flt': fltlit(0.0)}[et]

    def symlist_concat(self, a, b):
        et = a.etype if isinstance(a, SymList) else b.etype
        aa, la = self.coerce_list(a, et)
        ba, lb = self.coerce_list(b, et)
        out = []
        for x, y in zip(aa, ba):
            k = z3.Int(self.e.name('k'))
            out.append(z3.Lambda([k], z3.If(k < la, z3.Select(x, k), z3.Select(y, k - la))))
        return SymList(et, out, z3.simplify(la + lb))

    def unrow(self, v):
        """value copy of a row view (a list inside a symbolic list of lists)"""
        if isinstance(v, RowView):
            p = v.parent
            if isinstance(p.etype, tuple) and p.etype[0] == 'list':
                s = SymList(p.etype[1], [z3.Select(p.arrays[0], v.idx)], z3.Select(p.arrays[1], v.idx))
                s.rowof = v
                return s
        return v

    # ------------------------------------------------------------ formatting
    def format(self, fmt, args):
        if not isinstance(args, (tuple, PDict, dict)):
            args = (args,)
        if isinstance(fmt, (Seq, SStr)):
            fmt = self.lower_seq(fmt)
        if not isinstance(fmt, (str, bytes)) or not isinstance(args, tuple):
            return Opaque('format')
        n = len(re.findall(r'%(?!%)', fmt.replace('%%', '') if isinstance(fmt, str) else fmt.decode('latin1').replace('%%', '')))
        if n != len(args):
            self.throw(TypeError, 'format arguments')
        if all(not isinstance(a, V) for a in args) and all(is_conc(a) for a in args):
            return fmt % args
        if isinstance(fmt, str) and all(isinstance(a, (int, SInt)) for a in args) and \
                re.match(r'^[<>]?(\d*[a-zA-Z])*(%d[a-zA-Z])+$', fmt):
            return SFmt(fmt, args)
        if isinstance(fmt, str):
            # exact rope for %s with text arguments and %d with ints
            parts = re.split(r'(%%|%[#0\- +]*\d*(?:\.\d+)?[a-zA-Z])', fmt)
            out = []
            args = list(args)
            for p in parts:
                if p == '%%':
                    out.append('%')
                elif p.startswith('%') and len(p) > 1:
                    a = args.pop(0)
                    if isinstance(a, V) or not is_conc(a):
                        if p == '%s' and isinstance(a, (SStr, Seq)):
                            out.append(self.rope(a))
                        elif p in ('%s', '%d') and isinstance(a, SInt):
                            out.append(s_of_int(a.t))
                        else:
                            return Opaque('format')
                    else:
                        out.append(p % a)
                else:
                    out.append(p)
            return SStr(*out)
        return Opaque('format')

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if op == 'Is' or op == 'IsNot':
            r = self.is_same(a, b)
            return r if op == 'Is' else neg(r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else neg(r)
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r if op == 'Eq' else neg(r)
        return self.order(op, a, b)

    def is_same(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, SVal):
                return mkbool(PV.is_pvnone(x.t))
            return False
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(B(a) == B(b))
        if isinstance(a, V) or isinstance(b, V):
            if isinstance(a, Heap) or isinstance(b, Heap):
                return a is b
            if isinstance(a, RowView) and isinstance(b, RowView) and a.parent is b.parent:
                return mkbool(T(a.idx) == T(b.idx))
            if isinstance(a, SInt) and isinstance(b, int) or isinstance(b, SInt) and isinstance(a, int):
                return self.equal(a, b)
            return a is b
        return a is b

    def equal(self, a, b):
        e = self.e
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(a, SVal) and isinstance(b, SVal):
                return mkbool(a.t == b.t)
            v, o = (a, b) if isinstance(a, SVal) else (b, a)
            return mkbool(v.t == to_pv(self, o))
        if isinstance(a, RowView):
            a = self.unrow(a)
        if isinstance(b, RowView):
            b = self.unrow(b)
        if not isinstance(a, V) and not isinstance(b, V) and is_conc(a) and is_conc(b):
            return bool(a == b)
        if isintv(a) and isintv(b):
            return mkbool(T(a) == T(b))
        if isnum(a) and isnum(b):
            return self.order('Eq', a, b)
        if isinstance(a, (tuple, PList, list)) and isinstance(b, (tuple, PList, list)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            ia = a.items if isinstance(a, PList) else list(a)
            ib = b.items if isinstance(b, PList) else list(b)
            if len(ia) != len(ib):
                return False
            cs = [self.equal(x, y) for x, y in zip(ia, ib)]
            return mkbool(z3.And(*[B(c) for c in cs])) if cs else True
        ta, tb = istext(a), istext(b)
        if ta and tb:
            return self.text_equal(a, b)
        ba = isinstance(a, bytes) or (isinstance(a, Seq) and a.kind == 'bytes')
        bb = isinstance(b, bytes) or (isinstance(b, Seq) and b.kind == 'bytes')
        if ba and bb:
            return self.seq_equal(self.lift_seq(a), self.lift_seq(b))
        if isinstance(a, (PObj, Closure, PDict)) or isinstance(b, (PObj, Closure, PDict)):
            if isinstance(a, PObj) and isinstance(b, PObj) or type(a) is not type(b):
                if isinstance(a, PObj):
                    m = self.class_attr(a.cls, '__eq__')
                    if isinstance(m, types.FunctionType):
                        return self.call(m, [a, b])
                return a is b
        if isinstance(a, SymList) and isinstance(b, PList) and not b.items:
            return mkbool(T(a.ln) == 0)
        if isinstance(a, SymList) or isinstance(b, SymList):
            raise Unsupported('list equality')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('equality of opaque')
        kinds = [kind_of(a), kind_of(b)]
        if kinds[0] != kinds[1] and None not in kinds:
            return False
        raise Unsupported('equality %r == %r' % (a, b))

    def text_equal(self, a, b):
        if isinstance(a, SStr) or isinstance(b, SStr):
            ra = a if isinstance(a, SStr) else SStr(self.rope(a))
            rb = b if isinstance(b, SStr) else SStr(self.rope(b))
            if len(ra.parts) == len(rb.parts) and all(
                    (isinstance(x, str) and isinstance(y, str) and x == y) or
                    (not isinstance(x, str) and not isinstance(y, str) and x.eq(y))
                    for x, y in zip(ra.parts, rb.parts)):
                return True
            return mkbool(ra.term() == rb.term())
        return self.seq_equal(self.lift_seq(a), self.lift_seq(b))

    def seq_equal(self, a, b):
        la, lb = a.length, b.length
        if isinstance(la, int) and isinstance(lb, int):
            if la != lb:
                return False
            n = la
        elif isinstance(la, int) or isinstance(lb, int):
            n = la if isinstance(la, int) else lb
        else:
            if a.items is None and b.items is None and a.arr.eq(b.arr) and T(a.off).eq(T(b.off)):
                return mkbool(T(la) == T(lb))
            k = z3.Int(self.e.name('k'))
            va, vb = self.as_view(a), self.as_view(b)
            return mkbool(z3.And(T(la) == T(lb), z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < T(la)),
                z3.Select(va.arr, T(va.off) + k) == z3.Select(vb.arr, T(vb.off) + k)))))
        if n > 4096:
            raise Unsupported('long sequence comparison')
        cs = [T(la) == T(lb)]
        for i in range(n):
            cs.append(T(self.seq_get_raw(a, i)) == T(self.seq_get_raw(b, i)))
        return mkbool(z3.And(*cs))

    def seq_get_raw(self, s, i):
        if s.items is not None:
            return s.items[i]
        return z3.simplify(z3.Select(s.arr, T(s.off) + i))

    def order(self, op, a, b):
        if isinstance(a, SVal) or isinstance(b, SVal):
            a, b = self.unval(a), self.unval(b)
        if not isinstance(a, V) and not isinstance(b, V) and is_conc(a) and is_conc(b):
            try:
                return NATIVE_CMP[op](a, b)
            except Exception as x:
                self.throw(type(x), *x.args)
        if isintv(a) and isintv(b):
            return mkbool(cmpz(op, T(a), T(b)))
        if isnum(a) and isnum(b):
            if isinstance(a, SFlt) or isinstance(b, SFlt):
                x, y = self.to_sflt(a).t, self.to_sflt(b).t
                if op == 'Eq':
                    q = feq(x, y)
                    for u, w in ((x, y), (y, x)):
                        if w.decl().eq(i2f) and not u.decl().eq(i2f):   # a double that equals an integer is that integer
                            self.e.assume(z3.Implies(q, z3.And(f2i(u) == w.arg(0), fisint(u))))
                    return mkbool(q)
                if op == 'Lt':
                    return mkbool(fcmp['lt'](x, y))
                if op == 'Gt':
                    return mkbool(fcmp['lt'](y, x))
                if op == 'LtE':
                    return mkbool(fcmp['le'](x, y))
                return mkbool(fcmp['le'](y, x))
            x = a.t if isinstance(a, SReal) else (z3.ToReal(T(a)) if isintv(a) else z3.RealVal(Fraction(a)))
            y = b.t if isinstance(b, SReal) else (z3.ToReal(T(b)) if isintv(b) else z3.RealVal(Fraction(b)))
            return mkbool(cmpz(op, x, y))
        if isinstance(a, (tuple, PList)) and type(a) is type(b):
            ia = list(a) if isinstance(a, tuple) else a.items
            ib = list(b) if isinstance(b, tuple) else b.items
            # lexicographic
            strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
            m = min(len(ia), len(ib))
            steps, last = [], z3.BoolVal(NATIVE_CMP[op](len(ia), len(ib)))
            for i in range(m):
                q = self.equal(ia[i], ib[i])
                if q is True:
                    continue
                lt = B(self.order(strict, ia[i], ib[i]))
                if q is False:
                    last = lt
                    break
                steps.append((lt, B(q)))
            res = last
            for lt, eq in reversed(steps):
                res = z3.Or(lt, z3.And(eq, res))
            return mkbool(res)
        if istext(a) and istext(b):
            if isinstance(a, (str, Seq)) and isinstance(b, (str, Seq)):
                x, y = self.lift_seq(a), self.lift_seq(b)
                if isinstance(x.length, int) and isinstance(y.length, int):
                    return self.order(op, tuple(mkint(T(self.seq_get(x, i))) for i in range(x.length)),
                                      tuple(mkint(T(self.seq_get(y, i))) for i in range(y.length)))
            lt = z3.Function('text before', Str, Str, z3.BoolSort())
            x, y = self.text_term(a), self.text_term(b)
            return mkbool({'Lt': lt(x, y), 'Gt': lt(y, x), 'LtE': z3.Not(lt(y, x)), 'GtE': z3.Not(lt(x, y))}[op])
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb and ka != kb:
            self.throw(TypeError, 'unorderable')
        raise Unsupported('order %s %r %r' % (op, a, b))

    def _unsup(self, m):
        raise Unsupported(m)

    def contains(self, c, x):
        if isinstance(c, PObj) and isinstance(c.attrs.get('__contains__'), SpecFn):
            return self.call(c.attrs['__contains__'], [x])
        if isinstance(c, (dict, set, frozenset)):
            c = list(c)
        if isinstance(c, PDict):
            return self.dict_contains(c, x)
        if isinstance(c, PSet):
            c = c.s
        if isinstance(c, PList):
            c = c.items
        if isinstance(c, (tuple, list)):
            if is_conc(x) and not isinstance(x, V) and all(is_conc(y) and not isinstance(y, V) for y in c):
                return x in c
            cs = []
            for y in c:
                r = self.equal(x, y)
                if r is True:
                    return True
                if r is not False:
                    cs.append(r)
            if not cs:
                return False
            if len(cs) == 1:
                return cs[0]
            return mkbool(z3.Or(*[B(r) for r in cs]))
        if isinstance(c, range):
            c = SRange(c.start, c.stop, c.step)
        if isinstance(c, SRange):
            st = cint(c.step)
            t = T(x)
            if st == 1:
                return mkbool(z3.And(t >= T(c.lo), t < T(c.hi)))
            raise Unsupported('in range with step')
        if isinstance(c, (str, bytes)) and isinstance(x, (str, bytes)):
            return x in c
        if isinstance(c, (str, Seq)) and isinstance(x, (str, Seq)):
            cs, xs = self.lift_seq(c), self.lift_seq(x)
            if isinstance(xs.length, int) and xs.length == 1 and isinstance(cs.length, int):
                xt = self.seq_get(xs, 0)
                return mkbool(z3.Or(*[T(self.seq_get(cs, i)) == T(xt) for i in range(cs.length)])) if cs.length else False
            if isinstance(cs.length, int) and isinstance(xs.length, int):
                n, m = cs.length, xs.length
                return mkbool(z3.Or(*[z3.And(*[T(self.seq_get(cs, i + j)) == T(self.seq_get(xs, j)) for j in range(m)])
                                      for i in range(n - m + 1)])) if n >= m else False
        if isinstance(c, (SStr,)) or isinstance(x, SStr):
            f = z3.Function('str_contains', Str, Str, BoolS)
            if isinstance(c, SStr) and isinstance(x, str) and len(x) == 1:
                # one character: in one of the parts
                cs = []
                for q in c.parts:
                    if isinstance(q, str):
                        if x in q:
                            return True
                    elif z3.is_app(q) and q.decl().name() == 's_of_int' and x not in '-0123456789':
                        pass
                    else:
                        cs.append(f(q, strlit(x)))
                return mkbool(z3.Or(*cs)) if cs else False
            return mkbool(f(self.text_term(c), self.text_term(x)))
        if isinstance(c, bytes) and isintv(x):
            return mkbool(z3.Or(*[T(x) == y for y in c])) if c else False
        if isinstance(c, PObj):
            m = self.class_attr(c.cls, '__contains__') if c.cls is not None else None
            if m:
                return self.call(m, [c, x])
        if isinstance(c, Seq) and isinstance(x, (Seq, bytes)):
            # long view: opaque predicate
            f = z3.Function('bytes_contains', ArrII, IntS, IntS, Str, BoolS)
            xx = self.lower_seq(x)
            if isinstance(xx, bytes):
                v = self.as_view(c)
                return mkbool(f(v.arr, T(v.off), T(v.ln), strlit(repr(xx))))
        raise Unsupported('%r in %r' % (x, c))

    # ------------------------------------------------------------ lengths and iteration
    def length(self, v):
        if isinstance(v, Seq):
            return mkint(T(v.length))
        if isinstance(v, (PList,)):
            return len(v.items)
        if isinstance(v, SymList):
            return mkint(T(v.ln))
        if isinstance(v, RowView):
            p = v.parent
            if isinstance(p.etype, tuple) and p.etype[0] == 'list':
                return mkint(z3.Select(p.arrays[1], v.idx))
            raise Unsupported('len of row')
        if isinstance(v, PDict):
            if v.log or v.base is not None:
                h = getattr(v, 'len_term', None)
                if h is not None:
                    return mkint(h)
                raise Unsupported('len of symbolic dict')
            return len(v.d)
        if isinstance(v, PSet):
            return len(v.s)
        if isinstance(v, SRange):
            lo, hi, st = T(v.lo), T(v.hi), cint(v.step)
            if st is None or st == 0:
                raise Unsupported('range step')
            if st == 1:
                return mkint(z3.If(hi > lo, hi - lo, 0))
            if st > 0:
                return mkint(z3.If(hi > lo, (hi - lo + (st - 1)) / st, 0))
            return mkint(z3.If(lo > hi, (lo - hi + (-st - 1)) / (-st), 0))
        if isinstance(v, SStr):
            if v.lenhint is not None:
                return mkint(v.lenhint)
            n = z3.IntVal(0)
            for p in v.parts:
                if isinstance(p, str):
                    n = n + len(p)
                else:
                    self.e.assume(slen(p) >= 0)
                    self.e.assume((slen(p) == 0) == (p == strlit('')))
                    n = n + slen(p)
            return mkint(n)
        if isinstance(v, SVal):
            return self.length(self.unval(v))
        if isinstance(v, PObj):
            if isinstance(v.attrs.get('__len__'), SpecFn):
                return self.call(v.attrs['__len__'], [])
            m = self.class_attr(v.cls, '__len__') if v.cls is not None else None
            if m:
                return self.call(m, [v])
        if isinstance(v, V):
            if isnum(v):
                self.throw(TypeError, 'object of type int has no len()')
            raise Unsupported('len of %r' % (v,))
        try:
            return len(v)
        except TypeError as x:
            self.throw(TypeError, *x.args)

    def iter_concrete(self, v):
        """python list of elements if the extent is concrete, else None"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, PList):
            return list(v.items)
        if isinstance(v, Seq):
            n = v.length
            if isinstance(n, int):
                if v.kind == 'bytes':
                    return [mkint(T(self.seq_get(v, i))) for i in range(n)]
                return [self.lower_seq(Seq('str', items=[self.seq_get(v, i)])) for i in range(n)]
            return None
        if isinstance(v, SRange):
            lo, hi, st = cint(v.lo), cint(v.hi), cint(v.step)
            if lo is not None and hi is not None and st is not None:
                return list(range(lo, hi, st))
            n = cint(self.length(v))
            if n is not None and st is not None:
                return [mkint(T(v.lo) + i * st) for i in range(n)]
            return None
        if isinstance(v, PDict):
            if v.log or v.base is not None:
                raise Unsupported('iteration over symbolic dict')
            return list(v.d.keys())
        if isinstance(v, PSet):
            return list(v.s)
        if isinstance(v, SymList):
            n = cint(v.ln)
            if n is not None:
                return [self.elem(v, i) for i in range(n)]
            return None
        if isinstance(v, (RowView, SStr, SVal)):
            return None
        if isinstance(v, PObj):
            if v.cls is None:
                return None
            raise Unsupported('iteration over %r' % (v,))
        if isinstance(v, V):
            if isnum(v):
                self.throw(TypeError, 'not iterable')
            raise Unsupported('iteration over %r' % (v,))
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        try:
            return list(v)
        except TypeError as x:
            self.throw(TypeError, *x.args)

    def elem(self, v, i):
        """element i (0 <= i < len) of an iterable"""
        if isinstance(v, SRange):
            return mkint(T(v.lo) + T(i) * T(v.step))
        if isinstance(v, Seq):
            t = self.seq_get(v, i)
            if v.kind == 'bytes':
                return mkint(T(t))
            return Seq('str', items=[t])
        if isinstance(v, SymList):
            return self.sym_elem(v, i)
        if isinstance(v, RowView):
            return self.sym_elem(self.unrow(v), i)
        if isinstance(v, tuple):
            return v[i]
        if isinstance(v, PList):
            return v.items[i]
        if getattr(v, 'elem_fn', None):
            return v.elem_fn(self, i)
        raise Unsupported('element of %r' % (v,))

    def sym_elem(self, v, i):
        t = T(i)
        et = v.etype
        if et == 'objfn':
            if callable(v.mkobj):
                return v.mkobj(self, t)
            o, k = v.mkobj
            return subst_obj(self, o, k, t)
        if isinstance(et, tuple):
            if et[0] == 'tuple':
                return tuple(from_elem(x, sel(a, t)) for x, a in zip(et[1:], v.arrays))
            if et[0] == 'list':
                return RowView(v, t)
            raise Unsupported('etype %r' % (et,))
        r = from_elem(et, sel(v.arrays[0], t))
        bound = getattr(v, 'elem_bound', None)
        if bound is not None and isinstance(r, SInt):
            self.e.assume(z3.And(r.t >= bound[0], r.t <= bound[1]))
        return r

    # ------------------------------------------------------------ subscripts
    def norm_index(self, i, n, exc=True):
        """python index -> non-negative index term; raises IndexError on a path"""
        ci, cn = cint(i), cint(n)
        if ci is not None and cn is not None:
            k = ci + cn if ci < 0 else ci
            if not 0 <= k < cn:
                self.throw(IndexError, 'index out of range')
            return k
        t, nt = T(i), T(n)
        if ci is not None:
            if ci < 0:
                if not self.e.branch(nt + ci >= 0):
                    self.throw(IndexError, 'index out of range')
                return z3.simplify(nt + ci)
            if not self.e.branch(nt > ci):
                self.throw(IndexError, 'index out of range')
            return ci
        if not self.e.branch(z3.And(t >= -nt, t < nt)):
            self.throw(IndexError, 'index out of range')
        if self.e.must(t >= 0):
            return t
        if self.e.branch(t >= 0):
            return t
        return z3.simplify(t + nt)

    def getitem(self, o, k):
        if isinstance(o, (Seq,)):
            if not isintv(k):
                self.throw(TypeError, 'indices must be integers')
            i = self.norm_index(k, o.length)
            return self.elem(o, i)
        if isinstance(o, (tuple, PList, list, range)) or (isinstance(o, (str, bytes)) and isinstance(k, (int, SInt, bool, SBool))):
            if isinstance(o, PList):
                items = o.items
            else:
                items = o
            if not isintv(k):
                if isinstance(k, (SVal,)):
                    k = self.unval(k)
                else:
                    self.throw(TypeError, 'list indices must be integers')
            ck = cint(k)
            if ck is not None:
                try:
                    return items[ck]
                except IndexError:
                    self.throw(IndexError, 'index out of range')
            i = self.norm_index(k, len(items))
            return self.pick(list(items), T(i))
        if isinstance(o, SymList):
            if not isintv(k):
                self.throw(TypeError, 'list indices must be integers')
            i = self.norm_index(k, o.ln)
            return self.sym_elem(o, i)
        if isinstance(o, RowView):
            n = self.length(o)
            i = self.norm_index(k, n)
            return self.sym_elem(self.unrow(o), i)
        if isinstance(o, PDict):
            return self.dict_get(o, k)
        if isinstance(o, dict):
            return self.native_dict_get(o, k)
        if isinstance(o, PObj):
            if isinstance(o.attrs.get('__getitem__'), SpecFn):
                return self.call(o.attrs['__getitem__'], [k])
            m = self.class_attr(o.cls, '__getitem__') if o.cls is not None else None
            if m is None:
                self.throw(TypeError, 'not subscriptable')
            return self.call(m, [o, k])
        if isinstance(o, SVal):
            return self.getitem(self.unval(o), k)
        if o is None or isnum(o):
            self.throw(TypeError, 'not subscriptable')
        if isinstance(o, SStr):
            f = z3.Function('str_at', Str, IntS, Str)
            n = self.length(o)
            i = self.norm_index(k, n)
            return SStr(f(o.term(), T(i)))
        if isinstance(o, V):
            raise Unsupported('subscript of %r' % (o,))
        if is_conc(k):
            return self.native(operator.getitem, [o, k], {})
        raise Unsupported('subscript of %r by %r' % (o, k))

    def pick(self, items, t):
        """items[t], 0 <= t < len(items)"""
        if all(isinstance(x, int) and not isinstance(x, bool) or isinstance(x, SInt) for x in items):
            r = T(items[-1])
            for k in range(len(items) - 2, -1, -1):
                r = z3.If(t == k, T(items[k]), r)
            return mkint(r)
        for k in range(len(items) - 1):
            if self.e.branch(t == k):
                return items[k]
        return items[-1]

    def native_dict_get(self, d, k, default=None, has_default=False):
        if not isinstance(k, V) and is_conc(k):
            if k in d:
                return d[k]
            if has_default:
                return default
            self.throw(KeyError, k)
        keys = list(d.keys())
        if isintv(k):
            ikeys = [x for x in keys if isinstance(x, int)]
            if not ikeys:
                mem = False
            else:
                mem = self.e.branch(z3.Or(*[T(k) == x for x in ikeys]))
            if not mem:
                if has_default:
                    return default
                self.throw(KeyError, k)
            vals = [d[x] for x in ikeys]
            if all(isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SInt) for v in vals):
                r = T(vals[-1])
                for x, v in list(zip(ikeys, vals))[:-1]:
                    r = z3.If(T(k) == x, T(v), r)
                return mkint(r)
            # group keys by value
            groups = []
            for x, v in zip(ikeys, vals):
                for g in groups:
                    if g[1] is v or (is_conc(g[1]) and is_conc(v) and type(g[1]) is type(v) and g[1] == v):
                        g[0].append(x)
                        break
                else:
                    groups.append(([x], v))
            for g in groups[:-1]:
                if self.e.branch(z3.Or(*[T(k) == x for x in g[0]])):
                    return g[1]
            return groups[-1][1]
        for x in keys:
            r = self.equal(k, x)
            if r is False:
                continue
            if r is True or self.e.branch(B(r)):
                return d[x]
        if has_default:
            return default
        self.throw(KeyError, k)

    def dict_get(self, d, k, default=None, has_default=False):
        if not d.log and d.base is None:
            if not isinstance(k, V) and is_conc(k):
                try:
                    if k in d.d:
                        return d.d[k]
                except TypeError:
                    self.throw(TypeError, 'unhashable')
                if has_default:
                    return default
                self.throw(KeyError, k)
            return self.native_dict_get(d.d, k, default, has_default)
        for kk, v in reversed(d.log):
            r = self.equal(k, kk)
            if r is False:
                continue
            if r is True or self.e.branch(B(r)):
                if v is DELETED:
                    if has_default:
                        return default
                    self.throw(KeyError, k)
                return v
        if not isinstance(k, V) and is_conc(k) and k in d.d:
            return d.d[k]
        for kk, v in d.d.items():
            r = self.equal(k, kk)
            if r is False:
                continue
            if r is True or self.e.branch(B(r)):
                return v
        if d.base is not None:
            present, v = d.base(self, k)
            if present is True or (present is not False and self.e.branch(B(present))):
                return v() if callable(v) else v
        if has_default:
            return default
        self.throw(KeyError, k)

    def dict_contains(self, d, k):
        cs = []
        if isinstance(k, (PList, PDict)):
            self.throw(TypeError, 'unhashable')
        if not isinstance(k, V) and is_conc(k) and k in d.d and not d.log:
            return True
        for kk, v in reversed(d.log):
            r = self.equal(k, kk)
            if r is False:
                continue
            if r is True or self.e.branch(B(r)):
                return v is not DELETED
        for kk in d.d:
            r = self.equal(k, kk)
            if r is True:
                return True
            if r is not False:
                cs.append(B(r))
        if d.base is not None:
            present, v = d.base(self, k)
            if present is True:
                return True
            if present is not False:
                cs.append(B(present))
        if not cs:
            return False
        return mkbool(z3.Or(*cs))

    def setitem(self, o, k, v):
        if isinstance(o, PList):
            self.touch(o)
            ck = cint(k)
            if ck is not None:
                try:
                    o.items[ck] = v
                except IndexError:
                    self.throw(IndexError)
                return
            i = T(self.norm_index(k, len(o.items)))
            for j in range(len(o.items) - 1):
                if self.e.branch(i == j):
                    o.items[j] = v
                    return
            o.items[-1] = v
            return
        if isinstance(o, SymList):
            self.touch(o)
            i = self.norm_index(k, o.ln)
            self.sym_store(o, T(i), v)
            return
        if isinstance(o, RowView):
            self.touch(o.parent)
            i = self.norm_index(k, self.length(o))
            p = o.parent
            row = z3.Store(z3.Select(p.arrays[0], o.idx), T(i), elem_term(self, p.etype[1], v))
            p.arrays[0] = z3.Store(p.arrays[0], o.idx, row)
            return
        if isinstance(o, PDict):
            self.touch(o)
            if getattr(o, 'on_set', None):
                o.on_set(self, k, v)
            if not isinstance(k, V) and is_conc(k):
                try:
                    hash(k)
                except TypeError:
                    self.throw(TypeError, 'unhashable')
                if not o.log:
                    o.d[k] = v
                    return
            o.log.append((k, v))
            return
        if isinstance(o, PObj) and isinstance(o.attrs.get('__setitem__'), SpecFn):
            return self.call(o.attrs['__setitem__'], [k, v])
        if isinstance(o, PObj) and o.cls is not None:
            m = self.class_attr(o.cls, '__setitem__')
            if m:
                return self.call(m, [o, k, v])
        raise Unsupported('item assignment to %r' % (o,))

    def delslice(self, o, lo, hi, st):
        if isinstance(o, PObj) and isinstance(o.attrs.get('__delslice__'), SpecFn):
            return self.call(o.attrs['__delslice__'], [lo, hi, st])
        if isinstance(o, PList) and all(x is None or cint(x) is not None for x in (lo, hi, st)):
            self.touch(o)
            del o.items[slice(*[None if x is None else cint(x) for x in (lo, hi, st)])]
            return
        raise Unsupported('del slice of %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, SymList) and not o.immutable and cint(k) == -1 and o.etype != 'objfn':
            self.touch(o)
            if not self.e.branch(T(o.ln) > 0):
                self.throw(IndexError)
            o.ln = z3.simplify(T(o.ln) - 1)
            return
        if isinstance(o, PList):
            self.touch(o)
            ck = cint(k)
            if ck is not None:
                try:
                    del o.items[ck]
                except IndexError:
                    self.throw(IndexError)
                return
        if isinstance(o, PDict):
            self.touch(o)
            if not isinstance(k, V) and is_conc(k) and not o.log:
                if k not in o.d:
                    self.throw(KeyError, k)
                del o.d[k]
                return
            if not self.truth(self.dict_contains(o, k)):
                self.throw(KeyError, k)
            o.log.append((k, DELETED))
            return
        if isinstance(o, PObj) and isinstance(o.attrs.get('__delitem__'), SpecFn):
            return self.call(o.attrs['__delitem__'], [k])
        raise Unsupported('del item of %r' % (o,))

    def sym_store(self, o, i, v):
        et = o.etype
        if isinstance(et, tuple) and et[0] == 'tuple':
            for j, x in enumerate(et[1:]):
                o.arrays[j] = z3.Store(o.arrays[j], i, elem_term(self, x, v[j]))
            return
        if isinstance(et, tuple) and et[0] == 'list':
            arrays, ln = self.coerce_list(v, et[1])
            o.arrays[0] = z3.Store(o.arrays[0], i, arrays[0])
            o.arrays[1] = z3.Store(o.arrays[1], i, ln)
            return
        if et == 'objfn':
            base = SymList('objfn', [], o.ln)
            base.mkobj = o.mkobj

            def mk(it, j, i=T(i), v=v, base=base):
                if it.e.branch(T(j) == i):
                    return v
                return it.sym_elem(base, j)
            o.mkobj = mk
            o.stored = getattr(o, 'stored', ()) + ((i, v),)
            return
        b = getattr(o, 'store_bound', None)
        if b is not None and not self.e.branch(z3.And(T(v) >= b[0], T(v) <= b[1])):
            self.throw(OverflowError, 'array item out of range')
        o.arrays[0] = z3.Store(o.arrays[0], i, elem_term(self, et, v))

    # ------------------------------------------------------------ slices
    def slice_bounds(self, lo, hi, n):
        """python slice semantics, step 1 -> (start, length) terms/ints"""
        e = self.e
        cn = cint(n)

        def norm(x, dflt):
            if x is None:
                return dflt
            cx = cint(x)
            if cx is not None and cn is not None:
                y = cx + cn if cx < 0 else cx
                return min(max(y, 0), cn)
            t = T(x)
            nt = T(n)
            if cx == 0:
                return 0
            if e.must(z3.And(t >= 0, t <= nt)):
                return x if not isinstance(x, SInt) else x.t
            if e.must(t >= 0):
                return z3.If(t > nt, nt, t)
            if e.must(t < 0):
                return z3.If(t + nt < 0, z3.IntVal(0), t + nt)
            return z3.If(t < 0, z3.If(t + nt < 0, z3.IntVal(0), t + nt), z3.If(t > nt, nt, t))
        a = norm(lo, 0)
        b = norm(hi, n if cn is None else cn)
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None:
            return ca, max(cb - ca, 0)
        if ca == 0:
            ln = T(b)
        else:
            d = z3.simplify(T(b) - T(a))
            if z3.is_int_value(d):
                ln = z3.IntVal(max(d.as_long(), 0))
            elif e.must(d >= 0):
                ln = d
            else:
                ln = z3.If(d > 0, d, z3.IntVal(0))
        ln = z3.simplify(ln)
        cl = cint(ln)
        return a, (cl if cl is not None else ln)

    def getslice(self, o, lo, hi, st):
        if isinstance(o, PObj) and isinstance(o.attrs.get('__getslice__'), SpecFn):
            return self.call(o.attrs['__getslice__'], [lo, hi, st])
        for x in (lo, hi, st):
            if x is not None and not isintv(x):
                if isinstance(x, SVal):
                    raise Unsupported('slice by unknown value')
                self.throw(TypeError, 'slice indices must be integers')
        if isinstance(o, (str, bytes, tuple)):
            if isinstance(lo, SBool):
                lo = self.e.branch(lo.t)
            if isinstance(hi, SBool):
                hi = self.e.branch(hi.t)
        if isinstance(o, (PList, tuple, str, bytes, list, range)) and all(x is None or cint(x) is not None for x in (lo, hi, st)):
            sl = slice(*[None if x is None else cint(x) for x in (lo, hi, st)])
            if isinstance(o, PList):
                return PList(o.items[sl])
            return o[sl]
        if st is not None and cint(st) != 1:
            if isinstance(o, Seq) and o.items is not None:
                sl = slice(*[None if x is None else cint(x) for x in (lo, hi, st)])
                return self.lower_seq(Seq(o.kind, items=o.items[sl]))
            raise Unsupported('slice step')
        if isinstance(o, (str, bytes)):
            o = self.lift_seq(o)
        if isinstance(o, Seq):
            a, ln = self.slice_bounds(lo, hi, o.length)
            ca = cint(a)
            if o.items is not None and ca is not None and isinstance(ln, int):
                return self.lower_seq(Seq(o.kind, items=o.items[ca:ca + ln]))
            if o.items is not None and len(o.items) <= 64 and ca is None and isinstance(ln, int):
                return Seq(o.kind, items=[self.seq_get(o, T(a) + j) for j in range(ln)])
            v = self.as_view(o)
            return Seq(o.kind, arr=v.arr, off=z3.simplify(T(v.off) + T(a)), ln=ln if isinstance(ln, int) else ln)
        if isinstance(o, RowView):
            o = self.unrow(o)
        if isinstance(o, SymList):
            a, ln = self.slice_bounds(lo, hi, o.ln)
            return self.sublist(o, a, ln)
        if isinstance(o, (PList, tuple)):
            # symbolic bounds on a concrete list: fork
            items = list(o.items if isinstance(o, PList) else o)
            a, ln = self.slice_bounds(lo, hi, len(items))
            mk = PList if isinstance(o, PList) else tuple
            for x in range(len(items) + 1):
                if self.e.branch(T(a) == x):
                    for m in range(len(items) - x + 1):
                        if self.e.branch(T(ln) == m):
                            return mk(items[x:x + m])
            raise PathEnd()
        if isinstance(o, SStr):
            h = self.e.ghost.get('slice_hook')
            r = h(self, o, lo, hi) if h is not None else None
            if r is not None:
                return r
            f = z3.Function('str_slice', Str, IntS, IntS, Str)
            n = self.length(o)
            a, ln = self.slice_bounds(lo, hi, n)
            return SStr(f(o.term(), T(a), T(ln)), lenhint=T(ln))
        if isinstance(o, SVal):
            return self.getslice(self.unval(o), lo, hi, st)
        if o is None or isnum(o):
            self.throw(TypeError, 'not subscriptable')
        raise Unsupported('slice of %r' % (o,))

    def sublist(self, o, a, ln):
        if o.etype == 'objfn':
            sl = SymList('objfn', [], T(ln))
            base = SymList('objfn', [], o.ln)            # as it is now
            base.mkobj = o.mkobj

            def mk(it, i):
                return it.sym_elem(base, z3.simplify(T(a) + T(i)))
            sl.mkobj = mk
            return sl
        if isinstance(o.etype, tuple) and o.etype[0] == 'list':
            # a slice shares the rows: views must write through; model as copy (read only)
            pass
        if cint(a) == 0:
            arrays = list(o.arrays)
        else:
            k = z3.Int(self.e.name('k'))
            arrays = [z3.Lambda([k], z3.Select(x, T(a) + k)) for x in o.arrays]
        s = SymList(o.etype, arrays, T(ln), name=o.name + '.slice')
        if hasattr(o, 'elem_bound'):
            s.elem_bound = o.elem_bound
        return s

    def setslice(self, o, lo, hi, v, st):
        if st is not None:
            raise Unsupported('extended slice assignment')
        if isinstance(o, PList) and all(x is None or cint(x) is not None for x in (lo, hi)):
            items = self.iter_concrete(v)
            if items is not None:
                self.touch(o)
                o.items[slice(None if lo is None else cint(lo), None if hi is None else cint(hi))] = items
                return
        if isinstance(o, (SymList, RowView)):
            n = self.length(o)
            a, ln = self.slice_bounds(lo, hi, n)
            et = o.etype if isinstance(o, SymList) else o.parent.etype[1]
            varr, vn = self.coerce_list(v, et)
            if isinstance(o, SymList):
                self.touch(o)
                arrays = o.arrays
            else:
                self.touch(o.parent)
                arrays = [z3.Select(o.parent.arrays[0], o.idx)]
            out = []
            for x, y in zip(arrays, varr):
                k = z3.Int(self.e.name('k'))
                out.append(z3.Lambda([k], z3.If(k < T(a), z3.Select(x, k),
                                                z3.If(k < T(a) + vn, z3.Select(y, k - T(a)),
                                                      z3.Select(x, k - vn + T(ln))))))
            newlen = z3.simplify(T(n) - T(ln) + vn)
            if isinstance(o, SymList):
                o.arrays = out
                o.ln = newlen
            else:
                p = o.parent
                p.arrays[0] = z3.Store(p.arrays[0], o.idx, out[0])
                p.arrays[1] = z3.Store(p.arrays[1], o.idx, newlen)
            return
        raise Unsupported('slice assignment to %r' % (o,))

    # ------------------------------------------------------------ list mutation
    def list_append(self, o, v):
        if isinstance(o, PList):
            self.touch(o)
            o.items.append(v)
            return
        if isinstance(o, SymList):
            self.touch(o)
            n = T(o.ln)
            if o.etype == 'objfn':
                old, oldmk = None, o.mkobj
                base = SymList('objfn', [], n)
                base.mkobj = oldmk

                def mk(it, i, n=n, v=v, base=base):
                    if it.e.branch(T(i) == n):
                        return v
                    return it.sym_elem(base, i)
                o.mkobj = mk
                o.appended = getattr(o, 'appended', ()) + (v,)
                o.ln = z3.simplify(n + 1)
                return
            if isinstance(o.etype, tuple) and o.etype[0] == 'list':
                self.claim_fresh(v)
            self.sym_store(o, n, v)
            o.ln = z3.simplify(n + 1)
            return
        if isinstance(o, RowView):
            p = o.parent
            self.touch(p)
            n = T(self.length(o))
            p.arrays[0] = z3.Store(p.arrays[0], o.idx, z3.Store(z3.Select(p.arrays[0], o.idx), n, elem_term(self, p.etype[1], v)))
            p.arrays[1] = z3.Store(p.arrays[1], o.idx, n + 1)
            return
        raise Unsupported('append to %r' % (o,))

    def claim_fresh(self, v):
        """ownership: a row stored in a list of lists must not be shared"""
        if isinstance(v, RowView) or getattr(v, 'rowof', None) is not None and False:
            raise Unsupported('ownership: row aliasing')
        if isinstance(v, Heap):
            if getattr(v, 'owned', False):
                raise Unsupported('ownership: list stored twice')
            v.owned = True

    def list_extend(self, o, v):
        if isinstance(o, PList):
            items = self.iter_concrete(v)
            if items is not None:
                self.touch(o)
                o.items.extend(items)
                return
            if not o.items:
                raise Unsupported('extend of concrete list by symbolic list')
            raise Unsupported('extend of concrete list by symbolic list')
        if isinstance(o, SymList):
            self.touch(o)
            r = self.symlist_concat(o, v)
            o.arrays, o.ln = r.arrays, r.ln
            return
        if isinstance(o, RowView):
            p = o.parent
            self.touch(p)
            r = self.symlist_concat(self.unrow(o), v)
            p.arrays[0] = z3.Store(p.arrays[0], o.idx, r.arrays[0])
            p.arrays[1] = z3.Store(p.arrays[1], o.idx, r.ln)
            return
        raise Unsupported('extend of %r' % (o,))

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=None, has_default=False):
        if isinstance(o, PObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported('read of attribute %s: %s' % (name, v.why))
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = PDict()
                d.d = o.attrs
                return d
            ca, found = None, False
            if o.cls is not None:
                for c in o.cls.__mro__:
                    if name in c.__dict__:
                        ca, found = c.__dict__[name], True
                        break
            if found:
                if isinstance(ca, types.FunctionType):
                    return BoundMethod(ca, o)
                if isinstance(ca, property):
                    return self.call(ca.fget, [o])
                if isinstance(ca, staticmethod):
                    return ca.__func__
                if isinstance(ca, classmethod):
                    return BoundMethod(ca.__func__, o.cls)
                if isinstance(ca, types.MemberDescriptorType):
                    pass   # empty slot
                elif o.lazy is None or not (o.lazy(self, o, name, True)):
                    return ca
            if o.lazy is not None:
                v = o.lazy(self, o, name, False)
                if v is not None:
                    o.attrs[name] = v if v is not NONE else None
                    return o.attrs[name]
            if has_default:
                return default
            if o.lazy is not None:
                raise Unsupported('attribute %s of %r not described by the contract' % (name, o))
            self.throw(AttributeError, name)
        if isinstance(o, ExcVal):
            if name == 'args':
                return o.args
            if name == '__class__':
                return o.cls
            raise Unsupported('exception attribute %s' % name)
        if isinstance(o, SVal):
            return self.getattr(self.unval(o), name, default, has_default)
        if isinstance(o, V):
            if isinstance(o, (Seq, PList, PDict, PSet, SymList, RowView, SStr, Opaque, SInt, SBool, SRange, SReal, SFlt)):
                if has_default and not builtin_has(o, name):
                    return default
                if not builtin_has(o, name):
                    self.throw(AttributeError, name)
                return BuiltinMethod(o, name)
            if isinstance(o, Closure) and name == '__name__':
                return o.name
            raise Unsupported('attribute %s of %r' % (name, o))
        try:
            v = getattr(o, name)
        except AttributeError as x:
            if has_default:
                return default
            self.throw(AttributeError, *x.args)
        if isinstance(v, types.MethodType) and not isinstance(o, type):
            return v
        if isinstance(v, types.BuiltinMethodType) and isinstance(o, (str, bytes, list, dict, tuple)):
            return BuiltinMethod(o, name)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            self.touch(o, name)
            if self.on_setattr is not None:
                self.on_setattr(o, name, v)
            o.attrs[name] = v
            return
        raise Unsupported('attribute assignment on %r' % (o,))


DELETED = object()
NONE = object()


def sel(a, t):
    r = z3.Select(a, t)
    return r


def builtin_has(o, name):
    py = {Seq: None, PList: list, PDict: dict, PSet: set, SymList: list, RowView: list, SStr: str, Opaque: str,
          SInt: int, SBool: bool, SRange: range, SReal: float, SFlt: float}
    t = py.get(type(o))
    if isinstance(o, Seq):
        t = bytes if o.kind == 'bytes' else str
    if isinstance(o, SymList) and getattr(o, 'is_array', False):
        import array
        t = array.array
    return hasattr(t, name)


def neg(r):
    if isinstance(r, bool):
        return not r
    return mkbool(z3.Not(B(r)))


def cmpz(op, x, y):
    return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y, 'Eq': x == y}[op]


def is_conc(v):
    if isinstance(v, V):
        return False
    if isinstance(v, (tuple, list)):
        return all(is_conc(x) for x in v)
    return not isinstance(v, z3.AstRef)


def kind_of(v):
    if v is None:
        return 'none'
    if isnum(v):
        return 'num'
    if istext(v):
        return 'text'
    if isinstance(v, bytes) or isinstance(v, Seq):
        return 'bytes'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, (PList, SymList, list, RowView)):
        return 'list'
    if isinstance(v, (PDict, dict)):
        return 'dict'
    if isinstance(v, (PObj, type, types.FunctionType, Closure, BoundMethod)):
        return 'obj'
    return None


def subst_value(it, v, k, t):
    if isinstance(v, SInt):
        return mkint(z3.substitute(v.t, (k, t)))
    if isinstance(v, SBool):
        return mkbool(z3.substitute(v.t, (k, t)))
    if isinstance(v, SFlt):
        return SFlt(z3.substitute(v.t, (k, t)))
    if isinstance(v, SVal):
        return SVal(z3.substitute(v.t, (k, t)))
    if isinstance(v, SStr):
        return SStr(*[p if isinstance(p, str) else z3.substitute(p, (k, t)) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(subst_value(it, x, k, t) for x in v)
    if isinstance(v, PObj):
        return subst_obj(it, v, k, t)
    if not isinstance(v, V):
        return v
    raise Unsupported('substitution in %r' % (v,))


def subst_obj(it, o, k, t):
    return PObj(o.cls, {n: subst_value(it, v, k, t) for n, v in o.attrs.items()})
