"""Symbolic values of the pyvc verifier (a deductive verifier for the Python
subset used by xlrd)."""
import itertools
import z3

# ---------------------------------------------------------------- sorts
Flt = z3.DeclareSort('PyFloat')      # uninterpreted IEEE doubles
Str = z3.DeclareSort('PyStr')        # uninterpreted text values
IntS = z3.IntSort()
BoolS = z3.BoolSort()
ArrII = z3.ArraySort(IntS, IntS)

PV = z3.Datatype('PV')               # a Python value stored in a container
PV.declare('pvnone')
PV.declare('pvint', ('ival', IntS))
PV.declare('pvbool', ('bval', BoolS))
PV.declare('pvflt', ('fval', Flt))
PV.declare('pvstr', ('sval', Str))
PV.declare('pvobj', ('oval', IntS))
PV = PV.create()

f64 = z3.Function('f64', IntS, Flt)               # bits (little endian integer) -> double
i2f = z3.Function('i2f', IntS, Flt)               # exact int -> double conversion
fbin = {op: z3.Function('f' + op, Flt, Flt, Flt) for op in ('add', 'sub', 'mul', 'div', 'pow', 'mod')}
fneg = z3.Function('fneg', Flt, Flt)
fcmp = {op: z3.Function('f' + op, Flt, Flt, BoolS) for op in ('lt', 'le', 'eq')}
fisnan = z3.Function('fisnan', Flt, BoolS)
f2i = z3.Function('f2i', Flt, IntS)               # int(x)
fisint = z3.Function('fisint', Flt, BoolS)
scat = z3.Function('scat', Str, Str, Str)
slen = z3.Function('slen', Str, IntS)
s_of_int = z3.Function('s_of_int', IntS, Str)
s_of_flt = z3.Function('s_of_flt', Flt, Str)
_dec = {}


def dec_fn(enc, errors='strict'):
    key = (enc, errors)
    if key not in _dec:
        _dec[key] = z3.Function('decode[%s,%s]' % key, ArrII, IntS, IntS, Str)
    return _dec[key]


dec_dyn = z3.Function('decode_dyn', Str, ArrII, IntS, IntS, Str)
dec_ok_fns = {}


def dec_ok(enc):
    if enc not in dec_ok_fns:
        dec_ok_fns[enc] = z3.Function('decodable[%s]' % enc, ArrII, IntS, IntS, BoolS)
    return dec_ok_fns[enc]


_lits = {}


def strlit(s):
    if s not in _lits:
        _lits[s] = z3.Const('lit:%r' % s, Str)
    return _lits[s]


def lit_axioms():
    ls = list(_lits.values())
    ax = []
    if len(ls) > 1:
        ax.append(z3.Distinct(*ls))
    return ax


def feq(x, y):
    """x == y of doubles: not identity (NaN differs from itself, 0.0 == -0.0)"""
    x, y = z3.simplify(x), z3.simplify(y)
    xi, yi = [t.decl().eq(i2f) for t in (x, y)]
    if xi and yi:
        return x.arg(0) == y.arg(0)             # (|ints| handled here are exact doubles)
    if x.eq(y):
        return z3.Not(fisnan(x))
    return fcmp['eq'](x, y)


def fltlit(f):
    import struct
    bits = struct.unpack('<Q', struct.pack('<d', f))[0]
    if f == int(f) if f == f and abs(f) < 2 ** 53 else False:
        if bits != 1 << 63:
            return i2f(z3.IntVal(int(f)))
    return f64(z3.IntVal(bits))


# ---------------------------------------------------------------- wrappers
class V(object):
    pass


class SInt(V):
    __slots__ = ('t', 'exact')

    def __init__(self, t, exact=False):
        self.t = t
        self.exact = exact   # provenance: int() of a float, so float(self) is exact

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(V):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SReal(V):
    """A finite double, represented by the real number it denotes."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SReal(%s)' % self.t


class SFlt(V):
    """A double as an uninterpreted value."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SFlt(%s)' % self.t


class SStr(V):
    """Text as a rope of literals and opaque terms."""
    __slots__ = ('parts', 'lenhint', 'src')

    def __init__(self, *parts, lenhint=None, src=None):
        self.src = src        # the bytes this text is the latin-1 decoding of
        out = []
        for p in parts:
            if isinstance(p, SStr):
                seq = p.parts
            else:
                seq = (p,)
            for q in seq:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)
        self.lenhint = lenhint

    def term(self):
        ts = [strlit(p) if isinstance(p, str) else p for p in self.parts]
        if not ts:
            return strlit('')
        r = ts[-1]
        for t in reversed(ts[:-1]):
            r = scat(t, r)
        return r

    def __repr__(self):
        return 'SStr(%s)' % (self.parts,)


class SVal(V):
    """A value of unknown dynamic type (element of a generic container)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SVal(%s)' % self.t


class Opaque(V):
    """Something the engine does not look into (e.g. a formatted message)."""

    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class Poison(V):
    def __init__(self, why):
        self.why = why


def T(x):
    """z3 integer term of an int-like value."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise TypeError('not an int value: %r' % (x,))


def B(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    raise TypeError('not a bool value: %r' % (x,))


def cint(x):
    """python int if x is a constant, else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SInt):
        x = x.t
    if isinstance(x, z3.ArithRef):
        if z3.is_int_value(x):
            return x.as_long()
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def mkint(t):
    if isinstance(t, int):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(t)


class Seq(V):
    """bytes or str as a sequence of small integers (byte values / code points).
    Either `items` (python list of ints / z3 terms) or a view (arr, off, ln)."""
    __slots__ = ('kind', 'items', 'arr', 'off', 'ln', 'src')

    def __init__(self, kind, items=None, arr=None, off=None, ln=None):
        self.kind = kind
        self.items = items
        self.arr = arr
        self.off = off
        self.ln = ln
        self.src = None

    @property
    def length(self):
        """int or z3 term"""
        if self.items is not None:
            return len(self.items)
        c = cint(self.ln)
        return self.ln if c is None else c

    def __repr__(self):
        if self.items is not None:
            return 'Seq[%s]%r' % (self.kind, self.items)
        return 'Seq[%s](%s,%s,%s)' % (self.kind, self.arr, self.off, self.ln)


class SRange(V):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SFmt(V):
    """'<%dH' % n with symbolic n"""

    def __init__(self, template, args):
        self.template, self.args = template, args


class SBitmapBool(V):
    pass


_birth = itertools.count(1)


class Heap(V):
    """mutable object"""

    def __init__(self):
        self.birth = next(_birth)


class PObj(Heap):
    def __init__(self, cls, attrs=None, lazy=None, name=''):
        Heap.__init__(self)
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.lazy = lazy
        self.name = name

    def __repr__(self):
        return '<PObj %s %s>' % (getattr(self.cls, '__name__', self.cls), self.name)


class PList(Heap):
    """list of concrete shape"""

    def __init__(self, items=()):
        Heap.__init__(self)
        self.items = list(items)

    def __repr__(self):
        return 'PList%r' % (self.items,)


class PDict(Heap):
    """dict with concrete hashable keys plus a log of symbolic-key writes"""

    def __init__(self, items=None):
        Heap.__init__(self)
        self.d = dict(items or {})
        self.log = []       # list of (key, value) with symbolic keys
        self.base = None    # optional callable(engine, key) -> (present SBool/bool, value)

    def __repr__(self):
        return 'PDict%r+%r' % (self.d, self.log)


class PSet(Heap):
    def __init__(self, items=()):
        Heap.__init__(self)
        self.s = list(items)


class SymList(Heap):
    """list of symbolic length.  etype:
       'int'|'bool'|'flt'|'pv'|'str' | ('tuple', t...) | ('list', t)"""

    def __init__(self, etype, arrays=None, ln=None, name='L'):
        Heap.__init__(self)
        self.etype = etype
        self.arrays = arrays
        self.ln = ln
        self.name = name
        self.immutable = False
        self.mkobj = None    # for etype 'obj': callable(engine, index term) -> PObj

    def __repr__(self):
        return '<SymList %s %s len=%s>' % (self.name, self.etype, self.ln)


class RowView(V):
    """element i of a SymList of lists; writes go through to the parent"""

    def __init__(self, parent, idx):
        self.parent, self.idx = parent, idx
        self.birth = parent.birth


class Closure(V):
    def __init__(self, node, fr, interp_globals, defaults, kw_defaults, name, qualname):
        self.node, self.fr, self.globals = node, fr, interp_globals
        self.defaults, self.kw_defaults = defaults, kw_defaults
        self.name, self.qualname = name, qualname


class BoundMethod(V):
    def __init__(self, func, self_obj):
        self.func, self.self_obj = func, self_obj


class BuiltinMethod(V):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return 'BuiltinMethod(%r.%s)' % (self.obj, self.name)


class ExcVal(V):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return 'ExcVal(%s,%r)' % (self.cls.__name__, self.args)


class SpecFn(V):
    """a callable supplied by a contract (ghost hook or callee contract)"""

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


SIGNED = {}      # id of a term reading bytes as a signed integer -> (term, unsigned term, number of bytes)
