"""helpers shared by the contract modules"""
import struct
import z3
from pyvc.values import *
from pyvc.interp import Interp, LoopSpec
from pyvc.engine import PathEnd, Unsupported, PyExc
from pyvc.ops import to_pv


def byte(e, d, i):
    """byte i of a symbolic bytes value (term)"""
    if d.items is not None:
        return T(d.items[i]) if isinstance(i, int) else z3.IntVal(0)
    return T(e.sel(d.arr, z3.simplify(T(d.off) + T(i))))


def u8(e, d, i):
    return byte(e, d, i)


def u16(e, d, i):
    return byte(e, d, i) + 256 * byte(e, d, T(i) + 1 if not isinstance(i, int) else i + 1)


def u32(e, d, i):
    j = (lambda k: i + k) if isinstance(i, int) else (lambda k: T(i) + k)
    return byte(e, d, j(0)) + 256 * byte(e, d, j(1)) + 65536 * byte(e, d, j(2)) + 16777216 * byte(e, d, j(3))


def i16(e, d, i):
    t = u16(e, d, i)
    return z3.If(t >= 32768, t - 65536, t)


def i32(e, d, i):
    t = u32(e, d, i)
    return z3.If(t >= 2 ** 31, t - 2 ** 32, t)


def u64(e, d, i):
    return u32(e, d, i) + 4294967296 * u32(e, d, i + 4 if isinstance(i, int) else T(i) + 4)


def bitset(t, k):
    """bit k of a non-negative integer term, as a z3 boolean"""
    return (T(t) / (2 ** k)) % 2 == 1


def bits(t, lo, n):
    return (T(t) / (2 ** lo)) % (2 ** n)


def exc_is(out, *names):
    return out[0] == 'exc' and any(c.__name__ in names for c in out[1].cls.__mro__)


def named(fn, name):
    fn.__name__ = name
    return fn


def text(it, v):
    """z3 term of a text value"""
    return it.text_term(v)


def is_text(v):
    from pyvc.ops import istext
    return istext(v)


def decoded(e, enc, d, off, ln):
    """spec term of bytes d[off:off+ln] decoded"""
    return dec_fn(enc)(d.arr, z3.simplify(T(d.off) + T(off)), z3.simplify(T(ln)))


def fbits(t):
    return f64(t)


def fhundred(t):
    return fbin['div'](t, i2f(z3.IntVal(100)))
