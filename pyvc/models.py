"""Models of the builtins and library functions the verified code calls."""
import array
import builtins
import datetime
import functools
import operator
import re
import struct
import sys
import time
import types
import z3
from fractions import Fraction
from .values import *
from .engine import PathEnd, Unsupported, PyExc
from .ops import (isnum, isintv, isfltv, istext, kind_of, is_conc, from_elem, elem_term, NONE, DELETED, builtin_has)


class SDelta(V):
    def __init__(self, days, secs, us, ms):
        self.days, self.secs, self.us, self.ms = days, secs, us, ms


class SDateTime(V):
    def __init__(self, epoch, delta):
        self.epoch, self.delta = epoch, delta


def install(it):
    M = it.models
    g = globals()
    for name in list(g):
        if name.startswith('b_'):
            M[getattr(builtins, name[2:])] = g[name]
    M[struct.unpack] = m_unpack
    M[struct.calcsize] = m_calcsize
    M[struct.unpack_from] = m_unpack_from
    M[array.array] = m_array
    M[datetime.timedelta] = m_timedelta
    M[time.time] = lambda it, a, k: Opaque('time')
    M[operator.eq] = lambda it, a, k: it.compare('Eq', *a)
    M[operator.ne] = lambda it, a, k: it.compare('NotEq', *a)
    M[operator.lt] = lambda it, a, k: it.compare('Lt', *a)
    M[operator.le] = lambda it, a, k: it.compare('LtE', *a)
    M[operator.gt] = lambda it, a, k: it.compare('Gt', *a)
    M[operator.ge] = lambda it, a, k: it.compare('GtE', *a)
    M[operator.add] = lambda it, a, k: it.binop('Add', *a)
    M[operator.sub] = lambda it, a, k: it.binop('Sub', *a)
    M[operator.mul] = lambda it, a, k: it.binop('Mult', *a)
    M[operator.truediv] = lambda it, a, k: it.binop('Div', *a)
    M[operator.pow] = lambda it, a, k: it.binop('Pow', *a)
    M[operator.attrgetter] = lambda it, a, k: SpecFn(lambda it2, aa, kk: it2.getattr(aa[0], a[0]))
    M[operator.itemgetter] = lambda it, a, k: SpecFn(lambda it2, aa, kk: it2.getitem(aa[0], a[0]))
    M[functools.reduce] = m_reduce
    M[re.compile] = None
    del M[re.compile]
    from . import interp
    interp.Interp.call_builtin_method = call_builtin_method


# ---------------------------------------------------------------- struct
SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'd': 8, 's': 1}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode('ascii')
    order = '<'
    if fmt[:1] in '<>=!@':
        order = fmt[0]
        body = fmt[1:]
    else:
        order = '@'
        body = fmt
    if order not in '<' and not (order in '=@' and re.match(r'^\d*[bBxcs]+$', body)):
        if order in '=':
            order = '<'
        elif order in '@' and struct.calcsize(fmt) == struct.calcsize('<' + body) and sys.byteorder == 'little':
            order = '<'
        else:
            raise Unsupported('struct format %r' % fmt)
    items = []
    for cnt, ch in re.findall(r'(\d*)([a-zA-Z?])', body):
        n = int(cnt) if cnt else 1
        if ch not in SIZES:
            raise Unsupported('struct code %r' % ch)
        if ch == 's':
            items.append(('s', n))
        else:
            items.extend([(ch, 1)] * n)
    return items


def fmt_size(items):
    return sum(n if c == 's' else SIZES[c] for c, n in items)


def le_int(bs):
    t = None
    for k, b in enumerate(bs):
        x = T(b) if k == 0 else T(b) * (256 ** k)
        t = x if t is None else t + x
    return t


def signed(t, n):
    r = z3.If(t >= 2 ** (8 * n - 1), t - 2 ** (8 * n), t)
    SIGNED[r.get_id()] = (r, t, n)
    return r


def m_calcsize(it, a, k):
    if isinstance(a[0], (str, bytes)):
        return struct.calcsize(a[0])
    raise Unsupported('calcsize')


def m_unpack_from(it, a, k):
    fmt, data = a[0], a[1]
    off = a[2] if len(a) > 2 else k.get('offset', 0)
    size = struct.calcsize(fmt)
    sub = it.getslice(data, off, it.binop('Add', off, size), None)
    return m_unpack(it, [fmt, sub], {})


def m_unpack(it, a, k):
    fmt, data = a
    e = it.e
    if isinstance(fmt, Seq):
        fmt = it.lower_seq(fmt)
    if isinstance(data, bytes):
        if isinstance(fmt, (str, bytes)):
            return it.native(struct.unpack, [fmt, data], {})
        data = it.lift_seq(data)
    if isinstance(data, SVal) or not isinstance(data, Seq) or data.kind != 'bytes':
        if isinstance(data, SymList) and getattr(data, 'is_array', False):
            raise Unsupported('unpack of array')
        raise Unsupported('unpack of %r' % (data,))
    if isinstance(fmt, SFmt):
        m = re.match(r'^<(x*)%d([a-zA-Z])$', fmt.template)
        if not m or m.group(2) not in 'bBhHiIlL':
            raise Unsupported('dynamic struct format %r' % fmt.template)
        ch = m.group(2)
        npad = len(m.group(1))
        sz = SIZES[ch]
        n = T(fmt.args[0])
        if not e.branch(n >= 0):
            it.throw(struct.error, 'bad char in struct format')
        if not e.branch(T(data.length) == n * sz + npad):
            it.throw(struct.error, 'unpack requires a buffer')
        v = it.as_view(data)
        kk = z3.Int(e.name('k'))
        t = le_int([z3.Select(v.arr, T(v.off) + npad + kk * sz + j) for j in range(sz)])
        if ch.islower():
            t = signed(t, sz)
            b = (-2 ** (8 * sz - 1), 2 ** (8 * sz - 1) - 1)
        else:
            b = (0, 2 ** (8 * sz) - 1)
        r = SymList('int', [z3.Lambda([kk], t)], n, name='unpacked')
        r.elem_bound = b
        r.immutable = True
        return r
    if not isinstance(fmt, (str, bytes)):
        raise Unsupported('struct format %r' % (fmt,))
    mm = re.match(r'^<(\d+)([bBhHiIlL])$', fmt if isinstance(fmt, str) else fmt.decode('latin-1'))
    if mm and int(mm.group(1)) >= 64 and data.items is None:
        n = z3.Int(e.name('count'))             # kept symbolic: the items become an array term
        e.assume(n == int(mm.group(1)))
        return m_unpack(it, [SFmt('<%d' + mm.group(2), [mkint(n)]), data], {})
    items = parse_fmt(fmt)
    size = fmt_size(items)
    ln = data.length
    if isinstance(ln, int):
        if ln != size:
            it.throw(struct.error, 'unpack requires a buffer of %d bytes' % size)
    elif not e.branch(ln == size):
        it.throw(struct.error, 'unpack requires a buffer of %d bytes' % size)
    out = []
    pos = 0
    for ch, n in items:
        if ch == 'x':
            pos += 1
            continue
        if ch == 's':
            if data.items is not None:
                out.append(it.lower_seq(Seq('bytes', items=data.items[pos:pos + n])))
            else:
                out.append(Seq('bytes', arr=data.arr, off=z3.simplify(T(data.off) + pos), ln=n))
            pos += n
            continue
        sz = SIZES[ch]
        bs = [it.seq_get(data, pos + j) for j in range(sz)]
        pos += sz
        if ch == 'c':
            out.append(Seq('bytes', items=bs))
        elif ch == 'd':
            cs = [cint(b) for b in bs]
            if all(c is not None for c in cs):
                out.append(struct.unpack('<d', bytes(cs))[0])
            else:
                out.append(SFlt(f64(z3.simplify(le_int(bs)))))
        elif ch == '?':
            out.append(mkbool(T(bs[0]) != 0))
        elif ch.islower():
            out.append(mkint(signed(le_int(bs), sz)))
        else:
            out.append(mkint(le_int(bs)))
    return tuple(out)


ARRAY_BOUND = {'B': (0, 255), 'b': (-128, 127), 'H': (0, 65535), 'h': (-32768, 32767), 'I': (0, 2 ** 32 - 1), 'i': (-2 ** 31, 2 ** 31 - 1),
               'L': (0, 2 ** 64 - 1), 'l': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, 2 ** 64 - 1), 'q': (-2 ** 63, 2 ** 63 - 1)}


def m_array(it, a, k):
    tc = a[0]
    if len(a) == 1:
        r = PList([])
        r.is_array = True
        return r
    src = a[1]
    if isinstance(src, bytes):
        src = it.lift_seq(src)
    if isinstance(src, Seq) and tc == 'B':
        v = it.as_view(src)
        arrays, ln = it.coerce_list(src, 'int')
        r = SymList('int', arrays, ln, name='array')
        r.elem_bound = (0, 255)
        r.is_array = True
        return r
    if isinstance(src, SymList):
        r = SymList(src.etype, list(src.arrays), src.ln, name='array')
        r.is_array = True
        if tc == 'B':
            r.elem_bound = (0, 255)
        return r
    items = it.iter_concrete(src)
    if items is not None:
        if tc in 'Bb':
            lo, hi = (0, 255) if tc == 'B' else (-128, 127)
            for x in items:
                c = z3.And(T(x) >= lo, T(x) <= hi)
                if not it.e.branch(c):
                    it.throw(OverflowError, 'array item out of range')
        r = PList(items)
        r.is_array = True
        r.store_bound = ARRAY_BOUND.get(tc)
        return r
    raise Unsupported('array(%r, %r)' % (tc, src))


def m_timedelta(it, a, k):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    vals = dict(zip(names, a))
    vals.update(k)
    if all(is_conc(v) for v in vals.values()):
        return it.native(datetime.timedelta, [], vals)
    for n in ('minutes', 'hours', 'weeks'):
        if vals.get(n, 0) != 0:
            raise Unsupported('timedelta(%s)' % n)
    for v in vals.values():
        if not isintv(v):
            raise Unsupported('timedelta of non-int')
    return SDelta(vals.get('days', 0), vals.get('seconds', 0), vals.get('microseconds', 0), vals.get('milliseconds', 0))


def m_reduce(it, a, k):
    f = a[0]
    items = it.iter_concrete(a[1])
    if items is None:
        raise Unsupported('reduce over symbolic sequence')
    acc = list(a[2:])
    for x in items:
        acc = [it.call(f, [acc[0], x])] if acc else [x]
    if not acc:
        it.throw(TypeError, 'reduce of empty')
    return acc[0]


# ---------------------------------------------------------------- builtins
def b_len(it, a, k):
    return it.length(a[0])


def b_range(it, a, k):
    if all(is_conc(x) for x in a):
        return it.native(range, a, {})
    for x in a:
        if not isintv(x):
            it.throw(TypeError, 'range')
    if len(a) == 1:
        return SRange(0, a[0], 1)
    if len(a) == 2:
        return SRange(a[0], a[1], 1)
    return SRange(a[0], a[1], a[2])


def minmax(it, a, k, op):
    key = k.get('key')
    items = list(a)
    if len(items) == 1:
        items = it.iter_concrete(items[0])
        if items is None:
            raise Unsupported('min/max of symbolic sequence')
    if not items:
        it.throw(ValueError, 'empty sequence')
    if key is None and all(isintv(x) for x in items):
        r = items[0]
        for x in items[1:]:
            tx, tr = T(x), T(r)
            r = mkint(z3.If(tx < tr if op == 'Lt' else tx > tr, tx, tr))
        return r
    best = items[0]
    kb = it.call(key, [best]) if key is not None else best
    for x in items[1:]:
        kx = it.call(key, [x]) if key is not None else x
        if it.truth(it.compare(op, kx, kb)):
            best, kb = x, kx
    return best


def b_min(it, a, k):
    return minmax(it, a, k, 'Lt')


def b_max(it, a, k):
    return minmax(it, a, k, 'Gt')


def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, SInt):
        return mkint(z3.If(v.t >= 0, v.t, -v.t))
    if is_conc(v):
        return it.native(abs, a, {})
    if isinstance(v, SReal):
        return SReal(z3.If(v.t >= 0, v.t, -v.t))
    raise Unsupported('abs')


def b_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, SVal):
        v = it.unval(v)
    if is_conc(v):
        return it.native(int, a, k)
    if len(a) > 1:
        raise Unsupported('int with base')
    if isinstance(v, (SInt, SBool)):
        return mkint(T(v))
    if isinstance(v, SReal):
        t = z3.simplify(v.t)
        if z3.is_rational_value(t):
            fr = t.as_fraction()
            return int(fr)
        r = z3.Int(it.e.name('trunc'))
        it.e.ghost.setdefault('truncs', []).append(r)
        it.e.assume(z3.Implies(t >= 0, z3.And(z3.ToReal(r) <= t, t < z3.ToReal(r) + 1, r >= 0)))
        it.e.assume(z3.Implies(t < 0, z3.And(z3.ToReal(r) >= t, t > z3.ToReal(r) - 1, r <= 0)))
        return SInt(r, exact=True)
    if isinstance(v, SFlt):
        return SInt(f2i(v.t), exact=True)
    if istext(v):
        ok = z3.Function('int_ok', Str, BoolS)(it.text_term(v))
        if not it.e.branch(ok):
            it.throw(ValueError, 'invalid literal for int')
        return SInt(z3.Function('int_of_str', Str, IntS)(it.text_term(v)))
    it.throw(TypeError, 'int()')


def b_float(it, a, k):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, SVal):
        v = it.unval(v)
    if is_conc(v):
        return it.native(float, a, k)
    if isinstance(v, (SInt, SBool)):
        if it.float_mode == 'real':
            return it.to_sreal(v)
        return it.to_sflt(v)
    if isinstance(v, (SReal, SFlt)):
        return v
    if istext(v):
        ok = z3.Function('float_ok', Str, BoolS)(it.text_term(v))
        if not it.e.branch(ok):
            it.throw(ValueError, 'could not convert string to float')
        return SFlt(z3.Function('float_of_str', Str, Flt)(it.text_term(v)))
    it.throw(TypeError, 'float()')


def b_round(it, a, k):
    v = a[0]
    if is_conc(v):
        return it.native(round, a, k)
    if len(a) > 1 and a[1] is not None:
        raise Unsupported('round with digits')
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal):
        e = it.e
        r = z3.Int(e.name('round'))
        d = v.t - z3.ToReal(r)
        half = z3.RealVal(Fraction(1, 2))
        e.assume(z3.And(d <= half, d >= -half))
        e.assume(z3.Implies(z3.Or(d == half, d == -half), r % 2 == 0))
        return SInt(r)
    raise Unsupported('round of %r' % (v,))


def b_divmod(it, a, k):
    return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


def b_bool(it, a, k):
    if not a:
        return False
    v = a[0]
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(v.t != 0)
    return it.truth(v)


def b_isinstance(it, a, k):
    v, t = a
    if isinstance(t, PList):
        t = tuple(t.items)
    ts = t if isinstance(t, tuple) else (t,)
    ts = flat(ts)
    if isinstance(v, SVal):
        v = it.unval(v)
    if isinstance(v, PObj):
        return any(isinstance(c, type) and issubclass(v.cls, c) for c in ts)
    if isinstance(v, ExcVal):
        return any(isinstance(c, type) and issubclass(v.cls, c) for c in ts)
    py = None
    if isinstance(v, SInt):
        py = int
    elif isinstance(v, SBool):
        py = bool
    elif isinstance(v, (SReal, SFlt)):
        py = float
    elif isinstance(v, SStr):
        py = str
    elif isinstance(v, Seq):
        py = bytes if v.kind == 'bytes' else str
    elif isinstance(v, (PList, SymList, RowView)):
        py = list
        if getattr(v, 'is_array', False):
            py = array.array
        if getattr(v, 'immutable', False):
            py = tuple
    elif isinstance(v, PDict):
        py = dict
    elif isinstance(v, PSet):
        py = set
    elif isinstance(v, Opaque):
        raise Unsupported('isinstance of opaque')
    if py is not None:
        return any(issubclass(py, c) for c in ts if isinstance(c, type))
    return isinstance(v, tuple(ts))


def flat(ts):
    out = []
    for t in ts:
        if isinstance(t, tuple):
            out.extend(flat(t))
        else:
            out.append(t)
    return out


def b_ord(it, a, k):
    v = a[0]
    if is_conc(v):
        return it.native(ord, a, k)
    if isinstance(v, Seq):
        if not (isinstance(v.length, int) and v.length == 1):
            if not isinstance(v.length, int) and it.e.branch(T(v.length) == 1):
                return mkint(T(it.seq_get(v, 0)))
            it.throw(TypeError, 'ord() expected a character')
        return mkint(T(it.seq_get(v, 0)))
    raise Unsupported('ord')


def b_chr(it, a, k):
    v = a[0]
    if is_conc(v):
        return it.native(chr, a, k)
    t = T(v)
    if not it.e.branch(z3.And(t >= 0, t < 0x110000)):
        it.throw(ValueError, 'chr() arg not in range')
    return Seq('str', items=[t])


def b_zip(it, a, k):
    ls = [it.iter_concrete(x) for x in a]
    if any(x is None for x in ls):
        conc = [len(x) for x in ls if x is not None]
        if conc:
            # pad symbolic ones by forking up to the concrete length
            m = min(conc)
            out = []
            for i in range(m):
                row = []
                for x, l in zip(a, ls):
                    if l is not None:
                        row.append(l[i])
                    else:
                        if not it.e.branch(T(it.length(x)) > i):
                            return PList(out)
                        row.append(it.elem(x, i))
                out.append(tuple(row))
            return PList(out)
        n = None
        for x in a:
            t = T(it.length(x))
            n = t if n is None else z3.If(t < n, t, n)
        sl = SymList('objfn', [], n)
        sl.mkobj = lambda it2, i: tuple(it2.elem(x, i) for x in a)
        return sl
    return PList(list(zip(*ls)))


def b_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    items = it.iter_concrete(a[0])
    if items is None:
        sl = SymList('objfn', [], T(it.length(a[0])))
        sl.mkobj = lambda it2, i: (mkint(T(i) + T(start)), it2.elem(a[0], i))
        return sl
    return PList([(it.binop('Add', start, i), x) for i, x in enumerate(items)])


def b_reversed(it, a, k):
    items = it.iter_concrete(a[0])
    if items is None:
        n = T(it.length(a[0]))
        sl = SymList('objfn', [], n)
        sl.mkobj = lambda it2, i: it2.elem(a[0], z3.simplify(n - 1 - T(i)))
        return sl
    return PList(items[::-1])


def b_sorted(it, a, k):
    items = it.iter_concrete(a[0])
    if items is None:
        raise Unsupported('sorted of symbolic sequence')
    return PList(sort_items(it, items, k.get('key'), k.get('reverse', False)))


def sort_items(it, items, key=None, reverse=False):
    if all(is_conc(x) for x in items) and key is None:
        try:
            return sorted(items, reverse=bool(reverse))
        except TypeError as x:
            it.throw(TypeError, *x.args)
    if len(items) > 7:
        raise Unsupported('sort of long symbolic list')
    ks = [(it.call(key, [x]) if key is not None else x, x) for x in items]
    out = []
    for kx, x in ks:
        i = len(out)
        while i > 0:
            if reverse:
                c = it.compare('Lt', out[i - 1][0], kx)
            else:
                c = it.compare('Lt', kx, out[i - 1][0])
            if not it.truth(c):
                break
            i -= 1
        out.insert(i, (kx, x))
    return [x for _k, x in out]


def b_hasattr(it, a, k):
    m = object()
    try:
        return it.getattr(a[0], a[1], m, True) is not m
    except PyExc:
        return False


def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with symbolic name')
    if len(a) > 2:
        return it.getattr(a[0], a[1], a[2], True)
    return it.getattr(a[0], a[1])


def b_setattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('setattr with symbolic name')
    it.setattr(a[0], a[1], a[2])


def b_list(it, a, k):
    if not a:
        return PList([])
    items = it.iter_concrete(a[0])
    if items is None:
        v = it.unrow(a[0])
        if isinstance(v, SymList):
            s = SymList(v.etype, list(v.arrays), v.ln)
            s.mkobj = v.mkobj
            if hasattr(v, 'elem_bound'):
                s.elem_bound = v.elem_bound
            return s
        if isinstance(v, Seq) and v.kind == 'bytes':
            arrays, ln = it.coerce_list(v, 'int')
            s = SymList('int', arrays, ln)
            s.elem_bound = (0, 255)
            return s
        raise Unsupported('list(%r)' % (a[0],))
    return PList(items)


def b_tuple(it, a, k):
    if not a:
        return ()
    items = it.iter_concrete(a[0])
    if items is None:
        if isinstance(a[0], SymList):
            s = SymList(a[0].etype, list(a[0].arrays), a[0].ln)
            s.mkobj = a[0].mkobj
            s.immutable = True
            return s
        raise Unsupported('tuple(%r)' % (a[0],))
    return tuple(items)


def b_dict(it, a, k):
    d = PDict()
    if a:
        if isinstance(a[0], PDict):
            d.d = dict(a[0].d)
            d.log = list(a[0].log)
            d.base = a[0].base
        elif isinstance(a[0], dict):
            d.d = dict(a[0])
        else:
            for p in it.iter_concrete(a[0]) or []:
                kk, v = it.unpack_n(p, 2)
                it.setitem(d, kk, v)
    d.d.update(k)
    return d


def b_set(it, a, k):
    return PSet(it.iter_concrete(a[0]) if a else [])


b_frozenset = b_set


def b_str(it, a, k):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, SVal):
        v = it.unval(v)
    if is_conc(v):
        if len(a) > 1 or k:
            return it.native(str, a, k)
        return str(v)
    if len(a) > 1 or 'encoding' in k:
        return call_builtin_method(it, v, 'decode', a[1:], {})
    if istext(v):
        return v
    if isinstance(v, SInt):
        return SStr(s_of_int(v.t))
    if isinstance(v, SFlt):
        return SStr(s_of_flt(v.t))
    return Opaque('str')


def b_repr(it, a, k):
    if is_conc(a[0]) and not isinstance(a[0], type(it)):
        return repr(a[0])
    return Opaque('repr')


b_ascii = b_repr


def b_bytes(it, a, k):
    if not a:
        return b''
    v = a[0]
    if isinstance(v, Seq) and v.kind == 'bytes':
        return v
    if isinstance(v, SymList) and v.etype == 'int':
        return Seq('bytes', arr=v.arrays[0], off=0, ln=v.ln)
    items = it.iter_concrete(v)
    if items is not None:
        return it.lower_seq(Seq('bytes', items=[T(x) for x in items]))
    raise Unsupported('bytes()')


b_bytearray = b_bytes


def b_sum(it, a, k):
    items = it.iter_concrete(a[0])
    if items is None:
        raise Unsupported('sum of symbolic sequence')
    acc = a[1] if len(a) > 1 else 0
    for x in items:
        acc = it.binop('Add', acc, x)
    return acc


def b_map(it, a, k):
    ls = [it.iter_concrete(x) for x in a[1:]]
    if any(l is None for l in ls):
        raise Unsupported('map over symbolic sequence')
    return PList([it.call(a[0], list(xs)) for xs in zip(*ls)])


def b_filter(it, a, k):
    l = it.iter_concrete(a[1])
    if l is None:
        raise Unsupported('filter over symbolic sequence')
    return PList([x for x in l if it.truth(it.call(a[0], [x]) if a[0] is not None else x)])


def b_any(it, a, k):
    l = it.iter_concrete(a[0])
    if l is None:
        raise Unsupported('any over symbolic sequence')
    for x in l:
        if it.truth(x):
            return True
    return False


def b_all(it, a, k):
    l = it.iter_concrete(a[0])
    if l is None:
        raise Unsupported('all over symbolic sequence')
    for x in l:
        if not it.truth(x):
            return False
    return True


def b_type(it, a, k):
    v = a[0]
    if isinstance(v, PObj):
        return v.cls
    for c, t in ((SInt, int), (SBool, bool), (SReal, float), (SFlt, float), (SStr, str), (PList, list), (SymList, list),
                 (PDict, dict), (PSet, set)):
        if isinstance(v, c):
            return t
    if isinstance(v, Seq):
        return bytes if v.kind == 'bytes' else str
    if isinstance(v, V):
        raise Unsupported('type of %r' % (v,))
    return type(v)


def b_id(it, a, k):
    if isinstance(a[0], Heap):
        return a[0].birth
    return Opaque('id')


def b_iter(it, a, k):
    return a[0]


def b_print(it, a, k):
    return None


def b_callable(it, a, k):
    return isinstance(a[0], (Closure, BoundMethod, SpecFn, BuiltinMethod)) or callable(a[0])


# ---------------------------------------------------------------- methods of builtin types
ENC = {'latin1': 'latin_1', 'latin-1': 'latin_1', 'latin_1': 'latin_1', 'iso-8859-1': 'latin_1',
       'utf_16_le': 'utf_16_le', 'utf-16-le': 'utf_16_le', 'utf-16le': 'utf_16_le', 'utf16le': 'utf_16_le'}

TEXT_METHODS = ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'title', 'capitalize')
BOOL_METHODS = ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'islower', 'isupper')
INT_METHODS = ('find', 'count', 'rfind')


def call_builtin_method(it, o, name, a, k):
    if not isinstance(o, V):
        if isinstance(o, dict):
            if name == 'get':
                return it.native_dict_get(o, a[0], a[1] if len(a) > 1 else None, True)
            if name in ('keys', 'values', 'items'):
                return PList(list(getattr(o, name)()))
        if isinstance(o, (str, bytes)) and name == 'join':
            return text_join(it, o, a[0])
        if all(is_conc(x) for x in a) and all(is_conc(x) for x in k.values()):
            return it.native(getattr(o, name), a, k)
        if isinstance(o, re.Pattern):
            c = it.contracts.get(('re', name))
            if c is not None:
                return c(it, [o] + list(a), k)
            f = z3.Function('re_%s[%r]' % (name, o.pattern), Str, Str)
            if name == 'sub':
                rep = a[0]
                f = z3.Function('re_sub[%r,%r]' % (o.pattern, rep), Str, Str)
                it.e.assumed.add('re.sub as an uninterpreted function')
                return SStr(f(it.text_term(a[1])))
            raise Unsupported('re.%s' % name)
        if isinstance(o, str):
            if name in ('find', 'index') and isinstance(a[0], Seq):
                raise Unsupported('str.find')
            return call_builtin_method(it, it.lift_seq(o), name, a, k)
        if isinstance(o, bytes):
            return call_builtin_method(it, it.lift_seq(o), name, a, k)
        if isinstance(o, (list, tuple)) and name == 'index':
            return call_builtin_method(it, PList(list(o)), name, a, k)
        raise Unsupported('method %s of %r' % (name, o))
    if isinstance(o, PList):
        return plist_method(it, o, name, a, k)
    if isinstance(o, (SymList, RowView)):
        return symlist_method(it, o, name, a, k)
    if isinstance(o, PDict):
        return pdict_method(it, o, name, a, k)
    if isinstance(o, PSet):
        if name == 'add':
            it.touch(o)
            o.s.append(a[0])
            return None
    if isinstance(o, Seq):
        r = seq_method(it, o, name, a, k)
        if r is not NotImplemented:
            return r
        if o.kind == 'str':
            o = SStr(it.text_term(o))
    if isinstance(o, SStr):
        return text_method(it, o, name, a, k)
    if isinstance(o, Opaque):
        return Opaque(name)
    if isinstance(o, SFlt) and name == 'is_integer':
        return mkbool(fisint(o.t))
    raise Unsupported('method %s of %r' % (name, o))


def text_join(it, sep, xs):
    items = it.iter_concrete(xs)
    if items is None:
        h = it.e.ghost.get('join_hook')
        if h is not None:
            return h(it, sep, xs)
        if isinstance(xs, SymList) and xs.etype == 'str' and sep == '':
            f = z3.Function('join', z3.ArraySort(IntS, Str), IntS, Str)
            return SStr(f(xs.arrays[0], T(xs.ln)))
        raise Unsupported('join of symbolic list')
    if not items:
        return sep[:0]
    acc = None
    for x in items:
        if not (istext(x) if isinstance(sep, str) else (isinstance(x, bytes) or isinstance(x, Seq))):
            if isinstance(x, Opaque):
                return Opaque('join')
            it.throw(TypeError, 'sequence item: expected str instance')
        acc = x if acc is None else it.concat(it.concat(acc, sep) if sep else acc, x)
    return acc


def decode(it, o, enc, errors='strict'):
    e = it.e
    if isinstance(enc, Seq):
        enc = it.lower_seq(enc)
    if isinstance(enc, str):
        enc = ENC.get(enc.lower(), enc)
        lo = it.lower_seq(o)
        if isinstance(lo, bytes):
            return it.native(bytes.decode, [lo, enc, errors], {})
        hook = e.ghost.get('decode_hook')
        if hook is not None:
            r = hook(it, o, enc)
            if r is not None:
                return r
        if enc == 'latin_1' and o.items is not None:
            return Seq('str', items=list(o.items))
        v = it.as_view(o)
        args = (v.arr, z3.simplify(T(v.off)), z3.simplify(T(v.ln)))
        t = dec_fn(enc, errors)(*args)
        if enc == 'latin_1':
            e.assume((t == strlit('')) == (args[2] == 0))
            return SStr(t, lenhint=args[2], src=v)
        if it.strict_decode:
            ok = dec_ok(enc)(*args)
            e.assume(z3.Implies(args[2] == 0, ok))
            if not e.branch(ok):
                it.throw(UnicodeDecodeError, enc)
        e.assume((t == strlit('')) == (args[2] == 0))
        return SStr(t)
    if isinstance(enc, (SStr, SVal)):
        hook = e.ghost.get('decode_hook')
        if hook is not None:
            r = hook(it, o, enc)
            if r is not None:
                return r
        v = it.as_view(o)
        args = (v.arr, z3.simplify(T(v.off)), z3.simplify(T(v.ln)))
        t = dec_dyn(it.text_term(enc), *args)
        e.assume((t == strlit('')) == (args[2] == 0))
        return SStr(t)
    if enc is None:
        it.throw(TypeError, 'decode() argument encoding must be str, not None')
    raise Unsupported('decode with %r' % (enc,))


def seq_method(it, o, name, a, k):
    if name == 'decode':
        enc = a[0] if a else k.get('encoding', 'utf-8')
        return decode(it, o, enc, *a[1:2])
    if name == 'encode':
        enc = ENC.get(a[0].lower(), a[0]) if a else 'utf-8'
        if enc == 'latin_1' and o.items is not None:
            for x in o.items:
                if not it.e.branch(T(x) < 256):
                    it.throw(UnicodeEncodeError, 'latin-1')
            return Seq('bytes', items=list(o.items))
        if enc in ('ascii',) and o.items is not None:
            for x in o.items:
                if not it.e.branch(T(x) < 128):
                    it.throw(UnicodeEncodeError, 'ascii')
            return Seq('bytes', items=list(o.items))
        if enc == 'utf_16_le' and o.items is not None and o.kind == 'str' and all(it.e.must(T(x) < 256) for x in o.items):
            return Seq('bytes', items=[y for x in o.items for y in (x, z3.IntVal(0))])
        raise Unsupported('encode %r' % enc)
    if name in ('startswith', 'endswith') and len(a) == 1 and is_conc(a[0]) and not isinstance(a[0], tuple):
        p = it.lift_seq(a[0])
        n = p.length
        ln = o.length
        if isinstance(ln, int):
            if ln < n:
                return False
        off = 0 if name == 'startswith' else (ln - n if isinstance(ln, int) else T(ln) - n)
        cs = [] if isinstance(ln, int) else [T(ln) >= n]
        for i in range(n):
            x = it.seq_get(o, i) if name == 'startswith' or isinstance(off, int) is False else it.seq_get(o, off + i)
            if name == 'endswith':
                x = it.seq_get(o, off + i)
            cs.append(T(x) == T(p.items[i]))
        return mkbool(z3.And(*cs)) if cs else True
    if name == 'find' and len(a) >= 1 and is_conc(a[0]):
        # first occurrence (specified by quantified axioms)
        if len(a) > 2:
            return NotImplemented
        e = it.e
        pat = it.lift_seq(a[0])
        m = pat.length
        start = T(a[1]) if len(a) > 1 else z3.IntVal(0)
        if not e.must(start >= 0):
            return NotImplemented
        v = it.as_view(o)
        ln = T(o.length)
        r = z3.Int(e.name('find'))

        def at(p):
            return z3.And(*[z3.Select(v.arr, T(v.off) + p + j) == T(pat.items[j]) for j in range(m)]) if m else z3.BoolVal(True)
        q = z3.Int(e.name('q'))
        e.assume(z3.Or(r == -1, z3.And(r >= start, r + m <= ln, at(r))))
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= start, q + m <= ln, z3.Or(r == -1, q < r)), z3.Not(at(q)))))
        return SInt(r)
    if name == 'upper' or name == 'lower':
        if o.items is not None and o.kind == 'str':
            pass
    return NotImplemented


def text_method(it, o, name, a, k):
    h = it.e.ghost.get('text_hook')
    r = h(it, o, name, a, k) if h is not None else None
    if r is not None:
        return r
    if name in TEXT_METHODS and all(is_conc(x) for x in a) and not k:
        f = z3.Function('str_%s%r' % (name, tuple(a)), Str, Str)
        t = o.term()
        if name in ('lower', 'upper'):
            it.e.assume((f(t) == strlit('')) == (t == strlit('')))
        return SStr(f(t))
    if name in BOOL_METHODS and all(is_conc(x) for x in a):
        if name == 'startswith' and o.parts and isinstance(o.parts[0], str) and isinstance(a[0], str) and len(o.parts[0]) >= len(a[0]):
            return o.parts[0].startswith(a[0])
        return mkbool(z3.Function('str_%s%r' % (name, tuple(a)), Str, BoolS)(o.term()))
    if name in INT_METHODS and all(is_conc(x) for x in a):
        return SInt(z3.Function('str_%s%r' % (name, tuple(a)), Str, IntS)(o.term()))
    if name == 'split' and len(a) == 1 and isinstance(a[0], str) and a[0] and not k:
        t = o.term()
        n = z3.Function('str_split_count(%r)' % a[0], Str, IntS)(t)
        it.e.assume(n >= 1)
        return SymList('str', [z3.Function('str_split(%r)' % a[0], Str, z3.ArraySort(IntS, Str))(t)], n, name='split')
    if name == 'encode':
        enc = a[0] if a else 'utf-8'
        enc = ENC.get(enc.lower(), enc) if isinstance(enc, str) else enc
        if o.src is not None and enc == 'latin_1':
            return o.src
        if o.src is not None and enc == 'utf_16_le':
            v = o.src
            j = z3.Int(it.e.name('j'))
            arr = z3.Lambda([j], z3.If(j % 2 == 0, z3.Select(v.arr, T(v.off) + j / 2), 0))
            return Seq('bytes', arr=arr, off=0, ln=z3.simplify(2 * T(v.ln)))
        return Opaque('encode')
    if name == 'join':
        items = it.iter_concrete(a[0])
        if items is not None:
            acc = None
            for x in items:
                acc = x if acc is None else it.concat(it.concat(acc, o), x)
            return '' if acc is None else acc
    raise Unsupported('str.%s' % name)


def plist_method(it, o, name, a, k):
    if name == 'append':
        return it.list_append(o, a[0])
    if name == 'extend':
        return it.list_extend(o, a[0])
    if name == 'pop':
        it.touch(o)
        i = cint(a[0]) if a else -1
        try:
            return o.items.pop(i)
        except IndexError:
            it.throw(IndexError, 'pop from empty list')
    if name == 'insert':
        it.touch(o)
        o.items.insert(cint(a[0]), a[1])
        return None
    if name == 'reverse':
        it.touch(o)
        o.items.reverse()
        return None
    if name == 'sort':
        it.touch(o)
        o.items[:] = sort_items(it, o.items, k.get('key'), k.get('reverse', False))
        return None
    if name == 'index':
        for i, x in enumerate(o.items):
            if it.truth(it.equal(x, a[0])):
                return i
        it.throw(ValueError, 'not in list')
    if name == 'count':
        n = 0
        for x in o.items:
            if it.truth(it.equal(x, a[0])):
                n += 1
        return n
    if name == 'copy':
        return PList(o.items)
    if name == 'remove':
        for i, x in enumerate(o.items):
            if it.truth(it.equal(x, a[0])):
                it.touch(o)
                del o.items[i]
                return None
        it.throw(ValueError)
    if name == 'tolist':
        return PList(o.items)
    raise Unsupported('list.%s' % name)


def symlist_method(it, o, name, a, k):
    if name == 'append':
        return it.list_append(o, a[0])
    if name == 'extend':
        return it.list_extend(o, a[0])
    if name in ('tostring', 'tobytes') and isinstance(o, SymList) and getattr(o, 'is_array', False):
        return Seq('bytes', arr=o.arrays[0], off=0, ln=o.ln)
    if name == 'pop' and isinstance(o, SymList):
        n = T(o.ln)
        i = it.norm_index(a[0] if a else -1, o.ln)
        if not it.e.must(T(i) == n - 1):
            raise Unsupported('pop from the middle')
        v = it.sym_elem(o, i)
        it.touch(o)
        o.ln = z3.simplify(n - 1)
        return v
    if name == 'index' and isinstance(o, SymList) and o.etype in ('int', 'pv', 'str'):
        e = it.e
        target = elem_term(it, o.etype, a[0])
        r = z3.Int(e.name('idx'))
        q = z3.Int(e.name('q'))
        found = e.boolean('found')
        if e.branch(found.t):
            e.assume(z3.And(r >= 0, r < T(o.ln), z3.Select(o.arrays[0], r) == target))
            e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < r), z3.Select(o.arrays[0], q) != target)))
            if not e.feasible():
                raise PathEnd()
            return SInt(r)
        e.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < T(o.ln)), z3.Select(o.arrays[0], q) != target)))
        it.throw(ValueError, 'not in list')
    if name == 'copy':
        return b_list(it, [o], {})
    raise Unsupported('list.%s on symbolic list' % name)


def pdict_method(it, o, name, a, k):
    if name == 'get':
        return it.dict_get(o, a[0], a[1] if len(a) > 1 else None, True)
    if name in ('keys', 'values', 'items'):
        if o.log or o.base is not None:
            raise Unsupported('iteration over symbolic dict')
        if name == 'keys':
            return PList(list(o.d.keys()))
        if name == 'values':
            return PList(list(o.d.values()))
        return PList([(x, y) for x, y in o.d.items()])
    if name == 'setdefault':
        m = object()
        v = it.dict_get(o, a[0], m, True)
        if v is m:
            v = a[1] if len(a) > 1 else None
            it.setitem(o, a[0], v)
        return v
    if name == 'update':
        src = a[0]
        it.touch(o)
        if isinstance(src, PDict) and not src.log and src.base is None:
            for kk, v in src.d.items():
                it.setitem(o, kk, v)
            return None
        if isinstance(src, dict):
            for kk, v in src.items():
                it.setitem(o, kk, v)
            return None
    if name == 'copy':
        return b_dict(it, [o], {})
    if name == 'pop':
        m = object()
        v = it.dict_get(o, a[0], m, True)
        if v is m:
            if len(a) > 1:
                return a[1]
            it.throw(KeyError, a[0])
        it.delitem(o, a[0])
        return v
    if name == 'clear':
        it.touch(o)
        o.d.clear()
        o.log[:] = []
        o.base = None
        return None
    raise Unsupported('dict.%s' % name)
