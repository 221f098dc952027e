"""Path exploration, obligations and solver back ends of pyvc."""
import os
import sys
import time
import subprocess
import tempfile
import z3
from .values import *


class PathEnd(BaseException):
    "stop exploring the current path"


class Unsupported(Exception):
    "construct outside the verified subset"


class PyExc(Exception):
    "a Python exception raised by the interpreted code"

    def __init__(self, val, where=None):
        Exception.__init__(self, val)
        self.val = val          # ExcVal
        self.where = where


class Failure(object):
    def __init__(self, name, kind, detail, model=None, inputs=None, path=None):
        self.name, self.kind, self.detail = name, kind, detail
        self.model, self.inputs, self.path = model, inputs or {}, path

    def as_dict(self):
        return dict(obligation=self.name, kind=self.kind, detail=self.detail,
                    inputs=self.inputs, path=self.path)


CVC5 = '/usr/bin/cvc5'


class Engine(object):
    """one verification unit: explores every path of a contract function"""

    T_FEAS = 3000
    T_SLICE = 5000
    T_INC = 4000
    T_FRESH = 40000
    T_CVC5 = 40
    MAX_PATHS = 20000
    no_fork = False

    def __init__(self, name, budget_s=400, stop_on_fail=6):
        self.unit = name
        self.failures = []
        self.obl = {}            # name -> [instances, discharged]
        self.by_backend = {}
        self.solver_time = 0.0
        self.n_paths = 0
        self.n_queries = 0
        self.covers = {}         # cover name -> bool reached
        self.functions = {}      # functions interpreted: qualname -> file:line
        self.assumed = set()     # trusted models used
        self.unsupported = []
        self.budget_s = budget_s
        self.stop_on_fail = stop_on_fail
        self.max_unroll = 600
        self.t0 = time.time()
        self.unroll_used = {}
        self.lastloc = None
        self._feas_cache = {}
        self._vcache = {}

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        work = [()]
        while work:
            if len(self.failures) >= self.stop_on_fail:
                break
            if time.time() - self.t0 > self.budget_s:
                self.failures.append(Failure(self.unit + '/budget', 'timeout',
                                             'time budget of the unit exhausted'))
                break
            if self.n_paths > self.MAX_PATHS:
                self.failures.append(Failure(self.unit + '/paths', 'limit', 'too many paths'))
                break
            prefix = work.pop()
            self._start_path(prefix)
            self.n_paths += 1
            try:
                fn(self)
                if not self.dead:
                    self._final_vacuity()
            except PathEnd:
                pass
            except Unsupported as e:
                self.unsupported.append('%s (at %s)' % (e, self.lastloc))
                self.failures.append(Failure('%s/subset@%s' % (self.unit, self.lastloc), 'unsupported', str(e),
                                             path=list(self.trace_desc)))
                # other paths may still be explored
            except PyExc as e:
                self.failures.append(Failure('%s/noexc@%s' % (self.unit, self.lastloc), 'exception',
                                             'uncaught %r in contract code' % (e.val,)))
            except RecursionError:
                self.failures.append(Failure('%s/recursion' % self.unit, 'unsupported', 'recursion too deep'))
            work.extend(self.pending)
        return self

    def _start_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.trace_desc = []
        self.pending = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('random_seed', 1)
        self.counter = 0
        self.inputs = {}
        self.dead = False
        self._bytes_seen = set()
        self._bytes_only = set()
        self._seen_assume = set()
        self.loop_guards = []
        self.ghost = {}

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    # ------------------------------------------------------------ solving
    def _check(self, s, *assump, timeout=None):
        if timeout:
            s.set('timeout', timeout)
        t = time.time()
        r = s.check(*assump)
        self.solver_time += time.time() - t
        self.n_queries += 1
        return r

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        if isinstance(c, SBool):
            c = c.t
        if z3.is_true(c):
            return
        k = c.get_id()
        if k in self._seen_assume:
            return
        self._seen_assume.add(k)
        self.pc.append(c)
        self.solver.add(c)

    def feasible(self):
        """is the path condition satisfiable (unknown counts as yes)"""
        return self._check(self.solver, timeout=self.T_FEAS) != z3.unsat

    def must(self, c, timeout=800):
        """is c implied by the path condition? (best effort; False if unknown)"""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ('must', tuple(self.trace), len(self.pc), c.sexpr())
        if key in self._feas_cache:
            return self._feas_cache[key]
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self._check(self.solver, timeout=timeout)
        self.solver.pop()
        res = r == z3.unsat
        self._feas_cache[key] = res
        return res

    def branch(self, c, desc=''):
        """fork on a condition; returns a python bool"""
        if isinstance(c, bool):
            return c
        if isinstance(c, SBool):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            choice = self.prefix[i]
        else:
            self.solver.push()
            self.solver.add(c)
            ft = self._check(self.solver, timeout=self.T_FEAS) != z3.unsat
            self.solver.pop()
            if ft:
                self.solver.push()
                self.solver.add(z3.Not(c))
                ff = self._check(self.solver, timeout=self.T_FEAS) != z3.unsat
                self.solver.pop()
            else:
                ff = True
            if ft and ff and self.no_fork:
                raise Unsupported('fork inside a comprehension over a symbolic sequence')
            if ft and ff:
                self.pending.append(tuple(self.trace) + (False,))
                choice = True
            elif ft:
                choice = True
            else:
                choice = False
        self.trace.append(choice)
        self.trace_desc.append('%s:%s' % (self.lastloc, 'T' if choice else 'F'))
        self.assume(c if choice else z3.Not(c))
        return choice

    def choose(self, desc='', n=2):
        """unconditional n-way fork"""
        for k in range(n - 1):
            i = len(self.trace)
            if i < len(self.prefix):
                choice = self.prefix[i]
            else:
                self.pending.append(tuple(self.trace) + (False,))
                choice = True
            self.trace.append(choice)
            self.trace_desc.append('%s#%d:%s' % (desc, k, 'T' if choice else 'F'))
            if choice:
                return k
        return n - 1

    # ------------------------------------------------------------ obligations
    def _count(self, name, ok, backend):
        rec = self.obl.setdefault(name, [0, 0])
        rec[0] += 1
        if ok:
            rec[1] += 1
            self.by_backend[backend] = self.by_backend.get(backend, 0) + 1

    def prove_cases(self, name, c, cases):
        """prove c by an exhaustive case split"""
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return self.prove(name, c)
        if self.replaying():
            self.assume(c)
            return True
        ok = self.prove(name + '/cases-exhaustive', z3.Or(*cases))
        for i, k in enumerate(cases):
            ok = self.prove('%s/case' % name, z3.Implies(k, c), assume=False) and ok
            if not ok:
                break
        self.assume(c)
        return ok

    def prove_any(self, name, alts, cases=None):
        """obligation: one of the alternatives holds on the whole path (the first that can be
        discharged, case by case, is assumed)"""
        cases = cases or [z3.BoolVal(True)]
        key = ('any', name, tuple(self.trace))
        if key in self._feas_cache:
            k = self._feas_cache[key]
            if k is not None:
                self.assume(alts[k])
            return k is not None
        if len(cases) > 1:
            self.prove(name + '/cases-exhaustive', z3.Or(*cases))
        for k, c in enumerate(alts):
            n = 0
            for kc in cases:
                ok, backend, model = self._discharge(z3.Implies(kc, c))
                if ok is not True:
                    break
                n += 1
            if n == len(cases):
                for _ in range(n):
                    self._count('%s/%s' % (self.unit, name), True, backend)
                self._feas_cache[key] = k
                self.assume(c)
                return True
        self._feas_cache[key] = None
        self._count('%s/%s' % (self.unit, name), False, 'none')
        self.failures.append(Failure('%s/%s' % (self.unit, name), 'refuted' if ok is False else 'unknown',
                                     'no alternative holds', None, self._model_inputs(model), list(self.trace_desc)))
        return False

    def prove(self, name, c, timeout=None, soft=False, assume=True):
        """obligation: c holds on this path.  Afterwards c is assumed."""
        name = '%s/%s' % (self.unit, name)
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if self.replaying():
            self.assume(c)
            return True
        sc = z3.simplify(c)
        if z3.is_true(sc):
            self._count(name, True, 'z3-simplify')
            return True
        ok, backend, model = self._discharge(c, timeout)
        self._count(name, ok is True, backend)
        if ok is not True:
            if ok is False:
                # vacuous path?
                self.failures.append(Failure(name, 'refuted', str(sc)[:600], None,
                                             self._model_inputs(model), list(self.trace_desc)))
            else:
                self.failures.append(Failure(name, 'unknown', str(sc)[:600], None, {}, list(self.trace_desc)))
            if len(self.failures) >= self.stop_on_fail:
                raise PathEnd()
        if assume:
            self.assume(c)
        return ok is True

    def _vars(self, t):
        c = self._vcache
        k = t.get_id()
        if k in c:
            return c[k][1]
        out = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            elif z3.is_quantifier(x):
                st.append(x.body())
            else:
                st.extend(x.children())
        c[k] = (t, out)
        return out

    def _slice(self, c):
        """constraints of the path that only mention variables of the goal"""
        gv = self._vars(c)
        return [p for p in self.pc if self._vars(p) <= gv]

    def _abstract(self, c):
        """generalise little-endian sums of bytes to integers of the corresponding range
        (sound: the goal is proved for every value of the range)"""
        seen, subs, ranges, arith = set(), [], {}, False
        st = [c]
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_IDIV) or z3.is_app_of(x, z3.Z3_OP_MOD):
                arith = True
            if z3.is_add(x):
                key = self._bytesum(x)
                if key:
                    if key not in ranges:
                        ranges[key] = z3.Int('u!%d' % len(ranges))
                    subs.append((x, ranges[key]))
                    continue
            st.extend(x.children())
        if not subs or not arith:
            return None
        g = z3.substitute(c, *subs)
        return g, [z3.And(v >= 0, v < 256 ** len(k)) for k, v in ranges.items()]

    def _bytesum(self, x):
        parts = {}
        st = list(x.children())
        while st:
            y = st.pop()
            if z3.is_add(y):
                st.extend(y.children())
                continue
            k = 1
            if z3.is_mul(y) and y.num_args() == 2:
                a, b = y.arg(0), y.arg(1)
                if z3.is_int_value(b):
                    a, b = b, a
                if not z3.is_int_value(a):
                    return None
                k, y = a.as_long(), b
            if y.get_id() not in self._bytes_only or k in parts:
                return None
            parts[k] = y.get_id()
        n = len(parts)
        if n < 2 or set(parts) != set(256 ** i for i in range(n)):
            return None
        return tuple(parts[256 ** i] for i in range(n))

    def _discharge(self, c, timeout=None):
        neg = z3.Not(c)
        ab = self._abstract(c)
        if ab is not None:
            s0 = z3.Solver()
            s0.set('random_seed', 3)
            s0.add(z3.Not(ab[0]))
            s0.add(*ab[1])
            s0.add(*lit_axioms())
            if self._check(s0, timeout=600) == z3.unsat:
                return True, 'z3-abstracted', None
        sl = self._slice(c)
        if len(sl) < len(self.pc):
            s0 = z3.Solver()
            s0.set('random_seed', 3)
            s0.add(*sl)
            s0.add(neg)
            s0.add(*lit_axioms())
            if self._check(s0, timeout=self.T_SLICE) == z3.unsat:
                return True, 'z3-sliced', None
        s = self.solver
        s.push()
        s.add(neg)
        ax = lit_axioms()
        s.add(*ax)
        r = self._check(s, timeout=self.T_INC)
        m = None
        if r == z3.sat:
            m = s.model()
        s.pop()
        if r == z3.unsat:
            return True, 'z3-incremental', None
        if r == z3.sat and not self._has_quant():
            return False, 'z3', m
        s2 = z3.Solver()
        s2.set('random_seed', 7)
        s2.add(*self.pc)
        s2.add(neg)
        s2.add(*ax)
        r2 = self._check(s2, timeout=timeout or self.T_FRESH)
        if r2 == z3.unsat:
            return True, 'z3', None
        if r2 == z3.sat:
            return False, 'z3', s2.model()
        r3 = self._cvc5(s2)
        if r3 == 'unsat':
            return True, 'cvc5', None
        if r == z3.sat:
            return False, 'z3', m
        return None, 'none', None

    def _has_quant(self):
        return False

    def _cvc5(self, s):
        if not os.path.exists(CVC5):
            exe = 'cvc5'
        else:
            exe = CVC5
        t = time.time()
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run([exe, '--tlimit=%d' % (self.T_CVC5 * 1000), f.name],
                                   capture_output=True, text=True, timeout=self.T_CVC5 + 20)
                out = p.stdout.strip().split('\n')[0]
            finally:
                os.unlink(f.name)
        except Exception as e:
            out = 'error %s' % e
        self.solver_time += time.time() - t
        return out

    def fail(self, name, detail, kind='structural'):
        name = '%s/%s' % (self.unit, name)
        if self.replaying():
            return
        self._count(name, False, 'none')
        self.failures.append(Failure(name, kind, detail, None, {}, list(self.trace_desc)))

    def unreachable(self, name, detail=''):
        """obligation: this program point is unreachable"""
        if self.replaying():
            raise PathEnd()
        full = '%s/%s' % (self.unit, name)
        ok, backend, model = self._discharge(z3.BoolVal(False))
        self._count(full, ok is True, backend)
        if ok is not True:
            self.failures.append(Failure(full, 'refuted' if ok is False else 'unknown', detail or 'reachable',
                                         None, self._model_inputs(model), list(self.trace_desc)))
        raise PathEnd()

    def cover(self, name):
        """vacuity guard: this point must be reachable on at least one path"""
        if self.covers.get(name):
            return
        self.covers.setdefault(name, False)
        r = self._check(self.solver, timeout=10000)
        if r != z3.unsat:
            self.covers[name] = True if r == z3.sat else 'unknown'

    def expect_covers(self, *names):
        for n in names:
            self.covers.setdefault(n, False)

    def _final_vacuity(self):
        pass

    # ------------------------------------------------------------ symbols
    def name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def int(self, name, lo=None, hi=None, inp=False):
        t = z3.Int(self.name(name))
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        v = SInt(t)
        if inp:
            self.inputs[name] = v
        return v

    def boolean(self, name, inp=False):
        v = SBool(z3.Bool(self.name(name)))
        if inp:
            self.inputs[name] = v
        return v

    def real(self, name, inp=False):
        v = SReal(z3.Real(self.name(name)))
        if inp:
            self.inputs[name] = v
        return v

    def flt(self, name):
        return SFlt(z3.Const(self.name(name), Flt))

    def str(self, name):
        return SStr(z3.Const(self.name(name), Str))

    def seq(self, name, kind='bytes', ln=None, maxlen=None, inp=True):
        """symbolic bytes/str; concrete length if ln is an int"""
        arr = z3.Array(self.name(name), IntS, IntS)
        if ln is None:
            n = z3.Int(self.name(name + '.len'))
            self.assume(n >= 0)
            if maxlen is not None:
                self.assume(n <= maxlen)
            v = Seq(kind, arr=arr, off=0, ln=n)
        elif isinstance(ln, int):
            v = Seq(kind, items=[self.sel(arr, i, kind) for i in range(ln)])
        else:
            v = Seq(kind, arr=arr, off=0, ln=T(ln))
        if inp:
            self.inputs[name] = v
        return v

    def sel(self, arr, i, kind='bytes'):
        t = z3.Select(arr, T(i))
        t = z3.simplify(t) if z3.is_K(arr) or z3.is_store(arr) or z3.is_quantifier(arr) else t
        k = t.get_id()
        if z3.is_int_value(t):
            return t
        if k not in self._bytes_seen:
            self._bytes_seen.add(k)
            self._keep = getattr(self, '_keep', [])
            self._keep.append(t)
            if kind == 'bytes':
                self._bytes_only.add(k)
            self.assume(z3.And(t >= 0, t <= (255 if kind == 'bytes' else 0x10FFFF)))
        return t

    # ------------------------------------------------------------ models -> inputs
    def _model_inputs(self, m):
        if m is None:
            return {}
        out = {}
        for n, v in self.inputs.items():
            try:
                out[n] = self.concretize(m, v)
            except Exception as e:
                out[n] = 'unavailable: %s' % e
        return out

    def concretize(self, m, v):
        if isinstance(v, SInt):
            return m.eval(v.t, model_completion=True).as_long()
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, SReal):
            r = m.eval(v.t, model_completion=True)
            try:
                fr = r.as_fraction()
                return float(fr)
            except Exception:
                return str(r)
        if isinstance(v, Seq):
            if v.items is not None:
                xs = [x if isinstance(x, int) else m.eval(x, model_completion=True).as_long() for x in v.items]
            else:
                n = m.eval(T(v.ln), model_completion=True).as_long()
                n = min(n, 70000)
                xs = []
                for i in range(n):
                    xs.append(m.eval(z3.Select(v.arr, T(v.off) + i), model_completion=True).as_long())
            if v.kind == 'bytes':
                return 'hex:' + bytes(x & 255 for x in xs).hex()
            return ''.join(chr(x) if 0 <= x < 0x110000 and not 0xD800 <= x < 0xE000 else '?' for x in xs)
        if isinstance(v, (int, str, float, type(None))):
            return v
        return str(v)

    # ------------------------------------------------------------ result
    def report(self):
        tot = sum(a for a, b in self.obl.values())
        ok = sum(b for a, b in self.obl.values())
        for n, v in self.covers.items():
            if v is False:
                self.failures.append(Failure('%s/vacuity:%s' % (self.unit, n), 'vacuous',
                                             'precondition or case "%s" unreachable' % n))
        if tot == 0 and not self.failures:
            self.failures.append(Failure(self.unit + '/no-obligations', 'vacuous', 'zero obligations generated'))
        return dict(unit=self.unit, obligations=tot, discharged=ok,
                    named=len(self.obl), names={k: tuple(v) for k, v in self.obl.items()},
                    backends=self.by_backend, solver_s=round(self.solver_time, 2),
                    queries=self.n_queries, paths=self.n_paths, functions=self.functions,
                    assumed=sorted(self.assumed), failures=[f.as_dict() for f in self.failures],
                    covers={k: str(v) for k, v in self.covers.items()},
                    wall_s=round(time.time() - self.t0, 2))
