"""AST interpreter over symbolic values: executes the functions of /repo's
current source, statement by statement, generating obligations."""
import ast
import builtins
import importlib
import inspect
import os
import re
import struct
import sys
import types
import operator
import z3
from fractions import Fraction
from .values import *
from .engine import Engine, PathEnd, Unsupported, PyExc
from .ops import Ops, to_pv as _to_pv

REPO = os.environ.get('PYVC_REPO', '/repo')


# ------------------------------------------------------------------ source index
class SourceIndex(object):
    def __init__(self):
        self.files = {}

    def load(self, path):
        if path not in self.files:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = ast.parse(src, path)
            mark_collecting(tree)
            idx = {}
            byname = {}

            def walk(node, prefix):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                        name = getattr(ch, 'name', '<lambda>')
                        line = ch.lineno
                        if isinstance(ch, ast.FunctionDef) and ch.decorator_list:
                            line = ch.decorator_list[0].lineno
                        idx.setdefault((name, line), []).append(ch)
                        q = prefix + name
                        byname[q] = ch
                        ch._qual = q
                        walk(ch, q + '.<locals>.')
                    elif isinstance(ch, ast.ClassDef):
                        walk(ch, prefix + ch.name + '.')
                    else:
                        walk(ch, prefix)
            walk(tree, '')
            self.files[path] = (tree, idx, byname)
        return self.files[path]

    def of_function(self, f):
        path = f.__code__.co_filename
        if not path.startswith(REPO + os.sep):
            return None
        tree, idx, byname = self.load(path)
        cands = idx.get((f.__name__ if f.__code__.co_name != '<lambda>' else '<lambda>',
                         f.__code__.co_firstlineno)) or idx.get((f.__code__.co_name, f.__code__.co_firstlineno))
        if not cands:
            return None
        if len(cands) > 1:
            # several lambdas on one line: match by compiled code
            for c in cands:
                try:
                    code = compile(ast.Expression(c), path, 'eval').co_consts[0]
                    if code.co_code == f.__code__.co_code and code.co_consts == f.__code__.co_consts \
                            and code.co_names == f.__code__.co_names:
                        return c
                except Exception:
                    pass
        return cands[0]


SRC = SourceIndex()


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame(object):
    def __init__(self, node, globs, parent=None, qual=''):
        self.node, self.globals, self.parent, self.qual = node, globs, parent, qual
        self.vars = {}
        self.localnames = local_names(node)
        self.globalnames = set()


_ln_cache = {}


def local_names(node):
    if node in _ln_cache:
        return _ln_cache[node]
    names = set()
    glob = set()

    def targets(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                names.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(ch, ast.Global):
                glob.update(ch.names)
            elif isinstance(ch, (ast.Assign,)):
                for t in ch.targets:
                    targets(t)
            elif isinstance(ch, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                targets(ch.target)
            elif isinstance(ch, ast.With):
                for it in ch.items:
                    if it.optional_vars is not None:
                        targets(it.optional_vars)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                names.add(ch.name)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    names.add((a.asname or a.name).split('.')[0])
            walk(ch)
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        walk(node)
    elif isinstance(node, ast.Module):
        walk(node)
    names -= glob
    _ln_cache[node] = names
    return names


def assigned_names(stmts):
    # every name a loop body binds: these are havocked at the loop head
    m = ast.Module(body=list(stmts), type_ignores=[])
    names = local_names(m)
    stores = {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    inner = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    if not (stores - inner <= names):
        raise AssertionError('assigned_names missed %r' % (stores - names))
    return names


class LoopSpec(object):
    """invariant etc. for a loop of symbolic extent.

    func:     qualname suffix of the function that textually contains the loop at
              present (only used as a tie break), or None
    names:    variables that must exist in the frame for the spec to attach
    inv:      L -> list of (name, z3 condition)
    kinds:    var name -> factory(L) for havoc
    modifies: L -> list of (heap object, attr or None, factory or None)
    variant:  L -> z3 int term (while loops)
    kind:     'for' | 'while' | None
    """

    def __init__(self, name, names=(), inv=None, kinds=None, modifies=None, variant=None, kind=None,
                 body_hook=None, exit_hook=None, match=None, entry_hook=None, once=True, keep=()):
        self.name, self.names, self.inv = name, tuple(names), inv or (lambda L: [])
        self.kinds, self.modifies, self.variant, self.kind = kinds or {}, modifies, variant, kind
        self.body_hook, self.exit_hook, self.match, self.entry_hook = body_hook, exit_hook, match, entry_hook
        self.once = once
        self.keep = keep
        self.end_hook = None


class LoopCtx(object):
    def __init__(self, it, fr, node):
        self.it, self.e, self.fr, self.node = it, it.e, fr, node
        self.i = None         # ghost index of a for loop
        self.n = None         # number of iterations of a for loop
        self.seq = None       # the iterable
        self.entry = {}       # snapshot of locals at entry
        self.data = {}
        self.phase = 'entry'

    def __getitem__(self, k):
        f = self.fr
        while f is not None:
            if k in f.vars:
                return f.vars[k]
            f = f.parent
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def has(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def I(self, k):
        return T(self[k])


def counting_for(s):
    """`while i < n: ...; i += 1`, as the loop over range(i, n) that it is, if i and n change nowhere else"""
    if hasattr(s, '_counting'):
        return s._counting
    s._counting = None
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name) and not s.orelse):
        return None
    i, bound, last = t.left.id, t.comparators[0], s.body[-1]
    if not (isinstance(t.ops[0], ast.Lt) and isinstance(bound, (ast.Name, ast.Constant)) and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and
            isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1 and type(last.value.value) is int):
        return None
    body = s.body[:-1]
    if i in assigned_names(body) or isinstance(bound, ast.Name) and bound.id in assigned_names(s.body) or bound is t.left:
        return None
    if not body or any(isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) for b in body for x in ast.walk(b)):
        return None
    ld = lambda n: ast.Name(id=n, ctx=ast.Load())
    f = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=[ld(i), bound], keywords=[]), body=body,
                orelse=[ast.If(test=t, body=[last], orelse=[])], type_comment=None)
    s._counting = ast.fix_missing_locations(ast.copy_location(f, s))
    for x in ast.walk(s._counting):
        if not hasattr(x, 'lineno'):
            x.lineno = s.lineno
    return s._counting


def collecting(s):
    """`a = []; for x in y: a.append(e)`, as the comprehension that it is"""
    return getattr(s, '_collecting', None)


def mark_collecting(tree):
    """mark the loops that only append to a list that was made, empty, just before them"""
    for node in ast.walk(tree):
        for fld in ('body', 'orelse', 'finalbody'):
            blk = getattr(node, fld, None)
            if not isinstance(blk, list):
                continue
            fresh, app = {}, {}           # names bound to a new empty list / to its append, by statements next to the loop
            for st in blk:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    nm, v = st.targets[0].id, st.value
                    if isinstance(v, ast.List) and not v.elts:
                        fresh[nm] = st
                        continue
                    if isinstance(v, ast.Attribute) and v.attr == 'append' and isinstance(v.value, ast.Name) and v.value.id in fresh:
                        app[nm] = v.value.id
                        continue
                if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1:
                    b, ifs = st.body[0], []
                    if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                        b, ifs = b.body[0], [b.test]
                    c = b.value if isinstance(b, ast.Expr) else None
                    if isinstance(c, ast.Call) and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
                        f, nm = c.func, None
                        if isinstance(f, ast.Attribute) and f.attr == 'append' and isinstance(f.value, ast.Name):
                            nm = f.value.id
                        elif isinstance(f, ast.Name) and f.id in app:
                            nm = app[f.id]
                        used = {x.id for y in [c.args[0], st.iter, st.target] + ifs for x in ast.walk(y) if isinstance(x, ast.Name)}
                        if nm in fresh and nm not in used and not any(k in used for k, v in app.items() if v == nm):
                            comp = ast.ListComp(elt=c.args[0], generators=[ast.comprehension(target=st.target, iter=st.iter, ifs=ifs, is_async=0)])
                            st._collecting = (nm, [k for k, v in app.items() if v == nm], ast.fix_missing_locations(ast.copy_location(comp, st)))
                used = {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
                for nm in list(fresh):
                    if nm in used or any(k in used for k, v in app.items() if v == nm):
                        del fresh[nm]


NOOP_NAMES = ('fprintf', 'print')

_MISSING = object()


class Interp(Ops):
    float_mode = 'flt'

    def __init__(self, eng):
        self.e = eng
        self.contracts = {}      # function object -> handler(interp, args, kwargs)
        self.loop_specs = []
        self.depth = 0
        self.max_depth = 60
        self.models = {}
        self.on_setattr = None
        self.strict_decode = False   # model UnicodeDecodeError outcomes
        self.text_models = None
        self.attr_hook = None
        self.sub_iter = None
        from . import models
        models.install(self)

    # ---------------------------------------------------------------- entry points
    def resolve(self, qual):
        """'xlrd.xldate.xldate_as_tuple' -> object"""
        parts = qual.split('.')
        for k in range(len(parts) - 1, 0, -1):
            try:
                obj = importlib.import_module('.'.join(parts[:k]))
            except ImportError:
                continue
            for p in parts[k:]:
                obj = inspect.getattr_static(obj, p) if isinstance(obj, type) else getattr(obj, p)
            return obj
        raise KeyError(qual)

    def call_name(self, qual, *args, **kw):
        return self.call(self.resolve(qual), list(args), kw)

    def outcome(self, fn, *args, **kw):
        """call; returns ('ok', value) or ('exc', ExcVal)"""
        try:
            if isinstance(fn, str):
                fn = self.resolve(fn)
            v = self.call(fn, list(args), kw, force_body=True)
            return 'ok', v
        except PyExc as x:
            return 'exc', x.val

    def method(self, obj, name, *args, **kw):
        return self.call(self.getattr(obj, name), list(args), kw)

    # ---------------------------------------------------------------- raising
    def throw(self, cls, *args):
        raise PyExc(ExcVal(cls, args), self.e.lastloc)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw=None, force_body=False):
        kw = kw or {}
        if isinstance(f, Closure):
            return self.call_node(f.node, args, kw, f.globals, f.fr, f.defaults, f.kw_defaults, f.qualname)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_obj] + list(args), kw, force_body)
        if isinstance(f, SpecFn):
            return f.fn(self, args, kw)
        if isinstance(f, BuiltinMethod):
            return self.call_builtin_method(f.obj, f.name, args, kw)
        if isinstance(f, (SVal, Opaque)):
            raise Unsupported('call of unknown value %r' % (f,))
        try:
            h = self.models.get(f)
        except TypeError:
            h = None
        if isinstance(f, types.FunctionType):
            c = None if force_body else self.contracts.get(f)
            if c is not None:
                return c(self, args, kw)
            if h is not None:
                return h(self, args, kw)
            node = SRC.of_function(f)
            if node is not None:
                self.e.functions.setdefault(f.__module__ + '.' + f.__qualname__,
                                            '%s:%d' % (os.path.relpath(f.__code__.co_filename, REPO),
                                                       f.__code__.co_firstlineno))
                defaults = list(f.__defaults__ or ())
                kwd = dict(f.__kwdefaults__ or {})
                parent = None
                if f.__closure__:
                    parent = Frame(ast.Module(body=[], type_ignores=[]), f.__globals__)
                    for nme, cell in zip(f.__code__.co_freevars, f.__closure__):
                        parent.vars[nme] = cell.cell_contents
                return self.call_node(node, args, kw, f.__globals__, parent, defaults, kwd,
                                      f.__module__ + '.' + f.__qualname__)
            raise Unsupported('call of python function %s.%s' % (f.__module__, f.__qualname__))
        if isinstance(f, (type, types.BuiltinFunctionType)):
            c = self.contracts.get(f)
            if c is not None:
                return c(self, args, kw)
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kw.values()):
            return self.native(f, args, kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (dict, list, tuple, str, bytes, re.Pattern)):
            return self.call_builtin_method(f.__self__, f.__name__, args, kw)
        raise Unsupported('call of %r' % (f,))

    def native(self, f, args, kw):
        try:
            r = f(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kw.items()})
        except (PathEnd, Unsupported, PyExc):
            raise
        except Exception as x:
            self.throw(type(x), *x.args)
        return from_native(r)

    def instantiate(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return ExcVal(cls, args)
        if cls.__module__.split('.')[0] != 'xlrd':
            if all(is_concrete(a) for a in args):
                return self.native(cls, args, kw)
            raise Unsupported('instantiation of %r' % (cls,))
        o = PObj(cls)
        init = self.class_attr(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(init, [o] + list(args), kw)
        return o

    def bind_args(self, node, args, kw, defaults, kwd, fr, qual):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kw = dict(kw)
        for p in params:
            if args:
                vals[p] = args.pop(0)
            else:
                break
        if args:
            if a.vararg:
                vals[a.vararg.arg] = tuple(args)
            else:
                self.throw(TypeError, 'too many arguments to %s' % qual)
        elif a.vararg:
            vals[a.vararg.arg] = ()
        nd = len(defaults)
        for i, p in enumerate(params):
            if p in kw:
                if p in vals:
                    self.throw(TypeError, 'multiple values')
                vals[p] = kw.pop(p)
            if p not in vals:
                k = i - (len(params) - nd)
                if k >= 0:
                    vals[p] = defaults[k]
                else:
                    self.throw(TypeError, 'missing argument %s to %s' % (p, qual))
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in kwd:
                vals[x.arg] = kwd[x.arg]
        if a.kwarg:
            vals[a.kwarg.arg] = PDict(kw)
        elif kw:
            self.throw(TypeError, 'unexpected keyword %s' % list(kw))
        fr.vars.update(vals)

    def call_node(self, node, args, kw, globs, parent, defaults, kwd, qual):
        if self.depth > self.max_depth:
            raise Unsupported('inlining depth exceeded at %s' % qual)
        fr = Frame(node, globs, parent, qual)
        self.bind_args(node, args, kw, defaults, kwd, fr, qual)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            try:
                if is_generator(node) and not self.e.ghost.get('yield_hook'):
                    raise Unsupported('generator function %s' % qual)
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.e.lastloc = '%s:%d' % (fr.qual.replace('xlrd.', ''), s.lineno)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call) and self.is_noop_call(v, fr):
            return
        self.eval(v, fr)

    def is_noop_call(self, c, fr):
        f = c.func
        if isinstance(f, ast.Name) and f.id in NOOP_NAMES:
            return True
        if isinstance(f, ast.Attribute) and f.attr == 'dump' and not getattr(self, 'keep_dump', False):
            return True
        if isinstance(f, ast.Attribute) and f.attr in ('write', 'flush') and \
                isinstance(f.value, (ast.Name, ast.Attribute)) and \
                (getattr(f.value, 'id', None) or getattr(f.value, 'attr', None)) in ('logfile', 'outfile', 'fout'):
            return not getattr(self, 'keep_dump', False)
        return False

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        fr.globalnames.update(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.vars[a.asname] = m
            else:
                fr.vars[a.name.split('.')[0]] = importlib.import_module(a.name.split('.')[0])

    def s_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            pkg = fr.globals.get('__package__') or fr.globals.get('__name__').rpartition('.')[0]
            parts = pkg.split('.')
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        m = importlib.import_module(name)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(name + '.' + a.name)
            fr.vars[a.asname or a.name] = v

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.throw(AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, 'cur_exc', None)
            if cur:
                raise PyExc(cur[-1], self.e.lastloc)
            raise Unsupported('bare raise')
        v = self.eval_lenient(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v)
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of %r' % (v,))
        raise PyExc(v, self.e.lastloc)

    def eval_lenient(self, exc, fr):
        """evaluate `Cls(args)` of a raise: unsupported message arguments become opaque"""
        if isinstance(exc, ast.Call):
            f = self.eval(exc.func, fr)
            if isinstance(f, type) and issubclass(f, BaseException):
                args = []
                for a in exc.args:
                    try:
                        args.append(self.eval(a, fr))
                    except Unsupported:
                        args.append(Opaque('msg'))
                return ExcVal(f, args)
        return self.eval(exc, fr)

    def s_FunctionDef(self, s, fr):
        fr.vars[s.name] = self.mkclosure(s, fr, s.name)

    def mkclosure(self, node, fr, name):
        a = node.args
        d = [self.eval(x, fr) for x in a.defaults]
        kd = {}
        for x, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                kd[x.arg] = self.eval(v, fr)
        return Closure(node, fr, fr.globals, d, kd, name, fr.qual + '.<locals>.' + name)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                if isinstance(t.slice, ast.Slice):
                    b = [self.eval(x, fr) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                    self.delslice(o, *b)
                    continue
                k = self.eval_index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, PObj):
                    self.touch(o, t.attr)
                    o.attrs.pop(t.attr, None)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.binop(type(s.op).__name__, cur, self.eval(s.value, fr), inplace=True)
            self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.binop(type(s.op).__name__, cur, self.eval(s.value, fr), inplace=True)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.binop(type(s.op).__name__, cur, self.eval(s.value, fr), inplace=True)
            self.setitem(o, k, v)
        else:
            raise Unsupported('augassign')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globalnames:
                raise Unsupported('assignment to global %s' % t.id)
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.iter_concrete(v)
                if items is None:
                    raise Unsupported('starred unpack')
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, PList(items[i:len(items) - after]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            items = self.unpack_n(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                lo = self.eval(t.slice.lower, fr) if t.slice.lower else None
                hi = self.eval(t.slice.upper, fr) if t.slice.upper else None
                st = self.eval(t.slice.step, fr) if t.slice.step else None
                return self.setslice(o, lo, hi, v, st)
            k = self.eval_index(t.slice, fr)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def unpack_n(self, v, n):
        items = self.iter_concrete(v)
        if items is None:
            ln = self.length(v)
            if not self.e.branch(T(ln) == n):
                self.throw(ValueError, 'unpack length')
            items = [self.getitem(v, i) for i in range(n)]
        if len(items) != n:
            self.throw(ValueError, 'unpack: expected %d got %d' % (n, len(items)))
        return items

    def s_If(self, s, fr):
        if self.cond(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def cond(self, test, fr):
        return self.truth(self.eval(test, fr))

    def s_With(self, s, fr):
        self.with_items(s, 0, fr)

    def with_items(self, s, i, fr):
        if i == len(s.items):
            return self.block(s.body, fr)
        v = self.eval(s.items[i].context_expr, fr)
        managed = isinstance(v, PObj) and ('__exit__' in v.attrs or v.cls is not None and self.class_attr(v.cls, '__exit__') is not None)
        r = self.call(self.getattr(v, '__enter__'), []) if managed else v
        if s.items[i].optional_vars is not None:
            self.assign(s.items[i].optional_vars, r, fr)
        if not managed:
            return self.with_items(s, i + 1, fr)
        try:
            self.with_items(s, i + 1, fr)
        except PyExc as x:
            if self.truth(self.call(self.getattr(v, '__exit__'), [x.val.cls, x.val, None])):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(self.getattr(v, '__exit__'), [None, None, None])
            raise
        self.call(self.getattr(v, '__exit__'), [None, None, None])

    def e_Yield(self, x, fr):
        """the values a generator yields, in order, for a consumer that takes them all"""
        h = self.e.ghost.get('yield_hook')
        if not h:
            raise Unsupported('yield')
        return h(self, self.eval(x.value, fr) if x.value is not None else None)

    def s_Try(self, s, fr):
        def run_final():
            self.block(s.finalbody, fr)
        try:
            try:
                self.block(s.body, fr)
            except PyExc as x:
                for h in s.handlers:
                    if self.handler_matches(h, x.val, fr):
                        if h.name:
                            fr.vars[h.name] = x.val
                        if not hasattr(self, 'cur_exc'):
                            self.cur_exc = []
                        self.cur_exc.append(x.val)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                run_final()
            raise
        if s.finalbody:
            run_final()

    def handler_matches(self, h, val, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(c, type) and issubclass(val.cls, c) for c in ts)

    # ---------------------------------------------------------------- loops
    def find_spec(self, node, fr, kind, symbolic):
        for sp in self.loop_specs:
            if sp.kind and sp.kind != kind:
                continue
            used = self.e.ghost.setdefault('loopuse', {})
            if sp.once and used.get(id(sp), node) is not node:
                continue
            ok = True
            for n in sp.names:
                f = fr
                while f is not None and n not in f.vars:
                    f = f.parent
                if f is None:
                    ok = False
                    break
            if not ok:
                continue
            if sp.match is not None and not sp.match(self, node, fr):
                continue
            used[id(sp)] = node
            return sp
        return None

    def s_While(self, s, fr):
        spec = self.find_spec(s, fr, 'while', True)
        if spec is not None:
            return self.run_spec_loop(spec, s, fr, None)
        f = counting_for(s)
        if f is not None:
            return self.s_For(f, fr)
        n = 0
        while True:
            self.e.lastloc = '%s:%d' % (fr.qual.replace('xlrd.', ''), s.lineno)
            if not self.cond(s.test, fr):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.e.max_unroll:
                raise Unsupported('loop at %s has no invariant and does not unroll' % self.e.lastloc)
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if isinstance(it, PObj) and isinstance(it.attrs.get('__iter__'), SpecFn):
            it = self.call(it.attrs['__iter__'], [])
        items = self.iter_concrete(it)
        if items is not None:
            if getattr(self, 'spec_concrete_for', False):
                spec = self.find_spec(s, fr, 'for', False)
                if spec is not None:
                    return self.run_spec_loop(spec, s, fr, it)
            for x in items:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(s.orelse, fr)
            return
        spec = self.find_spec(s, fr, 'for', True)
        if spec is not None:
            return self.run_spec_loop(spec, s, fr, it)
        c = collecting(s)
        if c is not None:
            nm, apps, comp = c
            cur = fr.vars.get(nm)
            if isinstance(cur, PList) and not cur.items:
                r = fr.vars[nm] = self.e_ListComp(comp, fr)
                for n in assigned_names([ast.For(target=s.target, iter=s.iter, body=[], orelse=[])]):
                    fr.vars[n] = Poison('%s after its loop' % n)
                for n in apps:
                    fr.vars[n] = Poison('%s after its loop' % n)
                return
        # no invariant: unroll by forking on the length
        n = self.length(it)
        i = 0
        while self.e.branch(T(n) > i):
            if i > self.e.max_unroll:
                raise Unsupported('loop at %s has no invariant and does not unroll' % self.e.lastloc)
            self.assign(s.target, self.elem(it, i), fr)
            i += 1
            try:
                self.block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, fr)

    def run_spec_loop(self, spec, s, fr, it):
        e = self.e
        L = LoopCtx(self, fr, s)
        isfor = it is not None
        where = e.lastloc
        L.entry = dict(fr.vars)
        L.seq = it
        if isfor:
            L.n = z3.IntVal(len(self.iter_concrete(it))) if self.iter_concrete(it) is not None else T(self.length(it))
            L.i = z3.IntVal(0)
        if spec.entry_hook:
            spec.entry_hook(L)
        e.assumed  # noqa
        for nm, c in spec.inv(L):
            e.prove('%s/init:%s' % (spec.name, nm), c)
        # havoc
        L.phase = 'head'
        names = set(assigned_names(s.body))
        if isfor:
            names |= assigned_names([ast.For(target=s.target, iter=s.iter, body=[], orelse=[])])
        names |= set(spec.kinds)
        mods = spec.modifies(L) if spec.modifies else []
        allowed = set()
        for o, attr, fac in mods:
            allowed.add((id(o), attr))
            if fac == 'keep':
                continue
            if isinstance(o, PObj):
                if fac is not None:
                    old = o.attrs.get(attr)
                    v = o.attrs[attr] = fac(L)
                    if isinstance(v, (SymList, PList)) and isinstance(old, Heap) and v is not old:
                        # the container held by the attribute is replaced by its arbitrary-iteration version, under every name it has
                        allowed.add((id(v), None))
                        allowed.add((id(v), '*'))
                        f = fr
                        while f is not None:
                            for k2, v2 in list(f.vars.items()):
                                if v2 is old:
                                    f.vars[k2] = v
                            f = f.parent
                else:
                    o.attrs[attr] = self.havoc_like(o.attrs.get(attr), attr)
            elif isinstance(o, SymList):
                self.havoc_symlist(o)
                if fac is not None:
                    fac(L)
            else:
                if fac is None:
                    raise Unsupported('havoc of %r' % (o,))
                fac(L)
        for n in sorted(names):
            if n in spec.keep:
                continue
            if n in spec.kinds:
                old = fr.vars.get(n)
                v = fr.vars[n] = spec.kinds[n](L)
                if isinstance(v, Heap) and v is not old:
                    # a local container replaced by its arbitrary-iteration version: no alias may exist
                    f = fr
                    while f is not None:
                        for k2, v2 in f.vars.items():
                            if v2 is old and isinstance(old, Heap) and not (f is fr and k2 == n):
                                raise Unsupported('alias of %s in loop %s' % (n, spec.name))
                        f = f.parent
                    allowed.add((id(v), None))
                    allowed.add((id(v), '*'))
            elif n in fr.vars:
                cur = fr.vars[n]
                try:
                    fr.vars[n] = self.havoc_like(cur, n)
                except Unsupported:
                    fr.vars[n] = Poison('%s modified in loop %s' % (n, spec.name))
        if isfor:
            L.i = T(e.int('i'))
            e.assume(z3.And(L.i >= 0, L.i <= L.n))
        for nm, c in spec.inv(L):
            e.assume(c)
        guard = dict(epoch=next_birth(), allowed=allowed, name=spec.name)
        k = e.choose('loop:' + spec.name)
        if k == 0:
            # an arbitrary iteration
            L.phase = 'iter'
            if isfor:
                e.assume(L.i < L.n)
                if not e.feasible():
                    raise PathEnd()
                self.assign(s.target, self.elem(it, L.i), fr)
            else:
                if not self.cond(s.test, fr):
                    raise PathEnd()
            e.cover('%s/iter' % spec.name)
            v0 = spec.variant(L) if spec.variant else None
            if spec.body_hook:
                spec.body_hook(L)
            e.loop_guards.append(guard)
            try:
                try:
                    self.block(s.body, fr)
                except ContinueEx:
                    pass
            except BreakEx:
                e.loop_guards.remove(guard)
                L.phase = 'break'
                if spec.exit_hook:
                    spec.exit_hook(L)
                return
            except (ReturnEx, PyExc):
                if guard in e.loop_guards:
                    e.loop_guards.remove(guard)
                raise
            e.loop_guards.remove(guard)
            if isfor:
                L.i = L.i + 1
            L.phase = 'end'
            if spec.end_hook:
                spec.end_hook(L)
            for nm, c in spec.inv(L):
                e.prove('%s/preserve:%s' % (spec.name, nm), c)
            if v0 is not None:
                v1 = spec.variant(L)
                e.prove('%s/variant' % spec.name, z3.And(v0 >= 0, v1 < v0))
            raise PathEnd()
        # exit
        L.phase = 'exit'
        if isfor:
            e.assume(L.i == L.n)
            if not e.feasible():
                raise PathEnd()
            if e.branch(L.n > 0):
                self.assign(s.target, self.elem(it, L.n - 1), fr)
            else:
                for n in assigned_names([ast.For(target=s.target, iter=s.iter, body=[], orelse=[])]):
                    if n in L.entry:
                        fr.vars[n] = L.entry[n]
                    else:
                        fr.vars.pop(n, None)
        else:
            if self.cond(s.test, fr):
                raise PathEnd()
        if spec.exit_hook:
            spec.exit_hook(L)
        self.block(s.orelse, fr)

    def havoc_like(self, cur, n):
        e = self.e
        if isinstance(cur, bool) or isinstance(cur, SBool):
            return e.boolean(n)
        if isinstance(cur, (int, SInt)):
            return e.int(n)
        if isinstance(cur, SFlt):
            return e.flt(n)
        if isinstance(cur, SReal):
            return e.real(n)
        if isinstance(cur, SVal):
            return SVal(z3.Const(e.name(n), PV))
        if isinstance(cur, SStr):
            return e.str(n)
        if isinstance(cur, Seq):
            v = e.seq(n, cur.kind, inp=False)
            return v
        raise Unsupported('cannot havoc %s = %r' % (n, cur))

    def havoc_symlist(self, o):
        e = self.e
        o.arrays = [z3.Array(e.name(o.name), IntS, a.sort().range()) for a in o.arrays]
        o.ln = z3.Int(e.name(o.name + '.len'))
        e.assume(o.ln >= 0)

    def touch(self, o, attr=None):
        """frame check: write to heap object o"""
        for g in self.e.loop_guards:
            if o.birth < g['epoch'] and (id(o), attr) not in g['allowed'] and (id(o), '*') not in g['allowed']:
                raise Unsupported('frame: write to %r.%s not in modifies of loop %s' % (o, attr, g['name']))
        h = self.e.ghost.get('write_hook')
        if h is not None:
            h(o, attr)

    # ---------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('read of %s: %s' % (name, v.why))
                return v
            if first and name in f.localnames and name not in f.globalnames:
                self.throw(UnboundLocalError, name)
            first = False
            f = f.parent
        g = fr.globals
        if name in g:
            return from_global(g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    # ---------------------------------------------------------------- expressions
    def eval(self, x, fr):
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(x).__name__)
        return m(x, fr)

    def e_Constant(self, x, fr):
        return x.value

    def e_Name(self, x, fr):
        return self.lookup(x.id, fr)

    def e_Tuple(self, x, fr):
        return tuple(self.eval_elts(x.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for el in elts:
            if isinstance(el, ast.Starred):
                items = self.iter_concrete(self.eval(el.value, fr))
                if items is None:
                    raise Unsupported('starred symbolic')
                out.extend(items)
            else:
                out.append(self.eval(el, fr))
        return out

    def e_List(self, x, fr):
        return PList(self.eval_elts(x.elts, fr))

    def e_Set(self, x, fr):
        return PSet([self.eval(el, fr) for el in x.elts])

    def e_Dict(self, x, fr):
        d = PDict()
        for k, v in zip(x.keys, x.values):
            kk = self.eval(k, fr)
            if not is_concrete(kk):
                d.log.append((kk, self.eval(v, fr)))
            else:
                d.d[kk] = self.eval(v, fr)
        return d

    def e_Lambda(self, x, fr):
        return self.mkclosure(x, fr, '<lambda>')

    def e_IfExp(self, x, fr):
        c = self.eval(x.test, fr)
        if self.truth(c):
            return self.eval(x.body, fr)
        return self.eval(x.orelse, fr)

    def e_BoolOp(self, x, fr):
        isand = isinstance(x.op, ast.And)
        v = None
        acc = None
        for i, sub in enumerate(x.values):
            last = i == len(x.values) - 1
            if acc is not None:
                # everything so far is a symbolic boolean kept unforked
                if simple_pure(sub):
                    v = self.eval(sub, fr)
                    if isinstance(v, (bool, SBool)):
                        acc = z3.And(acc, B(v)) if isand else z3.Or(acc, B(v))
                        if last:
                            return mkbool(acc)
                        continue
                    t = self.e.branch(acc)
                    acc = None
                    if t != isand:
                        return t
                    if last:
                        return v
                    tv = self.truth(v)
                    if tv != isand:
                        return v
                    continue
                t = self.e.branch(acc)
                acc = None
                if t != isand:
                    return t
            v = self.eval(sub, fr)
            if last:
                return v
            if isinstance(v, SBool):
                acc = v.t
                continue
            tv = self.truth(v)
            if tv != isand:
                return v
        return v

    def e_UnaryOp(self, x, fr):
        v = self.eval(x.operand, fr)
        op = type(x.op).__name__
        if op == 'Not':
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.t))
            if isinstance(v, SInt):
                return mkbool(v.t == 0)
            return not self.truth(v)
        return self.unary(op, v)

    def unary(self, op, v):
        if isinstance(v, (bool, int, float)):
            return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)
        if isinstance(v, (SInt, SBool)):
            t = T(v)
            if op == 'USub':
                return mkint(-t)
            if op == 'UAdd':
                return mkint(t)
            return mkint(-t - 1)
        if isinstance(v, SReal):
            if op == 'USub':
                return SReal(-v.t)
            if op == 'UAdd':
                return v
        if isinstance(v, SFlt):
            if op == 'USub':
                return SFlt(fneg(v.t))
            if op == 'UAdd':
                return v
        if isinstance(v, (str, Seq, SStr, tuple, type(None), PList, PObj)):
            self.throw(TypeError, 'bad operand type for unary')
        raise Unsupported('unary %s of %r' % (op, v))

    def e_BinOp(self, x, fr):
        a = self.eval(x.left, fr)
        b = self.eval(x.right, fr)
        return self.binop(type(x.op).__name__, a, b)

    def e_Compare(self, x, fr):
        left = self.eval(x.left, fr)
        acc = []
        for op, rx in zip(x.ops, x.comparators):
            if acc and not simple_pure(rx):
                if not self.truth(acc_and(acc)):
                    return False
                acc = []
            right = self.eval(rx, fr)
            r = self.compare(type(op).__name__, left, right)
            if isinstance(r, bool):
                if not r:
                    return False
            else:
                acc.append(r)
            left = right
        if not acc:
            return True
        return acc_and(acc)

    def e_Call(self, x, fr):
        f = self.eval(x.func, fr)
        if self.is_noop_call(x, fr) and isinstance(x.func, ast.Name):
            return None
        args = self.eval_elts(x.args, fr)
        kw = {}
        for k in x.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, PDict) and not d.log:
                    kw.update(d.d)
                elif isinstance(d, dict):
                    kw.update(d)
                else:
                    raise Unsupported('**kwargs')
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.cur_frame = fr
        return self.call(f, args, kw)

    def e_Attribute(self, x, fr):
        return self.getattr(self.eval(x.value, fr), x.attr)

    def eval_index(self, sl, fr):
        return self.eval(sl, fr)

    def e_Subscript(self, x, fr):
        o = self.eval(x.value, fr)
        if isinstance(x.slice, ast.Slice):
            lo = self.eval(x.slice.lower, fr) if x.slice.lower else None
            hi = self.eval(x.slice.upper, fr) if x.slice.upper else None
            st = self.eval(x.slice.step, fr) if x.slice.step else None
            return self.getslice(o, lo, hi, st)
        k = self.eval_index(x.slice, fr)
        return self.getitem(o, k)

    def e_JoinedStr(self, x, fr):
        return Opaque('fstring')

    def e_NamedExpr(self, x, fr):
        v = self.eval(x.value, fr)
        self.assign(x.target, v, fr)
        return v

    def e_ListComp(self, x, fr):
        r = self.comp(x, fr, x.elt)
        return r if isinstance(r, (SymList, PObj)) else PList(r)

    def e_GeneratorExp(self, x, fr):
        r = self.comp(x, fr, x.elt)
        return r if isinstance(r, (SymList, PObj)) else PList(r)

    def e_SetComp(self, x, fr):
        return PSet(self.comp(x, fr, x.elt))

    def e_DictComp(self, x, fr):
        pairs = self.comp(x, fr, ast.Tuple(elts=[x.key, x.value], ctx=ast.Load()))
        d = PDict()
        if isinstance(pairs, PObj):           # comp_hook
            return pairs
        for k, v in pairs:
            self.setitem(d, k, v)
        return d

    def comp(self, x, fr, elt):
        out = []
        sub = Frame(ast.Module(body=[], type_ignores=[]), fr.globals, fr, fr.qual)
        # symbolic-length single generator without conditions -> lambda list
        g0 = x.generators[0]
        it0 = self.eval(g0.iter, fr)
        if self.iter_concrete(it0) is None:
            h = self.e.ghost.get('comp_hook')
            if h is not None:
                r = h(self, x, elt, it0, sub)
                if r is not None:
                    return r
            if len(x.generators) == 1 and not g0.ifs:
                return self.sym_comp(g0, it0, elt, sub)

        def rec(k):
            if k == len(x.generators):
                out.append(self.eval(elt, sub))
                return
            g = x.generators[k]
            it = it0 if k == 0 else self.eval(g.iter, sub)
            items = self.iter_concrete(it)
            if items is None:
                n = self.length(it)
                i = 0
                items = []
                while self.e.branch(T(n) > i):
                    if i > self.e.max_unroll:
                        raise Unsupported('comprehension does not unroll')
                    items.append(self.elem(it, i))
                    i += 1
            for v in items:
                self.assign(g.target, v, sub)
                ok = True
                for c in g.ifs:
                    if not self.cond(c, sub):
                        ok = False
                        break
                if ok:
                    rec(k + 1)
        rec(0)
        return out

    def sym_comp(self, g, it, elt, sub):
        """[f(x) for x in <symbolic sequence>]: element i is f(seq[i]); f is executed
        once on an arbitrary index 0 <= k < n and must not branch or write."""
        e = self.e
        n = T(self.length(it))
        k = T(e.int('k'))
        if not e.branch(n > 0):
            return []
        e.assume(z3.And(k >= 0, k < n))
        L0 = len(e.pc)
        self.assign(g.target, self.elem(it, k), sub)
        guard = dict(epoch=next_birth(), allowed=set(), name='comprehension')
        e.loop_guards.append(guard)
        nf, e.no_fork = e.no_fork, True
        try:
            v = self.eval(elt, sub)
        finally:
            e.no_fork = nf
            e.loop_guards.remove(guard)
        return self.lambda_list(v, k, n)

    def lambda_list(self, v, k, n):
        """list of n elements whose k-th element is v (a value mentioning k)"""
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            return SymList('int', [z3.Lambda([k], T(v))], n)
        if isinstance(v, (bool, SBool)):
            return SymList('bool', [z3.Lambda([k], B(v))], n)
        if isinstance(v, SFlt):
            return SymList('flt', [z3.Lambda([k], v.t)], n)
        if isinstance(v, (SVal, type(None), str, SStr, float)):
            return SymList('pv', [z3.Lambda([k], self.to_pv(v))], n)
        if isinstance(v, PObj):
            sl = SymList('objfn', [], n)
            sl.mkobj = (v, k)
            return sl
        if isinstance(v, Seq) and v.items is None:
            sl = SymList('objfn', [], n)

            def mk(it, i, v=v, k=k):
                sub = lambda t: z3.simplify(z3.substitute(T(t) if not isinstance(t, z3.ArrayRef) else t, (k, T(i))))
                return Seq(v.kind, arr=z3.substitute(v.arr, (k, T(i))), off=sub(v.off), ln=sub(v.ln))
            sl.mkobj = mk
            return sl
        if isinstance(v, tuple):
            subs = [self.lambda_list(x, k, n) for x in v]
            if all(isinstance(s.etype, str) and s.etype != 'objfn' for s in subs):
                return SymList(('tuple',) + tuple(s.etype for s in subs), [a for s in subs for a in s.arrays], n)
        raise Unsupported('symbolic comprehension over %r' % (v,))

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, SBool):
            return self.e.branch(v.t)
        if isinstance(v, SInt):
            return self.e.branch(v.t != 0)
        if isinstance(v, Seq):
            ln = v.length
            if isinstance(ln, int):
                return ln != 0
            return self.e.branch(ln != 0)
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            if not v.parts:
                return False
            if len(v.parts) == 1:
                return self.e.branch(v.parts[0] != strlit(''))
            return self.e.branch(z3.Or(*[p != strlit('') for p in v.parts]))
        if isinstance(v, PList):
            return bool(v.items)
        if isinstance(v, PDict):
            if v.d:
                return True
            if v.log:
                return True
            if v.base is not None:
                if getattr(v, 'truthy', None) is not None:
                    return self.truth(v.truthy)
                raise Unsupported('truth of symbolic dict')
            return False
        if isinstance(v, PSet):
            return bool(v.s)
        if isinstance(v, SymList):
            return self.e.branch(T(v.ln) != 0)
        if isinstance(v, RowView):
            return self.e.branch(T(self.length(v)) != 0)
        if isinstance(v, SRange):
            return self.e.branch(T(self.length(v)) != 0)
        if isinstance(v, PObj):
            for nm in ('__bool__', '__len__'):
                f = self.class_attr(v.cls, nm) if v.cls is not None else None
                if f is not None:
                    return self.truth(self.call(f, [v]))
            return True
        if isinstance(v, SReal):
            return self.e.branch(v.t != 0)
        if isinstance(v, SFlt):
            return self.e.branch(z3.Not(feq(v.t, fltlit(0.0))))
        if isinstance(v, (Closure, BoundMethod, BuiltinMethod, SpecFn, ExcVal)):
            return True
        if isinstance(v, SVal):
            h = self.e.ghost.get('truth_sval')
            if h:
                return h(self, v)
        if isinstance(v, V):
            raise Unsupported('truth of %r' % (v,))
        return bool(v)

    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def to_pv(self, v):
        return _to_pv(self, v)


def next_birth():
    from .values import _birth
    return next(_birth)


def acc_and(acc):
    if len(acc) == 1:
        return acc[0]
    return mkbool(z3.And(*[B(a) for a in acc]))


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def simple_pure(x):
    """no calls, no subscripts, no division: evaluation cannot raise or have effects"""
    if isinstance(x, (ast.Name, ast.Constant)):
        return True
    if isinstance(x, ast.Attribute):
        return isinstance(x.value, ast.Name)
    if isinstance(x, ast.UnaryOp):
        return simple_pure(x.operand)
    if isinstance(x, ast.BinOp):
        return isinstance(x.op, (ast.Add, ast.Sub, ast.BitAnd, ast.Mult)) and simple_pure(x.left) and simple_pure(x.right)
    if isinstance(x, ast.Compare):
        return all(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot)) for o in x.ops) \
            and simple_pure(x.left) and all(simple_pure(c) for c in x.comparators)
    if isinstance(x, ast.BoolOp):
        return all(simple_pure(v) for v in x.values)
    return False


def is_concrete(v):
    if isinstance(v, V):
        return False
    if isinstance(v, (tuple, list)):
        return all(is_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(k) and is_concrete(x) for k, x in v.items())
    if isinstance(v, z3.AstRef):
        return False
    return True


def to_native(v):
    return v


def from_native(v):
    if isinstance(v, list):
        return PList([from_native(x) for x in v])
    if type(v) is dict:
        return PDict({k: from_native(x) for k, x in v.items()})
    return v


def from_global(v):
    return v
