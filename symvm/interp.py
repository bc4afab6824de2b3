"""AST interpreter for the code under test (and the solver stubs).

The code is the current source of /repo: functions are compiled by CPython and
looked up in the parsed source by file and line when they are called.  All
writes go through the engine's journal so that decision paths can be rolled
back and merged.
"""
import ast
import builtins
import math
import operator
import collections
import collections.abc
import types
import itertools
import functools
import numpy as np
import z3
from . import vals
from .vals import (SymBool, SymNum, SYM, Opt, Phi, AND, OR, NOT, ITE, EQ, IFF, SUM,
                   mkopt, guard_of, val_of, resolve, isnum, wrapbool, contains_marker)
from .engine import Control, Unsupported, Infeasible, MISSING

NORMAL = ("normal", None)
BREAK = ("break", None)
CONTINUE = ("continue", None)


NUMBERS = SYM + (bool, int, float, vals.Fraction, np.number, np.bool_)


class Env:
    __slots__ = ("vars", "parent", "glob", "cells", "captured", "gdecl", "ndecl", "fn", "yields")

    def __init__(self, glob, parent=None, cells=None, fn=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.cells = cells
        self.captured = False
        self.gdecl = None
        self.ndecl = None
        self.fn = fn
        self.yields = None


class VMIter:
    """An iterator of interpreted code: what is left of it, as a guarded list."""

    __slots__ = ("buf", "live")

    def __init__(self, buf, live=None):
        self.buf = buf
        self.live = live


class SymText(str):
    """Text made from symbolic values; it may be printed but not compared."""

    def _no(self, *a):
        raise Unsupported("text of a symbolic value is compared")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = _no

    def __hash__(self):
        raise Unsupported("text of a symbolic value is hashed")

    def __add__(self, other):
        return SymText("<sym>")
    __radd__ = __mod__ = __mul__ = __add__


def symtext(parts):
    r = "".join(parts)
    return SymText("<sym>") if any(isinstance(x, SymText) for x in parts) else r


class VMFunction:
    """A function or lambda defined inside interpreted code."""

    def __init__(self, interp, node, env, defaults, kwdefaults, name):
        self.interp = interp
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.__name__ = name

    def __call__(self, *args, **kw):
        return self.interp.call(self, list(args), kw)

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)


def has_jump(node):
    """Does this statement list contain return/break/continue of its own?"""
    r = _jump_cache.get(id(node))
    if r is None:
        r = _has_jump(node)
        _jump_cache[id(node)] = r
    return r


_jump_cache = {}
_keep = []


def is_generator(node):
    """Does this function have a yield of its own?"""
    k = ("g", id(node))
    r = _jump_cache.get(k)
    if r is None:
        _keep.append(node)
        r = False
        st = [] if isinstance(node, ast.Lambda) else list(node.body)
        while st and not r:
            n = st.pop()
            r = isinstance(n, (ast.Yield, ast.YieldFrom))
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                st.extend(ast.iter_child_nodes(n))
        _jump_cache[k] = r
    return r


def _has_jump(stmts):
    _keep.append(stmts)
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            # breaks inside belong to that loop; returns do not
            if any(isinstance(x, ast.Return) for x in ast.walk(n)):
                return True
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def loop_leaves(node):
    """Does this loop contain a break of its own or a return?"""
    k = ("l", id(node))
    r = _jump_cache.get(k)
    if r is None:
        _keep.append(node)
        r = False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Return, ast.Break)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.For, ast.While)):
                if any(isinstance(x, ast.Return) for x in ast.walk(n)):
                    r = True
                    break
                continue
            st.extend(ast.iter_child_nodes(n))
        _jump_cache[k] = r
    return r


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
    ast.MatMult: operator.matmul,
}
IBINOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
    ast.Pow: operator.ipow, ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
    ast.BitAnd: operator.iand, ast.BitOr: operator.ior, ast.BitXor: operator.ixor,
    ast.MatMult: operator.imatmul,
}
DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
          ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.LShift: "lshift", ast.RShift: "rshift", ast.MatMult: "matmul"}
CMPDUNDER = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"),
             ast.GtE: ("__ge__", "__le__"), ast.Eq: ("__eq__", "__eq__"), ast.NotEq: ("__ne__", "__ne__")}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


class Interp:
    def __init__(self, engine, loader):
        self.E = engine
        self.loader = loader
        self.S = {getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith("st_")}
        self.X = {getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith("ev_")}
        self.builtin_models = self.make_builtins()
        self.depth = 0
        self.sut_functions = {}

    # ================================================================ functions
    def function_node(self, fn):
        code = fn.__code__
        return self.loader.node_for(code)

    def interpretable(self, fn):
        return isinstance(fn, types.FunctionType) and self.function_node(fn) is not None

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = resolve(f)
        if isinstance(f, types.MethodType):
            fn = f.__func__
            if isinstance(fn, VMFunction) or self.interpretable(fn):
                return self.call(fn, [f.__self__] + list(args), kw)
            return self.native(f, args, kw)
        if isinstance(f, VMFunction):
            return self.invoke(f.node, f.env.glob, f.env, None, f.defaults, f.kwdefaults, args, kw, f)
        if isinstance(f, types.FunctionType):
            node = self.function_node(f)
            if node is not None:
                cells = None
                if f.__closure__:
                    cells = dict(zip(f.__code__.co_freevars, f.__closure__))
                self.note(f)
                return self.invoke(node, f.__globals__, None, cells, f.__defaults__ or (),
                                   f.__kwdefaults__ or {}, args, kw, f)
            m = getattr(f, "__vm_model__", None)
            if m is not None:
                return m(self, args, kw)
            return self.native(f, args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, functools.partial):
            k2 = dict(f.keywords)
            k2.update(kw)
            return self.call(f.func, list(f.args) + list(args), k2)
        try:
            m = self.builtin_models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(args, kw)
        s = getattr(f, "__self__", None)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)) and s is not None and \
                not isinstance(s, types.ModuleType):
            return self.method(s, f.__name__, args, kw)
        if isinstance(f, types.MethodDescriptorType) and args:
            return self.method(resolve(args[0]), f.__name__, args[1:], kw)
        if isinstance(f, (operator.itemgetter, operator.attrgetter)):
            return f(resolve(args[0]))
        c = getattr(type(f), "__call__", None)
        if isinstance(c, types.FunctionType) and self.interpretable(c):
            return self.call(c, [f] + list(args), kw)
        return self.native(f, args, kw)

    def note(self, f):
        k = self.loader.sut_name(f.__code__)
        if k:
            self.sut_functions[k] = self.sut_functions.get(k, 0) + 1

    def invoke(self, node, glob, parent, cells, defaults, kwdefaults, args, kw, fobj):
        if self.depth > 60:
            raise RecursionError("recursion depth exceeded")

        def thunk():
            env = Env(glob, parent, cells, fobj)
            self.E.fresh(env.vars)
            self.bind(node.args, env, defaults, kwdefaults, args, kw, getattr(node, "name", "<lambda>"))
            self.depth += 1
            try:
                if is_generator(node):
                    # run eagerly; what it yields becomes an iterator
                    env.yields = self.E.fresh([])
                    self.E.region(lambda: self.generator_body(node, env))
                    r = ("return", VMIter(env.yields))
                elif isinstance(node, ast.Lambda):
                    r = ("return", self.ev(node.body, env))
                else:
                    r = self.block(node.body, env)
                    if r[0] != "return":
                        r = ("return", None)
            finally:
                self.depth -= 1
            return r
        return self.E.region(thunk)[1]

    def generator_body(self, node, env):
        self.block(node.body, env)
        return NORMAL

    def ev_Yield(self, e, env):
        self.yield_([self.ev(e.value, env) if e.value is not None else None], env)

    def ev_YieldFrom(self, e, env):
        self.yield_(self.items(self.ev(e.value, env)), env)

    def yield_(self, items, env):
        while env.yields is None:
            env = env.parent
            if env is None:
                raise Unsupported("yield")
        self.E.touch(env.yields)
        env.yields.extend(items)
        if len(env.yields) > 100000:
            raise Unsupported("very long generator")

    def bind(self, a, env, defaults, kwdefaults, args, kw, name):
        kw = dict(kw)
        pos = a.posonlyargs + a.args
        v = env.vars
        n = len(pos)
        args = list(args)
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw and p not in a.posonlyargs:
                    raise TypeError("%s() got multiple values for argument '%s'" % (name, p.arg))
                v[p.arg] = args[i]
            elif p.arg in kw and p not in a.posonlyargs:
                v[p.arg] = kw.pop(p.arg)
            else:
                j = i - (n - len(defaults))
                if j < 0:
                    raise TypeError("%s() missing required argument '%s'" % (name, p.arg))
                v[p.arg] = defaults[j]
        if a.vararg:
            v[a.vararg.arg] = tuple(args[n:])
        elif len(args) > n:
            raise TypeError("%s() takes %d positional arguments but %d were given" % (name, n, len(args)))
        for p in a.kwonlyargs:
            if p.arg in kw:
                v[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults:
                v[p.arg] = kwdefaults[p.arg]
            else:
                raise TypeError("%s() missing keyword argument '%s'" % (name, p.arg))
        if a.kwarg:
            v[a.kwarg.arg] = kw
        elif kw:
            raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, list(kw)[0]))

    def instantiate(self, cls, args, kw):
        m = self.builtin_models.get(cls)
        if m is not None:
            return m(args, kw)
        init = getattr(cls, "__init__", None)
        new = cls.__new__
        if isinstance(init, types.FunctionType) and self.interpretable(init) and \
                (new is object.__new__ or not isinstance(new, types.FunctionType)):
            obj = cls.__new__(cls) if new is object.__new__ else cls.__new__(cls, *args, **kw)
            self.E.fresh(obj)
            self.call(init, [obj] + list(args), kw)
            return obj
        r = self.native(cls, args, kw)
        if getattr(r, "__dict__", None) is not None:
            self.E.fresh(r)
        return r

    def native(self, f, args, kw):
        """Call outside the interpreter; markers are resolved by forking."""
        args = [self.plain(a) for a in args]
        kw = {k: self.plain(v) for k, v in kw.items()}
        for a in list(args) + list(kw.values()):
            if isinstance(a, (list, dict, set)) or (isinstance(a, np.ndarray)):
                if getattr(f, "__module__", "") not in ("numpy", "math", "itertools", "operator"):
                    self.E.touch(a)
        r = f(*args, **kw)
        if isinstance(r, (list, dict, set, np.ndarray)):
            self.E.fresh(r)
        elif isinstance(r, collections.abc.Iterator) and type(r).__module__ in ("itertools", "builtins"):
            return self.iterator(self.items(r))
        return r

    def iterator(self, items, live=None):
        return VMIter(self.E.fresh(list(items)), live)

    def plain(self, v, depth=0):
        """v without Opt/Phi markers (forks); containers are fixed in place."""
        v = resolve(v)
        if depth > 4:
            return v
        if type(v) is VMIter:
            return iter(self.present(self.items(v)))
        if isinstance(v, list):
            if any(isinstance(x, (Opt, Phi)) for x in v):
                self.E.touch(v)
                v[:] = self.present(v)
            for i, x in enumerate(v):
                if isinstance(x, (list, dict, set, tuple)):
                    y = self.plain(x, depth + 1)
                    if y is not x:
                        self.E.touch(v)
                        v[i] = y
            return v
        if isinstance(v, set):
            if any(isinstance(x, Opt) for x in v):
                self.E.touch(v)
                items = self.present(list(v))
                v.clear()
                v.update(items)
            return v
        if isinstance(v, dict):
            if any(isinstance(x, (Opt, Phi)) for x in v.values()):
                self.E.touch(v)
                out = {}
                for k, x in v.items():
                    if isinstance(x, Opt):
                        if not bool(x.g):
                            continue
                        x = x.v
                    out[k] = resolve(x)
                v.clear()
                v.update(out)
            return v
        if isinstance(v, tuple):
            if any(isinstance(x, (Opt, Phi, list, dict, set, tuple)) for x in v):
                w = tuple(self.plain(x, depth + 1) for x in self.present(v))
                if any(x is not y for x, y in zip(w, v)) or len(w) != len(v):
                    return w
            return v
        return v

    def present(self, items):
        out = []
        for x in items:
            if isinstance(x, Opt):
                if not bool(x.g):
                    continue
                x = x.v
            out.append(resolve(x))
        return out

    # =============================================================== statements
    def block(self, stmts, env):
        for s in stmts:
            h = self.S.get(type(s))
            if h is None:
                raise Unsupported("statement %s" % type(s).__name__)
            r = h(s, env)
            if r is not None and r[0] != "normal":
                return r
        return NORMAL

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        return None

    def st_Return(self, s, env):
        return ("return", self.ev(s.value, env) if s.value is not None else None)

    def st_Break(self, s, env):
        return BREAK

    def st_Continue(self, s, env):
        return CONTINUE

    def st_Global(self, s, env):
        env.gdecl = (env.gdecl or set()) | set(s.names)

    def st_Nonlocal(self, s, env):
        env.ndecl = (env.ndecl or set()) | set(s.names)

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, env)
            new = self.augop(s.op, old, self.ev(s.value, env))
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = resolve(self.ev(t.value, env))
            old = self.getattr(o, t.attr)
            new = self.augop(s.op, old, self.ev(s.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = resolve(self.ev(t.value, env))
            i = self.index_of(t.slice, env)
            old = self.getitem(o, i)
            new = self.augop(s.op, old, self.ev(s.value, env))
            self.setitem(o, i, new)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, old, val):
        old = resolve(old)
        val = resolve(val)
        if isinstance(old, list) and isinstance(op, ast.Add):
            self.method(old, "extend", [val], {})
            return old
        if isinstance(old, set):
            n = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update",
                 ast.BitXor: "symmetric_difference_update"}.get(type(op))
            if n:
                self.method(old, n, [val], {})
                return old
        if isinstance(old, np.ndarray):
            self.E.touch(old)
            return IBINOPS[type(op)](old, val)
        if hasattr(type(old), "__i%s__" % DUNDER[type(op)]):
            m = getattr(type(old), "__i%s__" % DUNDER[type(op)])
            if isinstance(m, types.FunctionType) and self.interpretable(m):
                return self.call(m, [old, val])
        return self.binop(op, old, val)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.E.touch_var(env.vars, t.id)
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = resolve(self.ev(t.value, env))
                i = self.index_of(t.slice, env)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = resolve(self.ev(t.value, env))
                self.E.touch_attr(o, t.attr)
                delattr(o, t.attr)
            else:
                raise Unsupported("del target")

    def st_If(self, s, env):
        t = self.truth(self.ev(s.test, env))
        if not isinstance(t, SymBool):
            return self.block(s.body if t else s.orelse, env)
        k = self.E.lookup(t.z)
        if k is not None:
            return self.block(s.body if k else s.orelse, env)
        if has_jump(s.body) or (s.orelse and has_jump(s.orelse)):
            return self.block(s.body if bool(t) else s.orelse, env)
        return self.E.region(lambda: self.block(s.body if bool(t) else s.orelse, env))

    def st_Assert(self, s, env):
        t = self.truth(self.ev(s.test, env))
        if not bool(t):
            raise AssertionError(self.ev(s.msg, env) if s.msg is not None else "")

    def st_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported("bare raise")
        e = resolve(self.ev(s.exc, env))
        if isinstance(e, type):
            e = e()
        if s.cause is not None:
            c = self.ev(s.cause, env)
            raise e from c
        raise e

    def st_Try(self, s, env):
        def body():
            return self.block(s.body, env)

        def whole():
            comp = NORMAL
            try:
                comp = body()
            except Exception as e:
                if not self.E.feasible():
                    raise Infeasible()
                for h in s.handlers:
                    ok = True
                    if h.type is not None:
                        t = self.ev(h.type, env)
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            self.store(h.name, e, env)
                        return self.block(h.body, env)
                raise
            else:
                if comp[0] == "normal" and s.orelse:
                    return self.block(s.orelse, env)
                return comp
        if not s.finalbody:
            return whole()
        try:
            comp = whole()
        except Control:
            raise
        except Exception:
            c2 = self.block(s.finalbody, env)
            if c2[0] != "normal":
                return c2
            raise
        c2 = self.block(s.finalbody, env)
        return c2 if c2[0] != "normal" else comp

    def st_With(self, s, env):
        mgrs = []
        for it in s.items:
            m = resolve(self.ev(it.context_expr, env))
            v = self.call(self.getattr(m, "__enter__"), [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            mgrs.append(m)
        try:
            r = self.block(s.body, env)
        except Exception as e:
            for m in reversed(mgrs):
                if self.call(self.getattr(m, "__exit__"), [type(e), e, None]):
                    return NORMAL
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, "__exit__"), [None, None, None])
        return r

    def st_Import(self, s, env):
        imp = env.glob["__builtins__"]["__import__"]
        for a in s.names:
            m = imp(a.name, env.glob, None, (), 0)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr(m, part)
                self.store(a.asname, m, env)
            else:
                self.store(a.name.split(".")[0], m, env)

    def st_ImportFrom(self, s, env):
        imp = env.glob["__builtins__"]["__import__"]
        m = imp(s.module or "", env.glob, None, tuple(a.name for a in s.names), s.level)
        for a in s.names:
            self.store(a.asname or a.name, getattr(m, a.name), env)

    def st_FunctionDef(self, s, env):
        f = self.make_function(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f])
        self.store(s.name, f, env)

    def make_function(self, node, env, name):
        e = env
        while e is not None:
            e.captured = True
            e = e.parent
        defaults = tuple(self.ev(d, env) for d in node.args.defaults)
        kwd = {a.arg: self.ev(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
               if d is not None}
        return VMFunction(self, node, env, defaults, kwd, name)

    # -------------------------------------------------------------------- loops
    def st_For(self, s, env):
        it = resolve(self.ev(s.iter, env))
        if loop_leaves(s):
            return self.E.region(lambda: self.for_loop(s, it, env))
        return self.for_loop(s, it, env)

    def for_loop(self, s, it, env):
        """Python's iteration over a list is live: when the body changes the
        list, iteration continues by position in the changed list."""
        wrap = rest = None
        if type(it) is VMIter:
            if it.live is not None and it.buf:
                lst, start = it.live
                self.items(it)          # used up
                it, wrap = lst, start
            else:
                rest = it.buf
        items = self.items(it)
        live = it if type(it) is list else None
        sized = it if type(it) in (dict, set) else None
        i = 0
        done = 0
        while i < len(items):
            x = items[i]

            def one(x=x):
                if isinstance(x, Opt):
                    if not bool(x.g):
                        return NORMAL
                    x = x.v
                n0 = len(sized) if sized is not None else 0
                if wrap is not None:
                    x = (wrap + done, x)
                self.assign(s.target, x, env)
                r = self.block(s.body, env)
                if sized is not None and len(sized) != n0 and r[0] in ("normal", "continue"):
                    raise RuntimeError("container changed size during iteration")
                return NORMAL if r[0] == "continue" else r
            r = self.E.region(one)
            if r[0] in ("break", "return"):
                if rest is not None and i + 1 < len(items):
                    self.E.touch(rest)
                    rest[:] = items[i + 1:]
                return NORMAL if r[0] == "break" else r
            done = done + ITE(guard_of(x), 1, 0)
            i += 1
            if live is not None and (len(live) != len(items) or
                                     any(a is not b for a, b in zip(live, items))):
                if all(a is b for a, b in zip(live[:i], items[:i])):
                    if any(isinstance(y, Opt) for y in live[i:]):
                        keep = [y for y in live[i:] if not isinstance(y, Opt) or self.E.feasible(y.g.z)]
                        if len(keep) < len(live) - i:
                            self.E.touch(live)
                            live[i:] = keep
                    items = list(live)
                    continue
                if isinstance(done, SYM) or any(isinstance(y, Opt) for y in live):
                    # decide which elements are present, then go on by position
                    self.plain(live)
                    done = self.E.concretize(done) if isinstance(done, SYM) else done
                items = list(live)
                i = done
        if s.orelse:
            return self.block(s.orelse, env)
        return NORMAL

    def st_While(self, s, env):
        return self.E.region(lambda: self.while_loop(s, env))

    def while_loop(self, s, env):
        n = 0
        while True:
            t = self.truth(self.ev(s.test, env))
            if isinstance(t, SymBool) and n > 0:
                if not self.E.feasible(t.z):
                    t = False
            if not bool(t):
                break

            def one():
                r = self.block(s.body, env)
                return NORMAL if r[0] == "continue" else r
            r = self.E.region(one)
            if r[0] == "break":
                return NORMAL
            if r[0] == "return":
                return r
            n += 1
            if n > 5000:
                raise Unsupported("loop bound exceeded")
            if n % 20 == 0:
                self.E.check_deadline()
        if s.orelse:
            return self.block(s.orelse, env)
        return NORMAL

    # ================================================================ variables
    def load(self, name, env):
        e = env
        while e is not None:
            v = e.vars.get(name, MISSING)
            if v is not MISSING:
                if type(v) is Phi:
                    v = self.drop_missing(v)
                    if v is MISSING:
                        raise UnboundLocalError("local variable '%s' referenced before assignment" % name)
                return v
            if e.cells is not None and name in e.cells:
                return e.cells[name].cell_contents
            e = e.parent
        g = env.glob
        if name in g:
            return g[name]
        b = g.get("__builtins__", builtins)
        if isinstance(b, dict):
            if name in b:
                return b[name]
        elif hasattr(b, name):
            return getattr(b, name)
        raise NameError("name '%s' is not defined" % name)

    def drop_missing(self, v):
        while type(v) is Phi and (v.a is MISSING or v.b is MISSING):
            v = v.a if self.E.decide(v.c.z) else v.b
        return v

    def store(self, name, v, env):
        if env.gdecl and name in env.gdecl:
            self.E.setvar(env.glob, name, v)
            return
        if env.ndecl and name in env.ndecl:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.E.setvar(e.vars, name, v)
                    return
                e = e.parent
            raise Unsupported("nonlocal cell")
        self.E.setvar(env.vars, name, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(resolve(self.ev(t.value, env)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = resolve(self.ev(t.value, env))
            self.setitem(o, self.index_of(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v)
            if any(isinstance(x, Opt) for x in items):
                items = self.present(items)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                for e, x in zip(t.elts[:k], items):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, self.E.fresh(list(items[k:len(items) - after])), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise ValueError("wrong number of values to unpack (expected %d, got %d)"
                                 % (len(t.elts), len(items)))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def getattr(self, o, name):
        if isinstance(o, SymNum) or isinstance(o, SymBool):
            return getattr(o, name)
        p = getattr(type(o), name, None) if not isinstance(o, type) else None
        if isinstance(p, property) and isinstance(p.fget, types.FunctionType) and self.interpretable(p.fget):
            return self.call(p.fget, [o])
        v = getattr(o, name)
        if type(v) is Phi:
            v = self.drop_missing(v)
            if v is MISSING:
                raise AttributeError("'%s' object has no attribute '%s'" % (type(o).__name__, name))
        return v

    def setattr(self, o, name, v):
        p = getattr(type(o), name, None) if not isinstance(o, type) else None
        if isinstance(p, property):
            if p.fset is None:
                raise AttributeError("can't set attribute '%s'" % name)
            if self.interpretable(p.fset):
                self.call(p.fset, [o, v])
                return
        self.E.touch_attr(o, name)
        if isinstance(o, types.ModuleType) or not hasattr(o, "__dict__") or isinstance(o, type) or \
                type(o).__setattr__ is not object.__setattr__:
            setattr(o, name, resolve(v))
        else:
            setattr(o, name, v)

    # ============================================================== expressions
    def ev(self, e, env):
        h = self.X.get(type(e))
        if h is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return h(e, env)

    def ev_Constant(self, e, env):
        return e.value

    def ev_Name(self, e, env):
        return self.load(e.id, env)

    def ev_Attribute(self, e, env):
        return self.getattr(resolve(self.ev(e.value, env)), e.attr)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def ev_List(self, e, env):
        return self.E.fresh(list(self.elements(e.elts, env)))

    def ev_Set(self, e, env):
        s = self.E.fresh(set())
        for x in self.elements(e.elts, env):
            self.set_add(s, x)
        return s

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ev_Dict(self, e, env):
        d = self.E.fresh({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method(d, "update", [self.ev(v, env)], {})
            else:
                kk = self.ev(k, env)
                self.setitem(d, kk, self.ev(v, env))
        return d

    def ev_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ev_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = resolve(self.ev(v.value, env))
                if v.conversion == 114:
                    x = self.builtin_models[repr]([x], {})
                elif v.format_spec is not None and not isinstance(x, SYM) and not contains_marker(x):
                    x = format(x, self.ev(v.format_spec, env))
                out.append(self.tostr(x))
        return symtext(out)

    def tostr(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, SYM) or contains_marker(x):
            return SymText("<sym>")
        return str(x)

    def ev_Lambda(self, e, env):
        return self.make_function(e, env, "<lambda>")

    def ev_UnaryOp(self, e, env):
        v = resolve(self.ev(e.operand, env))
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return NOT(t) if isinstance(t, SymBool) else (not t)
        if isinstance(e.op, ast.USub):
            m = getattr(type(v), "__neg__", None)
            if isinstance(m, types.FunctionType) and self.interpretable(m):
                return self.call(m, [v])
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        m = getattr(type(v), "__invert__", None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            return self.call(m, [v])
        return ~v

    def ev_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a = resolve(a)
        b = resolve(b)
        k = type(op)
        if isinstance(a, str):
            if k is ast.Mod:
                bs = b if isinstance(b, tuple) else (b,)
                if any(isinstance(resolve(x), (SYM, SymText)) or contains_marker(x) for x in bs):
                    return SymText("<sym>")
                return a % b
            return BINOPS[k](a, b)
        if isinstance(a, list) and k is ast.Add and isinstance(b, list):
            return self.E.fresh(a + b)
        if isinstance(a, (list, tuple)) and k is ast.Mult or isinstance(b, (list, tuple)) and k is ast.Mult:
            if isinstance(b, (list, tuple)):
                a, b = b, a
            if isinstance(b, SYM):
                b = self.E.concretize(b)
            r = a * b
            return self.E.fresh(r) if isinstance(r, list) else r
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            n = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference",
                 ast.BitXor: "symmetric_difference"}.get(k)
            if n:
                return self.method(a, n, [b], {})
        if isinstance(a, dict) and isinstance(b, dict) and k is ast.BitOr:
            d = self.E.fresh(dict(a))
            self.method(d, "update", [b], {})
            return d
        if isinstance(a, np.ndarray) and isinstance(b, SYM) or isinstance(b, np.ndarray) and isinstance(a, SYM):
            return self.E.fresh(self.elementwise(BINOPS[k], a, b))
        d = DUNDER[k]
        m = getattr(type(a), "__%s__" % d, None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            r = self.call(m, [a, b])
            if r is not NotImplemented:
                return r
        m = getattr(type(b), "__r%s__" % d, None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            r = self.call(m, [b, a])
            if r is not NotImplemented:
                return r
        r = BINOPS[k](a, b)
        if isinstance(r, np.ndarray):
            self.E.fresh(r)
        return r

    @staticmethod
    def elementwise(f, a, b):
        arr = a if isinstance(a, np.ndarray) else b
        out = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(*arr.shape):
            x, y = (a[i], b) if arr is a else (a, b[i])
            out[i] = f(vals.num(x) if not isinstance(x, SYM) else x, vals.num(y) if not isinstance(y, SYM) else y)
        return vals.SymArr(out)

    def ev_BoolOp(self, e, env):
        return self.boolop(e.values, isinstance(e.op, ast.And), env)

    def boolop(self, values, is_and, env):
        v = self.ev(values[0], env)
        if len(values) == 1:
            return v
        t = self.truth(v)
        if not isinstance(t, SymBool):
            if bool(t) != is_and:
                return v
            return self.boolop(values[1:], is_and, env)
        k = self.E.lookup(t.z)
        if k is not None:
            return self.boolop(values[1:], is_and, env) if k == is_and else (v if not isinstance(v, SymBool) else k)
        keep = v if isinstance(v, (SymNum, Phi)) or not isinstance(v, SymBool) else (not is_and)

        def thunk():
            if bool(t) != is_and:
                return ("v", keep)
            return ("v", self.boolop(values[1:], is_and, env))
        return self.E.region(thunk)[1]

    def ev_IfExp(self, e, env):
        t = self.truth(self.ev(e.test, env))
        if not isinstance(t, SymBool):
            return self.ev(e.body if t else e.orelse, env)
        return self.E.region(lambda: ("v", self.ev(e.body if bool(t) else e.orelse, env)))[1]

    def ev_Compare(self, e, env):
        a = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            c = self.compare(op, a, b)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            res = AND(res, c)
            if res is False:
                return False
            a = b
        return res

    def compare(self, op, a, b):
        k = type(op)
        if k is ast.Is or k is ast.IsNot:
            r = self.is_(a, b)
            return r if k is ast.Is else NOT(r)
        if k is ast.In:
            return self.contains(resolve(b), a)
        if k is ast.NotIn:
            return NOT(self.contains(resolve(b), a))
        if k is ast.Eq:
            return self.eq(a, b)
        if k is ast.NotEq:
            r = self.eq(a, b, ne=True)
            return r
        a = resolve(a)
        b = resolve(b)
        if isinstance(a, np.ndarray) and isinstance(b, SYM) or isinstance(b, np.ndarray) and isinstance(a, SYM):
            return self.E.fresh(self.elementwise(CMPOPS[k], a, b))
        d, rd = CMPDUNDER[k]
        m = getattr(type(a), d, None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            r = self.call(m, [a, b])
            if r is not NotImplemented:
                return r
        m = getattr(type(b), rd, None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            r = self.call(m, [b, a])
            if r is not NotImplemented:
                return r
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            ma, mb = self.setmap(a), self.setmap(b)
            if k in (ast.Gt, ast.GtE):
                ma, mb = mb, ma
            sub = AND([OR(NOT(g), mb.get(x, False)) for x, g in ma.items()])
            if k in (ast.LtE, ast.GtE):
                return sub
            return AND(sub, NOT(self.eq(a, b)))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return self.seq_lt(k, self.plain(a), self.plain(b))
        return CMPOPS[k](a, b)

    def seq_lt(self, k, a, b):
        if k in (ast.Gt, ast.GtE):
            return self.seq_lt(ast.Lt if k is ast.Gt else ast.LtE, b, a)
        res = (len(a) < len(b)) if k is ast.Lt else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            e = self.eq(x, y)
            lt = self.compare(ast.Lt(), x, y)
            res = OR(lt, AND(e, res))
        return res

    def is_(self, a, b):
        if isinstance(a, Phi):
            return ITE(a.c, self.is_(a.a, b), self.is_(a.b, b))
        if isinstance(b, Phi):
            return self.is_(b, a)
        if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
            return EQ(a, b)
        if isinstance(b, SymBool) and isinstance(a, bool):
            return EQ(a, b)
        return a is b

    def eq(self, a, b, ne=False):
        if isinstance(a, Phi):
            if b is None or isinstance(b, (int, str, SYM)):
                r = ITE(a.c, self.truth(self.eq(a.a, b)), self.truth(self.eq(a.b, b)))
                return NOT(r) if ne else r
            a = resolve(a)
        if isinstance(b, Phi):
            if a is None or isinstance(a, (int, str, SYM)):
                return self.eq(b, a, ne)
            b = resolve(b)
        if isinstance(a, np.ndarray) and isinstance(b, SYM) or isinstance(b, np.ndarray) and isinstance(a, SYM):
            return self.elementwise((lambda x, y: NOT(EQ(x, y))) if ne else EQ, a, b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return (a != b) if ne else (a == b)
        if isnum(a) and isnum(b):
            r = EQ(a, b)
            return NOT(r) if ne else r
        for x, y in ((a, b), (b, a)):
            m = getattr(type(x), "__ne__" if ne else "__eq__", None)
            if isinstance(m, types.FunctionType) and self.interpretable(m):
                r = self.call(m, [x, y])
                if r is not NotImplemented:
                    return r
            if ne:
                m = getattr(type(x), "__eq__", None)
                if isinstance(m, types.FunctionType) and self.interpretable(m):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return NOT(self.truth(r))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list):
                r = False
            else:
                if any(isinstance(x, Opt) for x in a) or any(isinstance(x, Opt) for x in b):
                    a, b = self.plain(a), self.plain(b)
                r = len(a) == len(b) and AND([self.truth(self.eq(x, y)) for x, y in zip(a, b)])
            return NOT(r) if ne else r
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            ma, mb = self.setmap(a), self.setmap(b)
            r = AND([IFF(ma.get(x, False), mb.get(x, False)) for x in set(ma) | set(mb)])
            return NOT(r) if ne else r
        if isinstance(a, dict) and isinstance(b, dict):
            r = []
            for k in list(a) + [k for k in b if k not in a]:
                va, vb = a.get(k, MISSING), b.get(k, MISSING)
                ga = va is not MISSING and guard_of(va)
                gb = vb is not MISSING and guard_of(vb)
                r.append(IFF(ga, gb))
                if va is not MISSING and vb is not MISSING:
                    r.append(OR(NOT(ga), NOT(gb), self.truth(self.eq(val_of(va), val_of(vb)))))
            r = AND(r)
            return NOT(r) if ne else r
        return (a != b) if ne else (a == b)

    def truth(self, v):
        v = resolve(v)
        if isinstance(v, (bool, SymBool)):
            return v
        if isinstance(v, SymNum):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (list, set, tuple)):
            return OR([guard_of(x) for x in v]) if v else False
        if isinstance(v, dict):
            return OR([guard_of(x) for x in v.values()]) if v else False
        for n in ("__bool__", "__len__"):
            m = getattr(type(v), n, None)
            if isinstance(m, types.FunctionType) and self.interpretable(m):
                return self.truth(self.call(m, [v]))
            if m is not None:
                break
        return bool(v)

    def ev_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Attribute):
            base = resolve(self.ev(f.value, env))
            args, kw = self.call_args(e, env)
            if isinstance(base, (list, dict, set, frozenset, tuple, str, np.ndarray)) and not isinstance(base, type):
                return self.method(base, f.attr, args, kw)
            return self.call(self.getattr(base, f.attr), args, kw)
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            return self.zero_super(env)
        fn = self.ev(f, env)
        if (fn is any or fn is all) and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            try:
                args, kw = self.call_args(e, env)
            except (Control, Infeasible):
                raise
            except Exception:
                # a later element may not be reached
                return self.short_circuit(fn, e.args[0], env)
            return self.call(fn, args, kw)
        args, kw = self.call_args(e, env)
        if fn is builtins.locals or fn is builtins.globals:
            return dict(env.vars) if fn is builtins.locals else env.glob
        return self.call(fn, args, kw)

    def short_circuit(self, fn, e, env):
        """any/all over a generator, element by element"""
        out = self.E.fresh([fn is all])

        def emit(env2):
            t = self.truth(self.ev(e.elt, env2))
            self.E.touch(out)
            out[0] = AND(out[0], t) if fn is all else OR(out[0], t)
        self.comp(e.generators, env, emit, lambda: bool(NOT(out[0]) if fn is all else out[0]))
        return out[0]

    def zero_super(self, env):
        e = env
        while e is not None and not (e.cells and "__class__" in e.cells):
            e = e.parent
        if e is None:
            raise Unsupported("super()")
        cls = e.cells["__class__"].cell_contents
        node = self.function_node(e.fn)
        first = (node.args.posonlyargs + node.args.args)[0].arg
        return super(cls, e.vars[first])

    def call_args(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.present(self.items(self.ev(a.value, env))))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = resolve(self.ev(k.value, env))
                kw.update(self.plain(d))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return args, kw

    # comprehensions --------------------------------------------------------
    def comp(self, gens, env, emit, stop=None):
        env2 = Env(env.glob, env, None, env.fn)
        self.E.fresh(env2.vars)

        def rec(i):
            if i == len(gens):
                emit(env2)
                return
            g = gens[i]
            items = self.items(self.ev(g.iter, env2 if i else env))
            for x in items:
                def one(x=x):
                    if isinstance(x, Opt):
                        if not bool(x.g):
                            return NORMAL
                        x = x.v
                    if stop is not None and stop():
                        return NORMAL
                    self.assign(g.target, x, env2)
                    for c in g.ifs:
                        if not bool(self.truth(self.ev(c, env2))):
                            return NORMAL
                    rec(i + 1)
                    return NORMAL
                self.E.region(one)
        rec(0)

    def ev_ListComp(self, e, env):
        out = self.E.fresh([])

        def emit(env2):
            v = self.ev(e.elt, env2)
            self.E.touch(out)
            out.append(v)
        self.comp(e.generators, env, emit)
        return out

    def ev_GeneratorExp(self, e, env):
        return VMIter(self.ev_ListComp(e, env))

    def ev_SetComp(self, e, env):
        out = self.E.fresh(set())
        self.comp(e.generators, env, lambda env2: self.set_add(out, self.ev(e.elt, env2)))
        return out

    def ev_DictComp(self, e, env):
        out = self.E.fresh({})

        def emit(env2):
            k = self.ev(e.key, env2)
            self.setitem(out, k, self.ev(e.value, env2))
        self.comp(e.generators, env, emit)
        return out

    # ============================================================ subscripting
    def ev_Subscript(self, e, env):
        o = resolve(self.ev(e.value, env))
        return self.getitem(o, self.index_of(e.slice, env))

    def index_of(self, s, env):
        return resolve(self.ev(s, env))

    def ev_Slice(self, e, env):
        def g(x):
            if x is None:
                return None
            v = resolve(self.ev(x, env))
            return self.E.concretize(v) if isinstance(v, SYM) else v
        return slice(g(e.lower), g(e.upper), g(e.step))

    def getitem(self, o, i):
        if isinstance(o, (list, tuple)):
            if isinstance(i, slice):
                if any(isinstance(x, Opt) for x in o):
                    o = self.plain(o)
                r = o[i]
                return self.E.fresh(r) if isinstance(r, list) else r
            if isinstance(i, SymBool):
                i = vals.num(i)
            if any(isinstance(x, Opt) for x in o):
                return self.opt_index(o, i)
            if isinstance(i, SymNum):
                return self.sym_index(o, i)
            return o[i]
        if isinstance(o, dict):
            return self.dict_get(o, i)
        if isinstance(o, np.ndarray):
            return self.arr_get(o, i)
        m = getattr(type(o), "__getitem__", None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            return self.call(m, [o, i])
        if isinstance(i, SYM):
            i = self.E.concretize(i)
        return o[i]

    def sym_index(self, o, i):
        n = len(o)
        if n == 0:
            raise IndexError("list index out of range")
        if not bool(AND(i < n, i >= -n)):
            raise IndexError("list index out of range")
        neg = i < 0
        hasneg = neg is True or (isinstance(neg, SymBool) and self.E.lookup(neg.z) is not False
                                 and self.E.feasible(neg.z))
        r = o[n - 1]
        for j in range(n - 2, -1, -1):
            c = EQ(i, j)
            if hasneg:
                c = OR(c, EQ(i, j - n))
            if c is False:
                continue
            if c is True:
                return o[j]
            r = self.E.merge(c, o[j], r, {})
        return r

    def opt_index(self, o, i):
        items = list(o)
        if isinstance(i, SymNum):
            # positions are symbolic on both sides
            if not bool(i >= 0):
                return self.plain(o)[self.E.concretize(i)]
        elif i < 0:
            items.reverse()
            i = -i - 1
        total = SUM([ITE(guard_of(x), 1, 0) for x in items])
        if not bool(i < total):
            raise IndexError("list index out of range")
        r = MISSING
        before = 0
        cases = []
        for x in items:
            g = guard_of(x)
            c = AND(g, EQ(before, i))
            if c is not False:
                cases.append((c, val_of(x)))
            if c is True:
                break
            before = before + ITE(g, 1, 0)
        r = cases[-1][1]
        for c, v in reversed(cases[:-1]):
            r = v if c is True else self.E.merge(c, v, r, {})
        return r

    def arr_get(self, a, i):
        idx = i if isinstance(i, tuple) else (i,)
        for k, x in enumerate(idx):
            if isinstance(x, SymBool):
                x = vals.num(x)
            if isinstance(x, SymNum):
                n = a.shape[k]
                if not bool(AND(x < n, x >= 0)):
                    if not bool(AND(x < 0, x >= -n)):
                        raise IndexError("index out of bounds")
                    x = x + n
                r = None
                for j in range(n - 1, -1, -1):
                    v = self.arr_get(a, idx[:k] + (j,) + idx[k + 1:])
                    if r is None:
                        r = v
                    else:
                        c = EQ(x, j)
                        if c is False:
                            continue
                        if isinstance(v, np.ndarray):
                            out = v.copy()
                            ra, va = np.asarray(r), np.asarray(v)
                            for q in np.ndindex(*v.shape):
                                out[q] = self.E.merge(c, va[q], ra[q], {})
                            r = out
                        else:
                            r = self.E.merge(c, v, r, {})
                return r
        if isinstance(i, list):
            if a.ndim == 1 and any(isinstance(x, Opt) for x in i):
                return self.E.fresh(self.loader.np_optseq([(guard_of(x), self.arr_get(a, val_of(x))) for x in i]))
            i = self.plain(i)
        if isinstance(i, tuple) and any(isinstance(x, list) or
                                        (isinstance(x, np.ndarray) and x.dtype == object) for x in i):
            i = tuple(self.plain(x) if isinstance(x, list) else x for x in i)
            i = tuple(np.array([self.index_value(y) for y in x.ravel()]).reshape(x.shape)
                      if isinstance(x, np.ndarray) and x.dtype == object and x.size else
                      [self.index_value(y) for y in x] if isinstance(x, list) and all(
                          not isinstance(y, (list, np.ndarray)) for y in x) else x for x in i)
        if isinstance(i, np.ndarray) and i.dtype == object and i.size == 0:
            i = i.astype(int)
        if isinstance(i, np.ndarray) and i.dtype == object and a.ndim == 1 and i.shape == a.shape and \
                all(isinstance(x, (bool, np.bool_, SymBool)) for x in i):
            return self.E.fresh(self.loader.np_select(a, i))
        if isinstance(i, np.ndarray) and i.dtype == object:
            i = np.array([bool(x) if isinstance(x, (bool, np.bool_, SymBool)) else self.E.concretize(x)
                          for x in i.ravel()]).reshape(i.shape)
        return a[i]

    def index_value(self, x):
        if isinstance(x, SymBool):
            return bool(x)
        return self.E.concretize(x) if isinstance(x, SYM) else x

    def setitem(self, o, i, v):
        if isinstance(o, list):
            if isinstance(i, slice):
                self.E.touch(o)
                o[i] = self.items(v)
                return
            if any(isinstance(x, Opt) for x in o):
                if isinstance(i, SYM) or not all(not isinstance(x, Opt) for x in o[:i + 1 if i >= 0 else None]):
                    self.plain(o)
            if isinstance(i, SymBool):
                i = vals.num(i)
            if isinstance(i, SymNum):
                n = len(o)
                if not bool(AND(i < n, i >= -n)):
                    raise IndexError("list assignment index out of range")
                self.E.touch(o)
                for j in range(n):
                    c = OR(EQ(i, j), EQ(i, j - n))
                    if c is False:
                        continue
                    o[j] = v if c is True else self.E.merge(c, v, o[j], {})
                return
            self.E.touch(o)
            o[i] = v
        elif isinstance(o, dict):
            self.dict_set(o, i, v)
        elif isinstance(o, np.ndarray):
            self.E.touch(o)
            idx = i if isinstance(i, tuple) else (i,)
            if any(isinstance(x, SYM) for x in idx):
                idx = tuple(self.E.concretize(x) if isinstance(x, SYM) else x for x in idx)
                i = idx if isinstance(i, tuple) else idx[0]
            v = resolve(v)
            if isinstance(v, SYM) and o.dtype != object:
                raise Unsupported("symbolic value stored in a typed array")
            if isinstance(i, np.ndarray) and i.dtype == object:
                oo = np.asarray(o)
                vv = np.broadcast_to(np.asarray(v, dtype=object), oo.shape) if i.shape == oo.shape else None
                if vv is None:
                    raise Unsupported("symbolic mask assignment")
                for q in np.ndindex(*oo.shape):
                    c = i[q]
                    oo[q] = self.E.merge(c, vv[q], oo[q], {}) if isinstance(c, SymBool) else (vv[q] if c else oo[q])
                return
            o[i] = v
        else:
            m = getattr(type(o), "__setitem__", None)
            if isinstance(m, types.FunctionType) and self.interpretable(m):
                self.call(m, [o, i, v])
                return
            o[i] = v

    def delitem(self, o, i):
        if isinstance(o, dict):
            self.method(o, "pop", [i], {})
            return
        if isinstance(o, list):
            self.plain(o)
            self.E.touch(o)
            del o[self.E.concretize(i) if isinstance(i, SYM) else i]
            return
        self.E.touch(o)
        del o[i]

    # dictionaries ------------------------------------------------------------
    @staticmethod
    def is_symkey(k):
        return isinstance(k, SYM) or (type(k) is tuple and any(Interp.is_symkey(x) for x in k)) \
            or isinstance(k, Phi)

    def dict_find(self, d, k):
        """Returns the existing key equal to k (forking when symbolic) or MISSING."""
        k = resolve(k)
        if isinstance(k, SymBool):
            k = vals.num(k)
        sym = self.is_symkey(k)
        known = MISSING
        if not sym:
            if k in d:
                g = guard_of(d[k])
                if g is True or not any(self.is_symkey(x) for x in d) or bool(g):
                    return k
                known = k      # absent, but a symbolic key may equal it
            elif not any(self.is_symkey(x) for x in d):
                return MISSING
        for x in list(d):
            if not sym and not self.is_symkey(x):
                continue
            e = AND(guard_of(d[x]), self.truth(self.eq(x, k)))
            if e is False:
                continue
            if bool(e):
                return x
        return known

    def dict_get(self, d, k):
        kk = self.dict_find(d, k)
        if isinstance(d, collections.Counter):
            v = 0 if kk is MISSING else d[kk]
            return self.E.merge(v.g, v.v, 0, {}) if isinstance(v, Opt) else v
        if kk is MISSING:
            if hasattr(d, "default_factory") and d.default_factory is not None:
                v = self.call(d.default_factory, [])
                self.dict_set(d, k, v)
                return v
            raise KeyError(k)
        v = d[kk]
        if isinstance(v, Opt):
            if getattr(d, "default_factory", None) in (int, float):
                r = self.E.merge(v.g, v.v, d.default_factory(), {})
                self.dict_set(d, kk, r)
                return r
            if not bool(v.g):
                if hasattr(d, "default_factory") and d.default_factory is not None:
                    v = self.call(d.default_factory, [])
                    self.dict_set(d, kk, v)
                    return v
                raise KeyError(k)
            return v.v
        return v

    def dict_set(self, d, k, v):
        if isinstance(k, Phi):
            k = resolve(k)
        kk = self.dict_find(d, k) if (self.is_symkey(k) or any(self.is_symkey(x) for x in d)) else k
        self.E.touch(d)
        d[k if kk is MISSING else kk] = v

    def dict_has(self, d, k):
        k = resolve(k)
        if not self.is_symkey(k) and not any(self.is_symkey(x) for x in d):
            return guard_of(d[k]) if k in d else False
        return OR([AND(self.truth(self.eq(x, k)), guard_of(v)) for x, v in d.items()]) if d else False

    # sets ------------------------------------------------------------------------
    def setmap(self, s):
        m = {}
        for e in (s.keys() if isinstance(s, dict) else s):
            if isinstance(s, dict):
                m[e] = guard_of(s[e])
            else:
                v = val_of(e)
                m[v] = OR(m.get(v, False), guard_of(e)) if v in m else guard_of(e)
        return m

    def skey(self, v):
        """A hashable concrete set element (forks over symbolic integers)."""
        v = resolve(v)
        if isinstance(v, SymBool):
            v = vals.num(v)
        if isinstance(v, SymNum) and v.isint:
            return self.E.concretize(v)
        if type(v) is tuple and self.is_symkey(v):
            return tuple(self.skey(x) for x in v)
        return v

    def to_setmap(self, it):
        m = {}
        for e in self.items(it):
            v = self.skey(val_of(e))
            if isinstance(v, SymNum):
                # symbolic real: compare against present ones by value
                found = False
                for x in list(m):
                    if bool(self.truth(self.eq(x, v))):
                        v = x
                        break
            m[v] = OR(m.get(v, False), guard_of(e))
        return m

    def from_setmap(self, m):
        s = set()
        for v, g in m.items():
            if g is not False:
                s.add(mkopt(g, v))
        return self.E.fresh(s)

    def set_add(self, s, v, g=True):
        if isinstance(v, Opt):
            g, v = AND(g, v.g), v.v
        v = self.skey(v)
        self.E.touch(s)
        for e in list(s):
            x = val_of(e)
            if isinstance(v, SymNum) or isinstance(x, SymNum):
                if bool(self.truth(self.eq(x, v))):
                    v = x
            if x is v or (not isinstance(x, SYM) and not isinstance(v, SYM) and hash(x) == hash(v) and x == v):
                if isinstance(e, Opt):
                    s.discard(e)
                    s.add(mkopt(OR(e.g, g), v))
                return
        if g is not False:
            s.add(mkopt(g, v))

    def contains(self, c, x):
        if type(c) is VMIter:
            rest, found = [], False
            for y in self.items(c):
                g, v = guard_of(y), val_of(y)
                h = AND(g, found)
                if h is not False:
                    rest.append(mkopt(h, v))
                found = OR([found, AND(g, self.truth(self.same_or_eq(v, x)))])
            self.E.touch(c.buf)
            c.buf.extend(rest)
            return found
        if isinstance(c, (list, tuple)):
            return OR([AND(guard_of(y), self.truth(self.same_or_eq(val_of(y), x))) for y in c]) if c else False
        if isinstance(c, (set, frozenset)):
            x = resolve(x)
            if not isinstance(x, SYM) and not self.is_symkey(x):
                if x in c:
                    return True
            return OR([AND(guard_of(y), self.truth(self.eq(val_of(y), x))) for y in c]) if c else False
        if isinstance(c, dict):
            return self.dict_has(c, x)
        if isinstance(c, (type({}.keys()),)):
            return self.contains(list(c), x)
        if isinstance(c, range):
            x = resolve(x)
            if isinstance(x, SYM):
                return OR([EQ(x, v) for v in c])
            return x in c
        m = getattr(type(c), "__contains__", None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            return self.truth(self.call(m, [c, x]))
        if isinstance(c, np.ndarray):
            return OR([self.truth(self.eq(y, x)) for y in np.asarray(c).ravel()])
        x = resolve(x)
        if isinstance(x, SYM):
            return OR([EQ(x, v) for v in c])
        return x in c

    def same_or_eq(self, a, b):
        if a is b:
            return True
        return self.eq(a, b)

    # iteration -------------------------------------------------------------------
    def items(self, v):
        """The elements of an iterable as a list (may hold Opt elements)."""
        v = resolve(v)
        if type(v) is VMIter:
            out = list(v.buf)
            if out:
                self.E.touch(v.buf)
                v.buf.clear()
            return out
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            try:
                return sorted(v, key=lambda e: (str(type(val_of(e))), val_of(e)) if isinstance(val_of(e), (int, str)) else ("", 0))
            except Exception:
                return list(v)
        if isinstance(v, dict):
            return [mkopt(guard_of(x), k) for k, x in v.items()]
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, np.ndarray):
            return [v[i] for i in range(v.shape[0])]
        if isinstance(v, SYM):
            raise TypeError("symbolic number is not iterable")
        m = getattr(type(v), "__iter__", None)
        if isinstance(m, types.FunctionType) and self.interpretable(m):
            return self.items(self.call(m, [v]))
        out = []
        for x in v:
            out.append(x)
            if len(out) > 100000:
                raise Unsupported("very long iterator")
        return out

    def length(self, v):
        v = resolve(v)
        if isinstance(v, (list, tuple, set, frozenset)):
            gs = [guard_of(x) for x in v]
        elif isinstance(v, dict):
            gs = [guard_of(x) for x in v.values()]
        else:
            m = getattr(type(v), "__len__", None)
            if isinstance(m, types.FunctionType) and self.interpretable(m):
                return self.call(m, [v])
            return len(v)
        n = sum(1 for g in gs if g is True)
        if n == len(gs):
            return n
        r = SUM([n] + [ITE(g, 1, 0) for g in gs if g is not True])
        if isinstance(r, SymNum):
            r.ub = len(gs)
        return r

    # methods of builtin containers --------------------------------------------------
    def method(self, o, name, args, kw):
        if isinstance(o, list):
            m = getattr(self, "list_" + name, None)
        elif isinstance(o, dict):
            m = getattr(self, "dict_m_" + name, None)
        elif isinstance(o, (set, frozenset)):
            m = getattr(self, "set_" + name, None)
        elif isinstance(o, tuple):
            m = getattr(self, "tuple_" + name, None)
        elif isinstance(o, str):
            if name == "join":
                return symtext([y for x in self.present(self.items(args[0])) for y in (o, self.tostr(resolve(x)))][1:])
            if name == "format":
                args = [self.tostr(resolve(a)) if isinstance(resolve(a), SYM) else resolve(a) for a in args]
                kw = {k: self.tostr(resolve(a)) if isinstance(resolve(a), SYM) else resolve(a) for k, a in kw.items()}
                if any(isinstance(x, SymText) for x in list(args) + list(kw.values())):
                    return SymText("<sym>")
                try:
                    return o.format(*args, **kw)
                except ValueError:
                    return SymText("<sym>")
            m = None
        else:
            m = None
        if m is not None:
            return m(o, *args, **kw)
        args = [self.plain(a) for a in args]
        if isinstance(o, (list, dict, set)):
            self.plain(o)
            self.E.touch(o)
        elif isinstance(o, np.ndarray):
            if name == "copy":
                return self.E.fresh(o.copy())
            if name == "fill":
                self.E.touch(o)
            if name == "astype" and o.dtype == object:
                t = args[0] if args else kw.get("dtype")
                return self.E.fresh(self.loader.np_astype(o, t))
            m = self.loader.np_method(name) if o.dtype == object else None
            if m is not None:
                r = m(o, *args, **{k: self.plain(v) for k, v in kw.items()})
                for x in r if isinstance(r, tuple) else (r,):
                    if isinstance(x, (np.ndarray, list)):
                        self.E.fresh(x)
                return r
            if name == "tolist":
                return self.E.fresh(np.asarray(o).tolist())
        r = getattr(o, name)(*args, **kw)
        if isinstance(r, (list, dict, set, np.ndarray)):
            self.E.fresh(r)
        return r

    def list_append(self, l, v):
        self.E.touch(l)
        l.append(v)

    def list_extend(self, l, it):
        items = self.items(it)
        self.E.touch(l)
        l.extend(items)

    def list_insert(self, l, i, v):
        if isinstance(i, SYM):
            i = self.E.concretize(i)
        if i != 0 and any(isinstance(x, Opt) for x in l):
            self.plain(l)
        self.E.touch(l)
        l.insert(i, v)

    def list_copy(self, l):
        return self.E.fresh(list(l))

    def list_clear(self, l):
        self.E.touch(l)
        l.clear()

    def list_reverse(self, l):
        self.E.touch(l)
        l.reverse()

    def list_remove(self, l, v):
        conds = [AND(guard_of(x), self.truth(self.same_or_eq(val_of(x), v))) for x in l]
        if not bool(OR(conds)):
            raise ValueError("list.remove(x): x not in list")
        self.E.touch(l)
        out = []
        prev = False
        for x, c in zip(l, conds):
            rem = AND(c, NOT(prev))
            prev = OR(prev, c)
            g = AND(guard_of(x), NOT(rem))
            if g is not False:
                out.append(mkopt(g, val_of(x)))
        l[:] = out

    def list_pop(self, l, i=-1):
        if i == -1 and l and not isinstance(l[-1], Opt):
            self.E.touch(l)
            return l.pop()
        self.plain(l)
        if isinstance(i, SYM):
            i = self.E.concretize(i)
        self.E.touch(l)
        return l.pop(i)

    def list_index(self, l, v, *rest):
        if rest:
            return self.plain(l).index(v, *rest)
        pos = 0
        cases = []
        for x in l:
            c = AND(guard_of(x), self.truth(self.same_or_eq(val_of(x), v)))
            if c is not False:
                cases.append((c, pos))
            if c is True:
                break
            pos = pos + ITE(guard_of(x), 1, 0)
        if not bool(OR([c for c, _ in cases])):
            raise ValueError("%r is not in list" % (v,))
        r = cases[-1][1]
        for c, p in reversed(cases[:-1]):
            r = ITE(c, p, r)
        return r

    def list_count(self, l, v):
        return SUM([ITE(AND(guard_of(x), self.truth(self.same_or_eq(val_of(x), v))), 1, 0) for x in l])

    def list_sort(self, l, key=None, reverse=False):
        r = self.sorted_(l, key, reverse)
        self.E.touch(l)
        l[:] = r

    tuple_index = list_index
    tuple_count = list_count

    def sorted_(self, it, key=None, reverse=False):
        items = self.present(self.items(it))
        keys = [self.call(key, [x]) if key is not None else x for x in items]

        def thunk():
            out = []   # stable insertion sort
            for k, x in zip(keys, items):
                j = len(out)
                while j > 0:
                    if reverse:
                        lt = self.compare(ast.Lt(), out[j - 1][0], k)
                    else:
                        lt = self.compare(ast.Lt(), k, out[j - 1][0])
                    if not bool(self.truth(lt)):
                        break
                    j -= 1
                out.insert(j, (k, x))
            return ("v", self.E.fresh([x for _, x in out]))
        return self.E.region(thunk)[1]

    # dict methods
    def dict_m_get(self, d, k, default=None):
        kk = self.dict_find(d, k)
        if kk is MISSING:
            return default
        v = d[kk]
        if isinstance(v, Opt):
            return self.E.merge(v.g, v.v, default, {})
        return v

    def dict_m_keys(self, d):
        return self.items(d)

    def dict_m_values(self, d):
        return list(d.values())

    def dict_m_items(self, d):
        return [mkopt(guard_of(v), (k, val_of(v))) for k, v in d.items()]

    def dict_m_copy(self, d):
        if type(d) is not dict:
            c = d.__copy__() if hasattr(d, "__copy__") else type(d)()
            c.clear()
            dict.update(c, d)
            return self.E.fresh(c)
        return self.E.fresh(dict(d))

    def dict_m_clear(self, d):
        self.E.touch(d)
        d.clear()

    def dict_m_setdefault(self, d, k, default=None):
        if bool(self.truth(self.dict_has(d, k))):
            return self.dict_get(d, k)
        self.dict_set(d, k, default)
        return default

    def dict_m_most_common(self, d, n=None):
        items = self.sorted_(self.dict_m_items(d), key=operator.itemgetter(1), reverse=True)
        return items if n is None else self.E.fresh(items[:n])

    def dict_m_total(self, d):
        return SUM([ITE(guard_of(v), val_of(v), 0) for v in d.values()])

    def dict_m_subtract(self, d, other=None, **kw):
        self.counter_add(d, other, kw, -1)

    def counter_add(self, d, other, kw, sign=1):
        other = resolve(other)
        if other is None:
            pairs = []
        elif isinstance(other, dict):
            pairs = self.dict_m_items(other)
        else:
            pairs = [mkopt(guard_of(x), (val_of(x), 1)) for x in self.items(other)]
        for p in pairs + list(kw.items()):
            def one(p=p):
                if isinstance(p, Opt):
                    if not bool(p.g):
                        return NORMAL
                    p = p.v
                p = resolve(p)
                self.dict_set(d, p[0], self.binop(ast.Add(), self.dict_get(d, p[0]),
                                                  self.binop(ast.Mult(), sign, p[1])))
                return NORMAL
            self.E.region(one)

    def dict_m_update(self, d, other=None, **kw):
        if isinstance(d, collections.Counter):
            self.counter_add(d, other, kw)
            return
        if other is not None:
            other = resolve(other)
            pairs = self.dict_m_items(other) if isinstance(other, dict) else self.items(other)
            for p in pairs:
                def one(p=p):
                    if isinstance(p, Opt):
                        if not bool(p.g):
                            return NORMAL
                        p = p.v
                    p = resolve(p)
                    self.dict_set(d, p[0], p[1])
                    return NORMAL
                self.E.region(one)
        for k, v in kw.items():
            self.dict_set(d, k, v)

    def dict_m_pop(self, d, k, *default):
        kk = self.dict_find(d, k)
        if kk is MISSING or not bool(guard_of(d[kk])):
            if default:
                return default[0]
            raise KeyError(k)
        v = val_of(d[kk])
        self.E.touch(d)
        del d[kk]
        return v

    # set methods
    def set_copy(self, s):
        return self.E.fresh(set(s))

    def set_clear(self, s):
        self.E.touch(s)
        s.clear()

    def set_update(self, s, *its):
        for it in its:
            for e in self.items(it):
                self.set_add(s, e)

    def set_discard(self, s, v):
        v = self.skey(v)
        for e in list(s):
            x = val_of(e)
            if isinstance(v, SymNum) or isinstance(x, SymNum):
                c = self.truth(self.eq(x, v))
                if not bool(c):
                    continue
            elif not (hash(x) == hash(v) and x == v):
                continue
            self.E.touch(s)
            s.discard(e)
            return

    def set_remove(self, s, v):
        if not bool(self.truth(self.contains(s, v))):
            raise KeyError(v)
        self.set_discard(s, v)

    def set_pop(self, s):
        self.plain(s)
        if not s:
            raise KeyError("pop from an empty set")
        self.E.touch(s)
        return s.pop()

    def set_intersection(self, s, *its):
        m = self.setmap(s)
        for it in its:
            o = self.to_setmap(it)
            m = {v: AND(g, o[v]) for v, g in m.items() if v in o}
        return self.from_setmap(m)

    def set_union(self, s, *its):
        m = dict(self.setmap(s))
        for it in its:
            for v, g in self.to_setmap(it).items():
                m[v] = OR(m.get(v, False), g)
        return self.from_setmap(m)

    def set_difference(self, s, *its):
        m = self.setmap(s)
        for it in its:
            o = self.to_setmap(it)
            m = {v: AND(g, NOT(o.get(v, False))) for v, g in m.items()}
        return self.from_setmap(m)

    def set_symmetric_difference(self, s, it):
        m, o = self.setmap(s), self.to_setmap(it)
        return self.from_setmap({v: NOT(IFF(m.get(v, False), o.get(v, False))) for v in list(m) + [x for x in o if x not in m]})

    def _set_replace(self, s, new):
        self.E.touch(s)
        s.clear()
        s.update(new)

    def set_intersection_update(self, s, *its):
        self._set_replace(s, self.set_intersection(s, *its))

    def set_difference_update(self, s, *its):
        self._set_replace(s, self.set_difference(s, *its))

    def set_symmetric_difference_update(self, s, it):
        self._set_replace(s, self.set_symmetric_difference(s, it))

    def set_issubset(self, s, o):
        return self.compare(ast.LtE(), s, set(self.items(o)) if not isinstance(o, (set, frozenset)) else o)

    def set_issuperset(self, s, o):
        return self.compare(ast.GtE(), s, set(self.items(o)) if not isinstance(o, (set, frozenset)) else o)

    def set_isdisjoint(self, s, o):
        return NOT(self.truth(self.set_intersection(s, o)))

    # ================================================================== builtins
    def make_builtins(self):
        E = self.E

        def b_len(a, kw): return self.length(a[0])

        def b_sum(a, kw):
            start = a[1] if len(a) > 1 else kw.get("start", 0)
            r = start
            for x in self.items(a[0]):
                g = guard_of(x)
                v = resolve(val_of(x))
                if g is True:
                    r = self.binop(ast.Add(), r, v)
                elif isinstance(v, SYM + (bool, int, float, vals.Fraction, np.number, np.bool_)):
                    r = self.binop(ast.Add(), r, ITE(g, vals.num(v), 0))
                else:
                    r = E.region(lambda: ("v", self.binop(ast.Add(), r, v) if bool(g) else r))[1]
            return r

        def b_any(a, kw):
            return OR([AND(guard_of(x), self.truth(val_of(x))) for x in self.items(a[0])] or [False])

        def b_all(a, kw):
            return AND([OR(NOT(guard_of(x)), self.truth(val_of(x))) for x in self.items(a[0])] or [True])

        def minmax(is_min):
            def f(a, kw):
                key = kw.get("key")
                items = self.items(a[0]) if len(a) == 1 else [resolve(x) for x in a]
                if key is None and any(isinstance(x, Opt) for x in items) and all(
                        isinstance(resolve(val_of(x)), NUMBERS) for x in items):
                    have, r = False, None
                    for x in items:
                        g, x = guard_of(x), resolve(val_of(x))
                        if r is None:
                            have, r = g, x
                            continue
                        c = AND(g, OR(NOT(have), self.truth(
                            self.compare(ast.Lt() if is_min else ast.Gt(), x, r))))
                        have, r = OR(have, g), E.merge(c, x, r, {})
                    if "default" in kw and isinstance(resolve(kw["default"]), NUMBERS):
                        return E.merge(have, r, resolve(kw["default"]), {})
                    if bool(have):
                        return r
                items = self.present(items)
                if not items:
                    if "default" in kw:
                        return kw["default"]
                    raise ValueError("%s() arg is an empty sequence" % ("min" if is_min else "max"))
                r = items[0]
                kr = self.call(key, [r]) if key else r
                for x in items[1:]:
                    kx = self.call(key, [x]) if key else x
                    c = self.truth(self.compare(ast.Lt() if is_min else ast.Gt(), kx, kr))
                    if isinstance(c, SymBool):
                        r = E.merge(c, x, r, {})
                        kr = E.merge(c, kx, kr, {})
                    elif c:
                        r, kr = x, kx
                return r
            return f

        def b_counter(a, kw):
            c = E.fresh(collections.Counter())
            self.counter_add(c, a[0] if a else None, kw)
            return c

        def b_range(a, kw):
            a = [resolve(x) for x in a]
            if len(a) <= 2 and isinstance(a[-1], SymNum) and a[-1].ub is not None and \
                    not isinstance(a[0] if len(a) == 2 else 0, SYM):
                lo = a[0] if len(a) == 2 else 0
                return [mkopt(a[-1] > i, i) for i in range(lo, a[-1].ub) if (a[-1] > i) is not False]
            a = [E.concretize(x) if isinstance(x, SYM) else x for x in a]
            return range(*a)

        def b_enumerate(a, kw):
            start = a[1] if len(a) > 1 else kw.get("start", 0)
            out = []
            pos = start
            for x in self.items(a[0]):
                g = guard_of(x)
                out.append(mkopt(g, (pos, val_of(x))))
                pos = pos + ITE(g, 1, 0)
            return out

        def b_zip(a, kw):
            lists = [self.items(x) for x in a]
            if any(isinstance(y, Opt) for l in lists for y in l):
                if len(lists) > 1 and all(len(l) == len(lists[0]) for l in lists) and all(
                        all(guard_of(x) is True and guard_of(y) is True or
                            (isinstance(x, Opt) and isinstance(y, Opt) and x.g.z.eq(y.g.z)) for x, y in zip(lists[0], l))
                        for l in lists[1:]):
                    return [mkopt(guard_of(t[0]), tuple(val_of(y) for y in t)) for t in zip(*lists)]
                lists = [self.present(l) for l in lists]
            return [tuple(t) for t in zip(*lists)]

        def b_map(a, kw):
            if len(a) == 2:
                return [mkopt(guard_of(x), self.call(a[0], [val_of(x)])) for x in self.items(a[1])]
            return [self.call(a[0], list(t)) for t in zip(*[self.present(self.items(x)) for x in a[1:]])]

        def lazily(f):
            return lambda a, kw: self.iterator(f(a, kw))

        def enumerate_(a, kw):
            o = resolve(a[0])
            live = (o, a[1] if len(a) > 1 else kw.get("start", 0)) if type(o) is list else None
            return self.iterator(b_enumerate(a, kw), live)

        def b_filter(a, kw):
            out = []
            for x in self.items(a[1]):
                v = val_of(x)
                t = self.truth(v if a[0] is None else self.call(a[0], [v]))
                g = AND(guard_of(x), t)
                if g is not False:
                    out.append(mkopt(g, v))
            return out

        def b_reversed(a, kw):
            return list(reversed(self.items(a[0])))

        def b_list(a, kw):
            return E.fresh(list(self.items(a[0])) if a else [])

        def b_tuple(a, kw):
            if not a:
                return ()
            items = self.items(a[0])
            if any(isinstance(x, Opt) for x in items):
                items = self.present(items)
            return tuple(items)

        def b_set(a, kw):
            return self.from_setmap(self.to_setmap(a[0])) if a else E.fresh(set())

        def b_frozenset(a, kw):
            return frozenset(self.from_setmap(self.to_setmap(a[0]))) if a else frozenset()

        def b_dict(a, kw):
            d = E.fresh({})
            self.dict_m_update(d, a[0] if a else None, **kw)
            return d

        def b_isinstance(a, kw):
            v, t = a
            if isinstance(v, Phi):
                return ITE(v.c, b_isinstance([v.a, t], {}), b_isinstance([v.b, t], {}))
            if isinstance(v, SYM):
                sample = True if isinstance(v, SymBool) else (1 if v.isint else 1.0)
                if isinstance(sample, bool):
                    return isinstance(sample, t) or isinstance(np.bool_(True), t)
                return isinstance(sample, t) or isinstance(np.int64(1) if v.isint else np.float64(1), t)
            if isinstance(v, vals.Fraction):
                return isinstance(1.0, t) or isinstance(v, t)
            return isinstance(v, t)

        def b_type(a, kw):
            if len(a) != 1:
                return type(*a)
            v = resolve(a[0])
            if isinstance(v, SymBool):
                return bool
            if isinstance(v, SymNum):
                return int if v.isint else float
            return type(v)

        def b_abs(a, kw):
            return abs(resolve(a[0]))

        def b_int(a, kw):
            v = resolve(a[0]) if a else 0
            if isinstance(v, SYM):
                return vals.trunc(v)
            return int(v, *a[1:], **kw)

        def b_float(a, kw):
            v = resolve(a[0]) if a else 0.0
            if isinstance(v, SYM):
                return vals.to_float(v)
            if isinstance(v, vals.Fraction):
                return v
            return float(v)

        def b_bool(a, kw):
            return self.truth(a[0]) if a else False

        def b_round(a, kw):
            v = resolve(a[0])
            if isinstance(v, SYM):
                return round(v, *a[1:])
            return round(v, *a[1:], **kw)

        def b_hasattr(a, kw):
            o = resolve(a[0])
            v = getattr(o, a[1], MISSING)
            if type(v) is Phi:
                v = self.drop_missing(v)
            return v is not MISSING

        def b_getattr(a, kw):
            o = resolve(a[0])
            try:
                return self.getattr(o, a[1])
            except AttributeError:
                if len(a) > 2:
                    return a[2]
                raise

        def b_setattr(a, kw):
            self.setattr(resolve(a[0]), a[1], a[2])

        def b_str(a, kw):
            return self.tostr(resolve(a[0])) if a else ""

        def b_repr(a, kw):
            v = resolve(a[0])
            return SymText("<sym>") if isinstance(v, SYM) or contains_marker(v) else repr(v)

        def b_callable(a, kw): return callable(resolve(a[0]))

        def b_print(a, kw): return None

        def b_divmod(a, kw):
            x, y = resolve(a[0]), resolve(a[1])
            return (self.binop(ast.FloorDiv(), x, y), self.binop(ast.Mod(), x, y))

        def b_pow(a, kw):
            return self.binop(ast.Pow(), a[0], a[1]) if len(a) == 2 else pow(*a)

        def b_next(a, kw):
            it = resolve(a[0])
            if type(it) is VMIter:
                E.touch(it.buf)
                it.live = None
                while it.buf:
                    x = it.buf.pop(0)
                    if bool(guard_of(x)):
                        return val_of(x)
                if len(a) > 1:
                    return a[1]
                raise StopIteration
            if isinstance(it, (list, tuple, dict, set)):
                raise TypeError("object is not an iterator")
            return next(*a)

        def b_iter(a, kw):
            v = resolve(a[0])
            return v if type(v) is VMIter else self.iterator(self.items(v))

        def b_super(a, kw):
            return super(*a)

        def b_deepcopy(a, kw):
            import copy
            r = copy.deepcopy(self.plain(a[0]))
            return r

        import copy as _copy
        m = {len: b_len, sum: b_sum, any: b_any, all: b_all, min: minmax(True), max: minmax(False),
             sorted: lambda a, kw: self.sorted_(a[0], kw.get("key"), kw.get("reverse", False)),
             collections.Counter: b_counter, range: b_range, enumerate: enumerate_, zip: lazily(b_zip), map: lazily(b_map), filter: lazily(b_filter),
             reversed: lazily(b_reversed), list: b_list, tuple: b_tuple, set: b_set, frozenset: b_frozenset,
             dict: b_dict, isinstance: b_isinstance, type: b_type, abs: b_abs, int: b_int, float: b_float,
             bool: b_bool, round: b_round, hasattr: b_hasattr, getattr: b_getattr, setattr: b_setattr,
             str: b_str, repr: b_repr, callable: b_callable, print: b_print, divmod: b_divmod, pow: b_pow,
             next: b_next, iter: b_iter, super: b_super,
             operator.lt: lambda a, kw: self.compare(ast.Lt(), *a),
             operator.le: lambda a, kw: self.compare(ast.LtE(), *a),
             operator.gt: lambda a, kw: self.compare(ast.Gt(), *a),
             operator.ge: lambda a, kw: self.compare(ast.GtE(), *a),
             operator.eq: lambda a, kw: self.compare(ast.Eq(), *a),
             math.floor: lambda a, kw: vals.floor_(resolve(a[0])),
             math.ceil: lambda a, kw: -vals.floor_(-resolve(a[0])) if isinstance(resolve(a[0]), SYM) else math.ceil(resolve(a[0])),
             math.sqrt: lambda a, kw: vals.sqrt_(resolve(a[0])) if not isinstance(resolve(a[0]), (int, float)) else math.sqrt(resolve(a[0])),
             math.fabs: lambda a, kw: abs(resolve(a[0])),
             math.trunc: lambda a, kw: vals.trunc(resolve(a[0])),
             math.isclose: self.isclose,
             math.isinf: lambda a, kw: False if isinstance(resolve(a[0]), SYM) else math.isinf(resolve(a[0])),
             math.isnan: lambda a, kw: False if isinstance(resolve(a[0]), SYM) else math.isnan(resolve(a[0])),
             math.fsum: b_sum,
             functools.reduce: self.reduce_,
             }
        return m

    def isclose(self, a, kw):
        x, y = resolve(a[0]), resolve(a[1])
        rel = kw.get("rel_tol", 1e-9)
        ab = kw.get("abs_tol", 0.0)
        if not isinstance(x, SYM) and not isinstance(y, SYM):
            return math.isclose(x, y, **kw)
        d = abs(x - y)
        return OR(d <= rel * abs(x), d <= rel * abs(y), d <= ab)

    def reduce_(self, a, kw):
        items = self.present(self.items(a[1]))
        if len(a) > 2:
            r = a[2]
        else:
            if not items:
                raise TypeError("reduce() of empty iterable with no initial value")
            r = items.pop(0)
        for x in items:
            r = self.call(a[0], [r, x])
        return r
