"""Harness API and exploration driver.

A scenario is a function h(vm) that builds inputs from named variables, runs
code of /repo through vm.call and states obligations with vm.check.  The same
scenario runs in three modes:

  interp  inputs are symbolic; code runs in the AST interpreter, decision
          paths are merged, obligations are decided by the solver
  fork    as above, but the code runs in CPython on symbolic objects and every
          decision forks the path (fallback for code the interpreter lacks)
  conc    inputs are concrete values (a solver model); the real code runs in
          CPython.  Used to replay counterexamples and to validate witnesses.
"""
import collections.abc
import contextlib
import io
import math
import time as _time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import vals, engine as eng, interp as itp, loader as ldr
from .vals import (SymBool, SymNum, SYM, Opt, Phi, AND, OR, NOT, ITE, EQ, IFF, IMPLIES, SUM,
                   guard_of, val_of, resolve, mkopt)
from .engine import Control, Infeasible, Unsupported, Budget


def fname(fn):
    n = getattr(fn, "__qualname__", None) or getattr(getattr(fn, "__func__", None), "__qualname__", None)
    return n if n is not None else type(fn).__name__


class CheckFailed(Exception):
    pass


class Stop(Exception):
    """A conc replay has shown the violation."""


class Env:
    """What the stubs see as _ENV."""

    def __init__(self, vm):
        self.vm = vm
        self.n = {}

    def count(self, what):
        E = self.vm.E
        if E is not None:
            E.touch(self.n)
        k = self.n.get(what, 0)
        if isinstance(k, Opt):
            k = k.v if bool(k.g) else 0
        k = vals.conc(resolve(k))
        self.n[what] = k + 1
        return k

    def clock(self):
        h = self.vm.hooks.get("clock")
        return h() if h else 0.0

    def draw_int(self, a, b):
        k = self.count("draw")
        a, b = vals.conc(resolve(a)), vals.conc(resolve(b))
        if b < a:
            raise ValueError("empty range for randrange()")
        h = self.vm.hooks.get("draw_int")
        if h:
            return h(k, a, b)
        if a == b:
            return a
        v = self.vm.int_in("draw!%d" % k, a, b)
        return self.vm.concrete(v)

    def pick(self, seq):
        seq = list(seq)
        if not seq:
            raise IndexError("Cannot choose from an empty sequence")
        h = self.vm.hooks.get("pick")
        if h:
            return h(seq)
        return seq[self.draw_int(0, len(seq) - 1)]

    def draw_real(self):
        k = self.count("drawr")
        return self.vm.real_in("drawr!%d" % k, 0, 1, hi_open=True)

    def mp_solve(self, solver):
        h = self.vm.hooks.get("mp_solve")
        if h is None:
            raise Unsupported("unexpected Solve() of an MP model")
        return h(solver)

    def cp_solve(self, solver, model, callback):
        h = self.vm.hooks.get("cp_solve")
        if h is None:
            raise Unsupported("unexpected Solve() of a CP model")
        return h(solver, model, callback)

    @staticmethod
    def merge_linear(c, a, b, cls, var):
        """ite(c, a, b) of immutable linear expressions, variables and numbers,
        at least one of them an expression made by arithmetic"""
        num = SYM + (bool, int, float, Fraction)

        def parts(v):
            if type(v) is cls:
                return v.__dict__["coefs"], v.__dict__["const"]
            if type(v) is var:
                return {v.__dict__["_index"]: 1}, 0
            if isinstance(v, num):
                return {}, v
            return None
        if type(a) is not cls and type(b) is not cls:
            return NotImplemented
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None:
            return NotImplemented
        (ca, ka), (cb, kb) = pa, pb
        if not isinstance(ca, dict) or not isinstance(cb, dict) or \
                not all(isinstance(v, num) for v in list(ca.values()) + list(cb.values()) + [ka, kb]):
            return NotImplemented
        coefs = {}
        for k in list(ca) + [k for k in cb if k not in ca]:
            x, y = ca.get(k, 0), cb.get(k, 0)
            coefs[k] = x if eng.same(x, y) else vals.ITE(c, x, y)
        return cls(coefs, ka if eng.same(ka, kb) else vals.ITE(c, ka, kb))

    def unsupported(self, what):
        raise Unsupported("stub: " + what)

    def missing(self, cls, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("stub %s has no %s" % (cls, name))

    def sat_default(self, name):
        """the default of a CP-SAT parameter, from the real message"""
        from ortools.sat import sat_parameters_pb2
        f = sat_parameters_pb2.SatParameters.DESCRIPTOR.fields_by_name.get(name)
        if f is None or f.label == f.LABEL_REPEATED:
            return self.missing("_Params", name)
        return f.default_value

    @staticmethod
    def is_whole(x):
        return not isinstance(x, SYM) and float(x).is_integer()

    def seen_check(self, what):
        self.count(what)

    @staticmethod
    def checked(X, kw):
        """the checked input, converted when a type is asked for"""
        t = kw.get("dtype")
        t = t[0] if isinstance(t, (list, tuple)) and t else t
        if vals.kind_of(t) is None:
            return X
        from . import npstub
        return npstub.astype(X, t)

    @staticmethod
    def _flat(y):
        return [resolve(v) for v in np.asarray(y, dtype=object).ravel()]

    def unique_labels(self, *ys):
        out = set()
        for y in ys:
            for v in self._flat(y):
                v = vals.conc(v)
                out.add(v)
        return np.array(sorted(out))

    def encode_labels(self, classes, y):
        out = []
        for v in self._flat(y):
            v = vals.conc(v)
            k = [i for i, c in enumerate(classes) if c == v]
            if not k:
                raise ValueError("y contains previously unseen labels")
            out.append(k[0])
        return np.array(out)

    def decode_labels(self, classes, y):
        out = np.empty(len(y), dtype=object)
        n = len(classes)
        if getattr(resolve(y), "_kind", None) in ("f", "f4", "b"):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        for i, v in enumerate(self._flat(y)):
            if not bool(AND(v >= 0, v < n)):
                raise ValueError("y contains previously unseen labels")
            if isinstance(v, SYM) and not isinstance(classes[0], str):
                r = classes[n - 1].item() if hasattr(classes[n - 1], "item") else classes[n - 1]
                for j in range(n - 2, -1, -1):
                    c = classes[j].item() if hasattr(classes[j], "item") else classes[j]
                    r = ITE(EQ(v, j), c, r)
                out[i] = r
            else:
                out[i] = classes[vals.conc(v)]
        return vals.SymArr(out)

    def shallow_copy(self, x):
        import copy
        r = copy.copy(x)
        if self.vm.E is not None:
            self.vm.E.fresh(r)
        return r

    def deep_copy(self, x):
        import copy
        r = copy.deepcopy(x)
        return r


class VM:
    def __init__(self, mode, loader, assignment=None, exact=False):
        self.mode = mode
        self.sym = mode != "conc"
        self.loader = loader
        self.E = None
        self.I = None
        self.assignment = assignment or {}
        self.exact = exact
        self.hooks = {}
        self.pending = []          # (z3 condition, message, length of the path condition it holds under)
        self.failures = []         # conc: messages
        self.observed = []         # (label, value)
        self.env = Env(self)
        self.modules = None
        self.used = {}
        self.nchecks = 0
        self.bounds = {}
        self.notes = []

    # ------------------------------------------------------------- modules
    @property
    def bdr(self): return self.modules.sut("col_gen_estimator._bdr_classifier")

    @property
    def cg(self): return self.modules.sut("col_gen_estimator._col_gen_classifier")

    @property
    def dt(self): return self.modules.sut("col_gen_estimator._dtree_classifier")

    @property
    def tuner(self): return self.modules.sut("col_gen_estimator._parameter_tuner")

    @property
    def exp(self): return self.modules.sut("examples.dtree_experiment")

    @property
    def pywraplp(self): return self.modules.stub("pywraplp")

    @property
    def cp_model(self): return self.modules.stub("cp_model")

    # ------------------------------------------------------------ variables
    def _conc(self, name, default):
        v = self.assignment.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, default=0.0):
        if self.sym:
            return self.E.real(name)
        v = self._conc(name, default)
        if isinstance(v, Fraction) and not self.exact:
            v = float(v)
        return v

    def int(self, name, default=0):
        if self.sym:
            return self.E.int(name)
        return int(self._conc(name, default))

    def bool(self, name, default=False):
        if self.sym:
            return self.E.boolean(name)
        return bool(self._conc(name, default))

    def bit(self, name):
        """0/1 integer."""
        if self.sym:
            return vals.num(self.E.boolean(name))
        return int(bool(self._conc(name, False)))

    def int_in(self, name, lo, hi):
        v = self.int(name, lo)
        if self.sym:
            self.bound(AND(v >= lo, v <= hi))
        else:
            v = min(max(v, lo), hi)
        return v

    def real_in(self, name, lo=None, hi=None, hi_open=False):
        v = self.real(name, float(lo or 0))
        if self.sym:
            if lo is not None:
                self.bound(v >= lo)
            if hi is not None:
                self.bound(v < hi if hi_open else v <= hi)
        return v

    def one_of(self, name, values):
        """A symbolic choice among Python objects, as a fork."""
        k = self.concrete(self.int_in(name, 0, len(values) - 1))
        return values[k]

    def concrete(self, v):
        v = resolve(v)
        return vals.conc(v) if isinstance(v, SYM) else v

    def array(self, rows, dtype=float):
        if self.sym:
            return vals.SymArr(np.array(rows, dtype=object))
        if self.exact:
            return np.array(rows, dtype=object)
        return np.array(rows, dtype=dtype)

    def fork(self, cond):
        """Decide cond on this path."""
        return bool(cond)

    # ------------------------------------------------------------ statements
    def bound(self, c):
        if self.sym:
            self.E.assume(c, False)
        elif not bool(c):
            raise Infeasible()

    def assume(self, c):
        if self.sym:
            self.E.assume(c)
        elif not bool(c):
            raise Infeasible()

    def check(self, cond, msg):
        self.nchecks += 1
        if isinstance(cond, Phi):
            cond = cond.resolve()
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        if self.sym:
            if cond is True:
                return
            z = vals.tobool(cond)
            inner = [c for f in self.E.frames[1:] for c in f.pc]
            if inner:
                z = z3.Implies(z3.And(inner), z)
            self.pending.append((z, msg, len(self.E.frames[0].pc)))
        elif not bool(cond):
            self.failures.append(msg)

    def eq(self, a, b):
        """Equality of numbers (tolerant when replaying in floating point)."""
        a, b = resolve(a), resolve(b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or (not isinstance(a, SYM) and not isinstance(b, SYM) and a == b)
        if self.sym:
            if vals._isinf(a) or vals._isinf(b):
                return (not isinstance(a, SYM)) and (not isinstance(b, SYM)) and a == b
            return EQ(a, b)
        if a == b:
            return True
        try:
            if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
                return False
        except (TypeError, OverflowError):
            return False
        if self.exact and isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return False
        return abs(float(a) - float(b)) <= 1e-7 * max(1.0, abs(float(a)), abs(float(b)))

    def le(self, a, b):
        if self.sym:
            return a <= b
        return a <= b or self.eq(a, b)

    def observe(self, label, value):
        self.observed.append((label, value))

    # ------------------------------------------------------------------ calls
    def split(self, fn, *args, **kw):
        """As call, but every decision forks the path (no merging)."""
        if self.E is None:
            return self.call(fn, *args, **kw)
        old = self.E.noregion
        self.E.noregion = True
        try:
            return self.call(fn, *args, **kw)
        finally:
            self.E.noregion = old

    def call(self, fn, *args, **kw):
        """Run code under test; an exception it raises propagates as SutError."""
        try:
            r = self._call(fn, args, kw)
        except Control:
            raise
        except CheckFailed:
            raise
        except SutError:
            raise
        except Exception as e:
            raise SutError(fn, e)
        self.observed.append((fname(fn), r))
        return r

    def attempt(self, fn, *args, **kw):
        """(result, exception) of code that may legitimately raise."""
        try:
            r = self._call(fn, args, kw)
        except Control:
            raise
        except Exception as e:
            self.observed.append((fname(fn), type(e).__name__))
            return None, e
        self.observed.append((fname(fn), r))
        return r, None

    def attempt_split(self, fn, *args, **kw):
        """attempt without merging."""
        if self.E is None:
            return self.attempt(fn, *args, **kw)
        old = self.E.noregion
        self.E.noregion = True
        try:
            return self.attempt(fn, *args, **kw)
        finally:
            self.E.noregion = old

    def _call(self, fn, args, kw):
        if self.mode == "interp":
            return self.E.region(lambda: ("return", self.I.call(fn, list(args), kw)))[1]
        if self.mode == "fork":
            return fn(*args, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*args, **kw)

    def items(self, v):
        """[(guard, value)] of a list, tuple, set or dict (keys)."""
        v = self.listed(v)
        if isinstance(v, dict):
            return [(guard_of(x), k) for k, x in v.items()]
        if isinstance(v, (set, frozenset)):
            out = [(guard_of(x), val_of(x)) for x in v]
            try:
                out.sort(key=lambda t: t[1])
            except Exception:
                pass
            return out
        return [(guard_of(x), val_of(x)) for x in v]

    def listed(self, v):
        """v, or the elements of v if it is an iterator."""
        v = resolve(v)
        if self.mode == "interp" and type(v).__name__ == "VMIter":
            return self.I.items(v)
        if isinstance(v, collections.abc.Iterator):
            return list(v)
        return v

    def dict_items(self, d):
        d = resolve(d)
        return [(guard_of(x), k, val_of(x)) for k, x in d.items()]

    def plain(self, v):
        """v as plain Python containers (decides conditional elements)."""
        v = self.listed(v)
        if isinstance(v, list):
            return [self.plain(val_of(x)) for x in v if bool(guard_of(x))]
        if isinstance(v, tuple):
            return tuple(self.plain(val_of(x)) for x in v if bool(guard_of(x)))
        if isinstance(v, (set, frozenset)):
            return {val_of(x) for x in v if bool(guard_of(x))}
        if isinstance(v, dict):
            return {k: self.plain(val_of(x)) for k, x in v.items() if bool(guard_of(x))}
        return v

    def length(self, v):
        if self.mode == "interp":
            return self.I.length(self.listed(v))
        return len(self.listed(v))

    def member(self, v, x):
        """x in v, for a list or set of numbers."""
        return OR([AND(g, EQ(e, x) if isinstance(e, SYM) or isinstance(x, SYM) else e == x)
                   for g, e in self.items(v)] or [False])


class SutError(Exception):
    def __init__(self, fn, exc):
        self.fn = fn
        self.exc = exc
        name = fname(fn)
        super().__init__("%s raised %s: %s" % (name, type(exc).__name__, exc))


# ---------------------------------------------------------------- exploration
def run_path(scenario, loader, E, mode, prefix):
    """One root path.  Returns (vm, frame, status, payload)."""
    E.solver = z3.Solver()
    E.frames = [eng.Frame("root", prefix)]
    E.vars = {}
    E._sqrt = {}
    E._struct = {}
    E.activate()
    vm = VM(mode, loader)
    vm.E = E
    vm.modules = loader.fresh(vm.env, True)
    vm.I = itp.Interp(E, loader)
    status, payload = "done", None
    try:
        scenario(vm)
    except Infeasible:
        status = "infeasible"
    except SutError as e:
        status, payload = "exc", e
    f = E.frames[0]
    return vm, f, status, payload


def next_prefix(trail):
    trail = list(trail)
    while trail and not (trail[-1][1] and trail[-1][0]):
        trail.pop()
    if not trail:
        return None
    last = trail.pop()
    return trail + [(False, False) + tuple(last[2:])]


def model_assignment(E, m):
    out = {}
    for n, z in E.vars.items():
        v = m.eval(z, model_completion=True)
        if z3.is_bool(z):
            out[n] = z3.is_true(v)
        elif z3.is_int_value(v):
            out[n] = v.as_long()
        elif z3.is_rational_value(v):
            out[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        elif z3.is_algebraic_value(v):
            a = v.approx(30)
            out[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
        else:
            out[n] = 0
    return out


def replay(scenario, loader, assignment, exact=False):
    """Run the scenario natively on concrete values.
    Returns (failures, vm); failures is a list of messages."""
    saved = vals.ENGINE
    vm = VM("conc", loader, assignment, exact)
    vm.modules = loader.fresh(vm.env, False, exact)
    vals.ENGINE = None
    try:
        with np.errstate(all="ignore"):
            scenario(vm)
    except Infeasible:
        # what failed before the assumption did
        return vm.failures or None, vm
    except SutError as e:
        vm.failures.append("unexpected exception: %s" % e)
    finally:
        vals.ENGINE = saved
    return vm.failures, vm


def soft_models(E, pc_extra):
    """Models of the path condition, small round numbers preferred."""
    reals = [z for z in E.vars.values() if z3.is_real(z)]
    ints = [z for z in E.vars.values() if z3.is_int(z)]
    nice = [z3.And([z3.And(z3.ToReal(z3.ToInt(z * 8)) == z * 8, z <= 64, z >= -64) for z in reals[:40]])] if reals else []
    for extra in ([nice] if nice else []) + [[]]:
        r, m = E.sat(*pc_extra, *extra, timeout=4000 if extra else None, want_model=True)
        if r == z3.sat:
            yield m


def find_conditions(v, out, depth=4):
    if len(out) > 40:
        return
    if isinstance(v, Phi):
        out.append(v.c)
        find_conditions(v.a, out, depth - 1)
        find_conditions(v.b, out, depth - 1)
    elif isinstance(v, SymBool):
        out.append(v)
    elif isinstance(v, SymNum):
        out.append(v == 0)
    elif depth > 0 and isinstance(v, (list, tuple, set)):
        for x in list(v)[:8]:
            if isinstance(x, Opt):
                out.append(x.g)
            find_conditions(val_of(x), out, depth - 1)
    elif depth > 0 and isinstance(v, dict):
        for x in list(v.values())[:8]:
            if isinstance(x, Opt):
                out.append(x.g)
            find_conditions(val_of(x), out, depth - 1)


def diverse_models(E, vm, k):
    """Up to k models of the path that differ in what the code returned."""
    first = None
    for m in soft_models(E, []):
        first = m
        break
    if first is None:
        return
    yield first
    conds = []
    for _, v in vm.observed:
        find_conditions(v, conds)
    models = [first]
    seen = set()
    for c in conds:
        if len(models) >= k:
            return
        if not isinstance(c, SymBool) or c.z.get_id() in seen:
            continue
        seen.add(c.z.get_id())
        vs = {z3.is_true(m.eval(c.z, model_completion=True)) for m in models}
        if len(vs) == 2:
            continue
        want = z3.Not(c.z) if True in vs else c.z
        r, m = E.sat(want, timeout=3000, want_model=True)
        if r == z3.sat:
            models.append(m)
            yield m


def digest(v, ev, depth=5, seen=None):
    """A comparable, concrete picture of a value under a model."""
    while True:
        if isinstance(v, Phi):
            v = v.a if ev(v.c) else v.b
        else:
            break
    if isinstance(v, SYM):
        return num_(ev(v))
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, (bool, int, float, Fraction, np.number, np.bool_)):
        return num_(v)
    if depth == 0:
        return "..."
    if isinstance(v, np.ndarray):
        return [digest(x, ev, depth - 1) for x in v]
    if isinstance(v, (list, tuple)):
        return [digest(val_of(x), ev, depth - 1) for x in v if guard_of(x) is True or ev(guard_of(x))]
    if isinstance(v, (set, frozenset)):
        l = [digest(val_of(x), ev, depth - 1) for x in v if guard_of(x) is True or ev(guard_of(x))]
        return ["set"] + sorted(l, key=repr)
    if isinstance(v, dict):
        out = []
        for k, x in v.items():
            if guard_of(x) is True or ev(guard_of(x)):
                out.append((repr(digest(k, ev, 2)), digest(val_of(x), ev, depth - 1)))
        return dict(out)
    mod = getattr(type(v), "__module__", "")
    if mod.startswith("col_gen_estimator") or mod.startswith("examples"):
        return [type(v).__name__] + sorted(
            (k, digest(x, ev, depth - 1)) for k, x in list(vars(v).items())
            if not k.startswith("__") and digestible(x) and (not isinstance(x, Phi) or True))
    return type(v).__name__


def digestible(x):
    return not callable(x) or isinstance(x, Phi)


def num_(v):
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    f = float(v)
    return f


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return a == b


class Result:
    def __init__(self, name):
        self.name = name
        self.mode = None
        self.paths = 0
        self.infeasible = 0
        self.checks = 0
        self.violations = []       # dicts
        self.unconfirmed = []
        self.unknown = []
        self.witnesses = 0
        self.mismatches = []
        self.complete = False
        self.error = None
        self.time = 0.0
        self.stats = None
        self.functions = {}
        self.sample = None
        self.merges = 0
        self.region_paths = 0


def explore(scenario, name, budget=60.0, mode="interp", max_witness=6, max_viol=3, loader=None,
            query_timeout=60000, verbose=False):
    loader = loader or ldr.Loader()
    E = eng.Engine(query_timeout)
    t0 = _time.time()
    E.deadline = t0 + budget
    res = Result(name)
    res.mode = mode
    prefix = []
    funcs = {}
    cache = {}
    try:
        while prefix is not None:
            E.check_deadline()
            vm, f, status, payload = run_path(scenario, loader, E, mode, prefix)
            for k, n in vm.I.sut_functions.items():
                funcs[k] = funcs.get(k, 0) + n
            if status == "infeasible":
                res.infeasible += 1
                discharge(scenario, loader, E, vm, res, verbose, True, cache)
            else:
                handle_leaf(scenario, loader, E, vm, status, payload, res, max_witness, verbose, cache)
            res.paths += status != "infeasible"
            prefix = next_prefix(f.trail)
            if len(res.violations) >= max_viol:
                break
        else:
            res.complete = True
    except Budget as e:
        res.error = "budget: %s" % e
    except Unsupported as e:
        res.error = "unsupported: %s" % e
        if verbose:
            traceback.print_exc()
    except RecursionError as e:
        res.error = "unsupported: recursion"
    except z3.Z3Exception as e:
        res.error = "unsupported: z3 %s" % e
        if verbose:
            traceback.print_exc()
    except Exception as e:
        # raised inside the interpreter or harness
        res.error = "internal: %s: %s" % (type(e).__name__, e)
        res.traceback = traceback.format_exc()
        if verbose:
            traceback.print_exc()
    res.time = _time.time() - t0
    s = E.stats
    res.stats = {"queries": s.queries, "solver_time": s.solver_time, "regions": s.regions,
                 "region_paths": s.region_paths, "merges": s.merges, "decisions": s.decisions,
                 "unknown": s.unknown}
    res.functions = funcs
    return res


def discharge(scenario, loader, E, vm, res, verbose, dead, cache):
    """Decide the pending obligations, each under the assumptions made before it.
    Returns False when enough violations are known."""
    root = E.frames[0]
    last = max(root.cuts, default=-1)
    groups = {}
    for c, msg, at in vm.pending:
        groups.setdefault(at if dead or at <= last else None, []).append((c, msg))
    full = E.solver
    for at, obs in groups.items():
        if at is not None:
            key = (tuple(z.get_id() for z in root.pc[:at]), tuple(c.get_id() for c, _ in obs))
            if key in cache:
                continue
            cache[key] = (list(root.pc[:at]), obs)      # keeps the ids in use
            E.solver = z3.Solver()
            for z in root.pc[:at]:
                E.solver.add(z)
        try:
            # one query for all, then pinpoint
            if E.sat(z3.Not(z3.And([c for c, _ in obs]))) == z3.unsat:
                continue
            for c, msg in obs:
                r = E.sat(z3.Not(c))
                if r == z3.unsat:
                    continue
                if r == z3.unknown:
                    res.unknown.append(msg)
                    continue
                confirm(scenario, loader, E, [z3.Not(c)], msg, res, verbose)
                if len(res.violations) >= 3:
                    return False
        finally:
            E.solver = full
    return True


def handle_leaf(scenario, loader, E, vm, status, payload, res, max_witness, verbose, cache):
    res.checks += vm.nchecks
    if not discharge(scenario, loader, E, vm, res, verbose, status == "exc", cache):
        return
    if status == "exc":
        if not E.feasible():
            return
        confirm(scenario, loader, E, [], "unexpected exception: %s" % payload, res, verbose)
        return
    if res.witnesses < max_witness and not res.violations:
        for m in diverse_models(E, vm, max_witness - res.witnesses if res.paths else min(3, max_witness)):
            witness(scenario, loader, E, vm, m, res, verbose)


def replays(scenario, loader, asg, verbose=False):
    """Native runs on the assignment, in floats and in exact fractions.
    Returns (failures or None, exact, [(failures, vm) or None per run], why)."""
    runs = []
    why = None
    for exact in (False, True):
        try:
            runs.append(replay(scenario, loader, asg, exact))
        except Unsupported:
            raise
        except Exception as e:
            if verbose:
                traceback.print_exc()
            why = "harness: %s: %s" % (type(e).__name__, e)
            runs.append(None)
    f1, f2 = (r[0] if r else None for r in runs)
    if f2 and any(not f.startswith("unexpected exception") for f in f2):
        return f2, True, runs, None
    if f1 and (f2 or runs[1] is None):
        # a failure in floats alone may be rounding, which is not claimed
        return f1, False, runs, None
    if why is None:
        why = "not reproduced" if (f1 is not None or f2 is not None) else "assumption fails on replay"
    return None, None, runs, why


def confirm(scenario, loader, E, extra, msg, res, verbose):
    last = "no model"
    for m in soft_models(E, extra):
        asg = model_assignment(E, m)
        fails, exact, _, last = replays(scenario, loader, asg, verbose)
        if fails:
            res.violations.append({"scenario": res.name, "obligation": msg, "observed": fails[:5],
                                   "assignment": {k: str(v) for k, v in asg.items()},
                                   "exact": exact})
            return True
        if verbose:
            print("UNCONFIRMED", msg, last, {k: str(v) for k, v in asg.items()})
    res.unconfirmed.append({"scenario": res.name, "obligation": msg, "why": last})
    return False


def witness(scenario, loader, E, vm, m, res, verbose):
    asg = model_assignment(E, m)

    def ev(s):
        v = m.eval(s.z, model_completion=True)
        if isinstance(s, SymBool):
            return z3.is_true(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        raise Unsupported("cannot evaluate witness")
    try:
        want = [(l, digest(v, ev)) for l, v in vm.observed]
    except Unsupported:
        return
    ok = False
    fails, exact, runs, why = replays(scenario, loader, asg, verbose)
    # symbolically the obligations hold here: only what fails in floats too counts
    if fails and not (runs[0] and runs[0][0] == []):
        res.violations.append({"scenario": res.name, "obligation": fails[0], "observed": fails[:5],
                               "assignment": {k: str(v) for k, v in asg.items()}, "exact": exact,
                               "by": "witness replay"})
        return
    for r in runs:
        if r is None or r[0] is None:
            continue
        got = [(l, digest(v, lambda s: s)) for l, v in r[1].observed]
        if len(got) == len(want) and all(a[0] == b[0] and close(a[1], b[1]) for a, b in zip(want, got)):
            ok = True
            break
        why = "observations differ"
        for a, b in zip(want, got):
            if not (a[0] == b[0] and close(a[1], b[1])):
                why = "observations differ: %s: vm %s, real %s" % (a[0], str(a[1])[:300], str(b[1])[:300])
                break
    res.witnesses += 1
    if res.sample is None:
        res.sample = {k: str(v) for k, v in list(asg.items())[:40]}
    if not ok:
        res.mismatches.append(why)
        if verbose:
            print("MISMATCH", why, {k: str(v) for k, v in asg.items()})
