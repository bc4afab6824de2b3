"""Path exploration, journaling and state merging.

The engine runs a thunk along one decision path at a time.  A *region* explores
all decision paths of a sub-computation from the same state (rolling back every
journaled write in between) and merges their outcomes into one symbolic state;
outcomes that cannot be merged stay separate groups, between which the
enclosing region (ultimately the root) has to decide.  The root explores its
decision paths by replaying the whole harness.
"""
import time as _time
import numpy as np
import z3
from . import vals
from .vals import (SymBool, SymNum, SYM, Opt, Phi, mkopt, guard_of, val_of, AND, OR, NOT,
                   ITE, EQ, isnum, wrapbool, mknum)


class Control(BaseException):
    """Engine control flow (never caught by the code under test)."""


class Infeasible(Control):
    """The current path contradicts the assumptions."""


class Unsupported(Control):
    """The engine met something it has no model for."""


class Budget(Control):
    """Time or path budget exhausted."""


class Unmergeable(Exception):
    pass


MISSING = type("MISSING", (), {"__repr__": lambda s: "MISSING"})()


_CONNECTIVES = {z3.Z3_OP_TRUE: "true", z3.Z3_OP_FALSE: "false", z3.Z3_OP_NOT: "not", z3.Z3_OP_AND: "and",
                z3.Z3_OP_OR: "or", z3.Z3_OP_IMPLIES: "implies", z3.Z3_OP_IFF: "iff", z3.Z3_OP_EQ: "iff",
                z3.Z3_OP_XOR: "xor", z3.Z3_OP_DISTINCT: "distinct", z3.Z3_OP_ITE: "ite"}


class Frame:
    __slots__ = ("kind", "prefix", "trail", "pc", "known", "touched", "fresh", "assumed", "ndec", "npush", "cuts")

    def __init__(self, kind, prefix):
        self.kind = kind
        self.prefix = prefix
        self.trail = []
        self.pc = []           # z3 conditions decided or assumed in this frame
        self.known = {}        # ast id -> (bool, ast)
        self.touched = {}      # location key -> (kind, obj, name, old)
        self.fresh = {}        # id -> object created in this frame
        self.assumed = False
        self.ndec = 0
        self.npush = 0
        self.cuts = []         # positions in pc from which an assumption limits the inputs


class Outcome:
    __slots__ = ("pc", "kind", "value", "finals", "fresh", "touched")


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.regions = 0
        self.region_paths = 0
        self.decisions = 0
        self.merges = 0
        self.unknown = 0
        self.checks = 0
        self.functions = {}


class Engine:
    def __init__(self, query_timeout_ms=60000):
        self.frames = []
        self.stats = Stats()
        self.query_timeout = query_timeout_ms
        self.deadline = None
        self.vars = {}            # name -> z3 const
        self.assumptions = []
        self.solver = None
        self.max_region_paths = 400
        self.nfresh = 0
        self.noregion = False
        self._sqrt = {}
        self._struct = {}

    # ------------------------------------------------------------------ solver
    def activate(self):
        vals.ENGINE = self

    def check_deadline(self):
        if self.deadline is not None and _time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def path_condition(self):
        out = []
        for f in self.frames:
            out.extend(f.pc)
        return out

    def sat(self, *extra, timeout=None, want_model=False):
        """Satisfiability of assumptions, path condition and extra."""
        self.check_deadline()
        t = _time.time()
        s = self.solver
        s.push()
        try:
            for c in extra:
                s.add(c)
            s.set("timeout", min(timeout or self.query_timeout, 3000))
            r = s.check()
            self.stats.queries += 1
            m = s.model() if (want_model and r == z3.sat) else None
            if r == z3.unknown:
                reason = s.reason_unknown()
        finally:
            s.pop()
            self.stats.solver_time += _time.time() - t
        if r == z3.unknown:
            r, m = self._sat_fresh(extra, timeout, want_model)
            if r == z3.unknown:
                self.stats.unknown += 1
                self.last_unknown = reason
        return (r, m) if want_model else r

    def _sat_fresh(self, extra, timeout, want_model):
        """Second chance with a fresh, non-incremental solver."""
        t = _time.time()
        s = z3.Solver()
        s.set("timeout", timeout or self.query_timeout)
        for c in self.solver.assertions():
            s.add(c)
        for c in extra:
            s.add(c)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_time += _time.time() - t
        return r, (s.model() if (want_model and r == z3.sat) else None)

    def feasible(self, *extra):
        r = self.sat(*extra)
        return r != z3.unsat

    def _push(self, frame, cond):
        frame.pc.append(cond)
        self.solver.push()
        self.solver.add(cond)
        frame.npush += 1

    def _pop_frame_solver(self, frame):
        if frame.npush:
            self.solver.pop(frame.npush)
            frame.npush = 0

    # --------------------------------------------------------------- decisions
    def struct(self, z):
        """(connective, children) of a Boolean term by id; the connective is
        None for an atom, and the terms are kept so that the ids stay theirs."""
        i = z.get_id()
        r = self._struct.get(i)
        if r is None:
            k = z.decl().kind()
            tag = _CONNECTIVES.get(k)
            kids = ()
            if tag == "iff" and not z3.is_bool(z.arg(0)):
                tag = None
            elif tag == "distinct" and (z.num_args() != 2 or not z3.is_bool(z.arg(0))):
                tag = None
            if tag is not None:
                kids = z.children()
                for c in kids:
                    self.struct(c)
                kids = tuple(c.get_id() for c in kids)
            r = self._struct[i] = (tag, kids, z)
        return r

    def fact(self, i):
        for f in reversed(self.frames):
            r = f.known.get(i)
            if r is not None:
                return r[0]
        return None

    def lookup(self, z):
        self.struct(z)
        return self._lookup(z.get_id(), {})

    def _lookup(self, i, memo):
        """memo: connectives looked at before in this lookup (terms share their parts)"""
        tag, kids, _ = self._struct[i]
        neg = False
        while tag == "not":
            i = kids[0]
            tag, kids, _ = self._struct[i]
            neg = not neg
        if tag == "true":
            return not neg
        if tag == "false":
            return neg
        r = self.fact(i)
        if r is not None:
            return r != neg
        if tag == "and" or tag == "or":
            if i in memo:
                r = memo[i]
                return None if r is None else r != neg
            absorb = tag == "or"
            out = not absorb
            for a in kids:
                r = self._lookup(a, memo)
                if r is absorb:
                    out = absorb
                    break
                if r is None:
                    out = None
            memo[i] = out
            return None if out is None else out != neg
        return None

    def propositional(self, z, limit=9):
        """The truth value of z when its Boolean structure and the known facts
        settle it, whatever its atoms are; else None."""
        S = self._struct
        self.struct(z)
        atoms = []
        seen = {}

        def collect(i):
            if i in seen:
                return True
            tag, kids, _ = S[i]
            r = True if tag == "true" else False if tag == "false" else None
            if r is None and tag != "not":
                r = self.fact(i)
            if r is not None:
                seen[i] = r
                return True
            if tag is None:
                seen[i] = None
                atoms.append(i)
                return len(atoms) <= limit
            seen[i] = None
            return len(seen) < 600 and all(collect(k) for k in kids)
        if not collect(z.get_id()) or not atoms:
            return self._lookup(z.get_id(), {})
        n = 1 << len(atoms)
        full = (1 << n) - 1
        val = {}
        for j, i in enumerate(atoms):
            block = (1 << (1 << j)) - 1
            m = 0
            step = 1 << (j + 1)
            for o in range(0, n, step):
                m |= block << o
            val[i] = m

        def ev(i):
            r = val.get(i)
            if r is not None:
                return r
            k = seen[i]
            if k is not None:
                r = full if k else 0
            else:
                tag, kids, _ = S[i]
                if tag == "not":
                    r = full & ~ev(kids[0])
                elif tag == "and":
                    r = full
                    for c in kids:
                        r &= ev(c)
                elif tag == "or":
                    r = 0
                    for c in kids:
                        r |= ev(c)
                elif tag == "implies":
                    r = (full & ~ev(kids[0])) | ev(kids[1])
                elif tag == "iff":
                    r = full & ~(ev(kids[0]) ^ ev(kids[1]))
                elif tag in ("xor", "distinct"):
                    r = ev(kids[0]) ^ ev(kids[1])
                else:
                    c = ev(kids[0])
                    r = (c & ev(kids[1])) | (full & ~c & ev(kids[2]))
            val[i] = r
            return r
        r = ev(z.get_id())
        return True if r == full else False if r == 0 else None

    def learn(self, frame, z, val):
        while vals.is_not(z):
            z = z.arg(0)
            val = not val
        frame.known[z.get_id()] = (val, z)
        if val and z3.is_and(z):
            for a in z.children():
                self.learn(frame, a, True)
        elif not val and z3.is_or(z):
            for a in z.children():
                self.learn(frame, a, False)

    def decide(self, z):
        if not self.frames:
            raise Unsupported("decision outside of exploration")
        r = self.lookup(z)
        if r is None and z3.is_app(z):
            r = self.propositional(z)
        if r is not None:
            return r
        f = self.frames[-1]
        self.stats.decisions += 1
        f.ndec += 1
        pos = len(f.trail)
        if pos < len(f.prefix):
            v = f.prefix[pos][0]
            f.trail.append(f.prefix[pos])
        else:
            if f.ndec % 50 == 0:
                self.check_deadline()
            if f.kind == "root" or f.ndec > 3:
                notz = z3.Not(z)
                if not self.feasible(z):
                    v, alt = False, False
                elif not self.feasible(notz):
                    v, alt = True, False
                else:
                    v, alt = True, True
            else:
                v, alt = True, True
            f.trail.append((v, alt))
        self.learn(f, z, v)
        self._push(f, z if v else z3.Not(z))
        return v

    def concretize(self, x):
        """Fork over the possible values of x; returns a Python value."""
        x = vals.num(x)
        if not isinstance(x, SymNum):
            return x
        n = 0
        f = self.frames[-1]
        while True:
            pos = len(f.trail)
            if pos < len(f.prefix) and len(f.prefix[pos]) > 2:
                v = f.prefix[pos][2]
            else:
                r, m = self.sat(want_model=True)
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.unknown:
                    raise Unsupported("solver gave no value to concretize")
                v = mknum(m.eval(x.z, model_completion=True))
            c = EQ(x, v)
            if c is True:
                return v
            if pos < len(f.prefix):
                d = f.prefix[pos]
            else:
                alt = self.feasible(z3.Not(c.z))
                d = (True, alt, v)
            f.trail.append(d)
            f.ndec += 1
            self.stats.decisions += 1
            self.learn(f, c.z, d[0])
            self._push(f, c.z if d[0] else z3.Not(c.z))
            if d[0]:
                return v
            n += 1
            if n > 200:
                raise Unsupported("unbounded concretization")

    def assume(self, c, limits=True):
        """limits: the assumption leaves inputs out (it does not just define a new variable)."""
        z = vals.tobool(c)
        if vals.is_true(z):
            return
        r = self.lookup(z)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        f = self.frames[-1]
        self.learn(f, z, True)
        if limits:
            f.cuts.append(len(f.pc))
        self._push(f, z)
        f.assumed = True
        if f.kind == "root" and not self.feasible():
            raise Infeasible()

    def sqrt(self, v):
        if not isinstance(v, SYM):
            import math
            if isinstance(v, vals.Fraction):
                n, d = v.numerator, v.denominator
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return vals.Fraction(rn, rd)
            return math.sqrt(v)
        v = vals.num(v)
        if bool(v < 0):
            raise ValueError("math domain error")
        key = v.z.get_id()
        if key not in self._sqrt:
            self.nfresh += 1
            self._sqrt[key] = (z3.Real("sqrt!%d" % key), v.z)
        r = self._sqrt[key][0]
        self.assume(wrapbool(z3.And(r >= 0, r * r == vals.toreal(v.z))), False)
        return SymNum(r)

    # --------------------------------------------------------------- variables
    def real(self, name):
        z = self.vars.get(name)
        if z is None:
            z = self.vars[name] = z3.Real(name)
        return SymNum(z)

    def int(self, name):
        z = self.vars.get(name)
        if z is None:
            z = self.vars[name] = z3.Int(name)
        return SymNum(z)

    def boolean(self, name):
        z = self.vars.get(name)
        if z is None:
            z = self.vars[name] = z3.Bool(name)
        return SymBool(z)

    # -------------------------------------------------------------- journaling
    def fresh(self, obj):
        if self.frames:
            self.frames[-1].fresh[id(obj)] = obj
        return obj

    def is_fresh_here(self, obj):
        return bool(self.frames) and id(obj) in self.frames[-1].fresh

    def touch_var(self, env, name):
        f = self.frames[-1]
        if f.kind == "root" or id(env) in f.fresh:
            return
        k = (id(env), "v", name)
        if k not in f.touched:
            f.touched[k] = ("v", env, name, env.get(name, MISSING))

    def setvar(self, env, name, v):
        self.touch_var(env, name)
        env[name] = v

    def touch_attr(self, obj, name):
        f = self.frames[-1]
        if f.kind == "root" or id(obj) in f.fresh:
            return
        k = (id(obj), "a", name)
        if k not in f.touched:
            d = getattr(obj, "__dict__", None)
            if d is not None and not isinstance(obj, type):
                old = d.get(name, MISSING)
            else:
                old = getattr(obj, name, MISSING)
            f.touched[k] = ("a", obj, name, old)

    def touch(self, c):
        """About to mutate container c."""
        f = self.frames[-1]
        if f.kind == "root" or id(c) in f.fresh:
            return
        k = (id(c), "c", None)
        if k not in f.touched:
            f.touched[k] = ("c", c, None, self.snapshot(c))

    @staticmethod
    def snapshot(c):
        if isinstance(c, np.ndarray):
            return c.copy()
        if isinstance(c, list):
            return list(c)
        if isinstance(c, dict):
            return dict(c)
        if isinstance(c, set):
            return set(c)
        raise Unsupported("cannot journal %r" % type(c))

    @staticmethod
    def set_content(c, content):
        if isinstance(c, np.ndarray):
            c[...] = content
        elif isinstance(c, list):
            c[:] = content
        elif isinstance(c, dict):
            c.clear()
            dict.update(c, content)
        elif isinstance(c, set):
            c.clear()
            c.update(content)

    def current(self, kind, obj, name):
        if kind == "v":
            return obj.get(name, MISSING)
        if kind == "a":
            d = getattr(obj, "__dict__", None)
            if d is not None and not isinstance(obj, type):
                return d.get(name, MISSING)
            return getattr(obj, name, MISSING)
        return self.snapshot(obj)

    def write(self, kind, obj, name, v):
        """Raw write (no journaling)."""
        if kind == "v":
            if v is MISSING:
                obj.pop(name, None)
            else:
                obj[name] = v
        elif kind == "a":
            d = getattr(obj, "__dict__", None)
            if v is MISSING:
                if d is not None:
                    d.pop(name, None)
            elif d is not None and not isinstance(obj, type):
                d[name] = v
            else:
                setattr(obj, name, v)
        else:
            self.set_content(obj, v)

    def rollback(self, f):
        for kind, obj, name, old in f.touched.values():
            self.write(kind, obj, name, old)

    # ----------------------------------------------------------------- regions
    def region(self, thunk):
        """Run thunk(); returns what it returns (a completion (kind, value)),
        merging all its decision paths where possible."""
        if self.noregion:
            return thunk()
        self.stats.regions += 1
        prefix = []
        outcomes = []
        dropped = False
        assumed = limits = False
        npaths = 0
        while True:
            f = Frame("region", prefix)
            self.frames.append(f)
            exc = None
            comp = None
            drop = False
            try:
                comp = thunk()
            except Infeasible:
                drop = True
            except Control:
                self._pop_frame_solver(f)
                self.frames.pop()
                self.rollback(f)
                raise
            except Exception as e:          # an exception of the code under test
                exc = e
            npaths += 1
            self.stats.region_paths += 1
            if exc is not None and f.trail and not drop:
                if not self.feasible():
                    drop = True
            self._pop_frame_solver(f)
            if not f.trail and npaths == 1:
                # straight-line: adopt its journal into the parent
                self.frames.pop()
                self.adopt(f, drop)
                if drop:
                    raise Infeasible()
                if exc is not None:
                    raise exc
                return comp
            self.frames.pop()
            if drop:
                dropped = True
                self.rollback(f)
            else:
                o = Outcome()
                o.pc = f.pc
                if exc is not None:
                    o.kind, o.value = "exc", exc
                else:
                    o.kind, o.value = comp
                o.finals = {k: self.current(t[0], t[1], t[2]) for k, t in f.touched.items()}
                o.fresh = f.fresh
                o.touched = f.touched
                self.rollback(f)
                outcomes.append(o)
            assumed = assumed or f.assumed
            limits = limits or bool(f.cuts) or drop
            trail = f.trail
            while trail and not (trail[-1][1] and trail[-1][0]):
                trail.pop()
            if not trail:
                break
            last = trail.pop()
            trail.append((False, False) + tuple(last[2:]))
            prefix = trail
            if npaths > self.max_region_paths:
                raise Unsupported("too many paths in one region")
        if not outcomes:
            raise Infeasible()
        groups = self.group(outcomes)
        if dropped or assumed:
            self.assume(OR([self.conj(o.pc) for o in outcomes]), limits)
        if len(groups) == 1:
            return self.commit(groups[0])
        # the enclosing frame decides between the groups
        for g in groups[:-1]:
            cond = OR([self.conj(o.pc) for o in g["outs"]])
            if bool(cond):
                return self.commit(g)
        return self.commit(groups[-1])

    def conj(self, pc):
        return AND([wrapbool(c) for c in pc])

    def adopt(self, f, drop):
        p = self.frames[-1]
        if drop:
            self.rollback(f)
            return
        # assumptions made on a straight line hold in the parent
        if f.cuts:
            p.cuts.append(len(p.pc))
        for c in f.pc:
            self.learn(p, c, True)
            self._push(p, c)
        if f.assumed:
            p.assumed = True
        if p.kind != "root":
            for k, t in f.touched.items():
                if k not in p.touched and id(t[1]) not in p.fresh:
                    p.touched[k] = t
            p.fresh.update(f.fresh)

    # ----------------------------------------------------------------- merging
    def group(self, outcomes):
        groups = []
        for o in outcomes:
            done = False
            for g in groups:
                if g["kind"] != o.kind or o.kind == "exc":
                    continue
                try:
                    self.merge_into(g, o)
                    done = True
                    break
                except Unmergeable:
                    continue
            if not done:
                groups.append({"kind": o.kind, "value": o.value, "finals": dict(o.finals),
                               "touched": dict(o.touched), "fresh": dict(o.fresh), "outs": [o]})
        return groups

    def merge_into(self, g, o):
        """Fold outcome o into group g: ite(pc_o, o, g)."""
        self.stats.merges += 1
        c = self.conj(o.pc)
        fresh = dict(g["fresh"])
        fresh.update(o.fresh)
        finals = {}
        for k in set(g["finals"]) | set(o.finals):
            t = g["touched"].get(k) or o.touched[k]
            kind, obj, name, old = t
            a = o.finals.get(k, old)
            b = g["finals"].get(k, old)
            owner_fresh = id(obj) in fresh
            if k not in o.finals and owner_fresh and id(obj) not in o.fresh:
                finals[k] = b
                continue
            if k not in g["finals"] and owner_fresh and id(obj) not in g["fresh"]:
                finals[k] = a
                continue
            if kind == "c":
                finals[k] = self.merge_content(c, a, b, fresh)
            else:
                finals[k] = self.merge(c, a, b, fresh)
        value = self.merge(c, o.value, g["value"], fresh)
        g["value"] = value
        g["finals"] = finals
        for k, t in o.touched.items():
            g["touched"].setdefault(k, t)
        g["fresh"] = fresh
        g["outs"].append(o)

    def commit(self, g):
        p = self.frames[-1]
        for k, v in g["finals"].items():
            kind, obj, name, old = g["touched"][k]
            if p.kind != "root" and k not in p.touched and id(obj) not in p.fresh:
                p.touched[k] = (kind, obj, name, self.current(kind, obj, name))
            self.write(kind, obj, name, v)
        if p.kind != "root":
            p.fresh.update(g["fresh"])
        if g["kind"] == "exc":
            raise g["value"]
        return (g["kind"], g["value"])

    def merge(self, c, a, b, fresh):
        """ite(c, a, b)"""
        if a is b:
            return a
        if isinstance(a, SYM + (bool, int, float, vals.Fraction, np.number, np.bool_)) and \
           isinstance(b, SYM + (bool, int, float, vals.Fraction, np.number, np.bool_)):
            if vals._isinf(a) or vals._isinf(b):
                if not isinstance(a, SYM) and not isinstance(b, SYM) and a == b:
                    return a
                return Phi(c, a, b)
            if not isinstance(a, SYM) and not isinstance(b, SYM) and type(a) == type(b) and a == b:
                return a
            return ITE(c, a, b)
        if a is MISSING or b is MISSING:
            # A name bound on one side only: the other side never reads it
            # unless the code is broken, which the native replay shows.
            return Phi(c, a, b)
        ta, tb = type(a), type(b)
        if ta is tb:
            if ta is tuple and len(a) == len(b):
                return tuple(self.merge(c, x, y, fresh) for x, y in zip(a, b))
            if ta in (list, dict, set) and id(a) in fresh and id(b) in fresh:
                m = ta()
                self.set_content(m, self.merge_content(c, a, b, fresh))
                fresh[id(m)] = m
                return m
            if ta is str and a == b:
                return a
            if isinstance(a, np.ndarray) and a.shape == b.shape and id(a) in fresh and id(b) in fresh:
                m = a.copy()
                fresh[id(m)] = m
                m[...] = self.merge_content(c, a, b, fresh)
                return m
            if ta is range and a == b:
                return a
        mm = getattr(ta, "__vm_merge__", None) or getattr(tb, "__vm_merge__", None)
        if mm is not None:
            r = mm(c, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, Phi) and b.a is a:
            return Phi(OR(c, b.c), b.a, b.b)
        if isinstance(b, Phi) and b.b is a:
            return Phi(AND(NOT(c), b.c), b.a, b.b)
        return Phi(c, a, b)

    def merge_content(self, c, a, b, fresh):
        if isinstance(a, np.ndarray):
            out = np.asarray(a.copy())
            fa, fb = np.asarray(a), np.asarray(b)
            if a.dtype != object:
                if (fa == fb).all():
                    return a
                raise Unmergeable()
            for idx in np.ndindex(*a.shape):
                out[idx] = self.merge(c, fa[idx], fb[idx], fresh)
            return out
        if isinstance(a, list):
            return self.merge_lists(c, a, b, fresh)
        if isinstance(a, set):
            out = set()
            da = {val_of(e): guard_of(e) for e in a}
            db = {val_of(e): guard_of(e) for e in b}
            for e in list(da) + [e for e in db if e not in da]:
                g = ITE(c, da.get(e, False), db.get(e, False))
                if g is False:
                    continue
                out.add(mkopt(g, e))
            return out
        if isinstance(a, dict):
            out = {}
            for k in merge_keys(a, b):
                va, vb = a.get(k, MISSING), b.get(k, MISSING)
                if va is vb:
                    out[k] = va
                    continue
                ga = False if va is MISSING else guard_of(va)
                gb = False if vb is MISSING else guard_of(vb)
                g = ITE(c, ga, gb)
                if g is False:
                    continue
                if va is MISSING:
                    v = val_of(vb)
                elif vb is MISSING:
                    v = val_of(va)
                else:
                    v = self.merge(c, val_of(va), val_of(vb), fresh)
                out[k] = mkopt(g, v)
            return out
        raise Unmergeable()

    def merge_lists(self, c, a, b, fresh):
        n = 0
        m = min(len(a), len(b))
        while n < m and same(a[n], b[n]):
            n += 1
        if len(a) == len(b) and not any(isinstance(x, Opt) for x in a[n:]) and \
                not any(isinstance(x, Opt) for x in b[n:]):
            return a[:n] + [self.merge(c, x, y, fresh) for x, y in zip(a[n:], b[n:])]
        k = 0
        while k < m - n and same(a[len(a) - 1 - k], b[len(b) - 1 - k]):
            k += 1
        ma, mb = a[n:len(a) - k], b[n:len(b) - k]
        tail = a[len(a) - k:]
        mid = []
        i = j = 0
        # align identical values (after removals / guarded appends)
        while i < len(ma) or j < len(mb):
            if i < len(ma) and j < len(mb) and same(val_of(ma[i]), val_of(mb[j])):
                g = ITE(c, guard_of(ma[i]), guard_of(mb[j]))
                mid.append(mkopt(g, val_of(ma[i])))
                i += 1
                j += 1
                continue
            if i < len(ma):
                # does ma[i] occur later in mb?
                later = any(same(val_of(ma[i]), val_of(y)) for y in mb[j:])
                if later:
                    mid.append(mkopt(AND(NOT(c), guard_of(mb[j])), val_of(mb[j])))
                    j += 1
                else:
                    mid.append(mkopt(AND(c, guard_of(ma[i])), val_of(ma[i])))
                    i += 1
            else:
                mid.append(mkopt(AND(NOT(c), guard_of(mb[j])), val_of(mb[j])))
                j += 1
        return a[:n] + [e for e in mid if guard_of(e) is not False] + tail


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Opt) and isinstance(b, Opt):
        return same(a.v, b.v) and a.g.z.eq(b.g.z)
    if isinstance(a, SYM) and isinstance(b, SYM):
        return type(a) is type(b) and a.z.eq(b.z)
    if isinstance(a, SYM + (Opt, Phi)) or isinstance(b, SYM + (Opt, Phi)):
        return False
    if type(a) is type(b) and isinstance(a, (int, str, bool, float, vals.Fraction)):
        return a == b
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def merge_keys(a, b):
    """The keys of both dicts in an order that agrees with both."""
    ka, kb = list(a), list(b)
    common = [k for k in ka if k in b]
    if common != [k for k in kb if k in a]:
        raise Unmergeable()
    out = []
    i = j = 0
    for k in common + [MISSING]:
        while i < len(ka) and ka[i] is not k and ka[i] != k:
            out.append(ka[i])
            i += 1
        while j < len(kb) and kb[j] is not k and kb[j] != k:
            out.append(kb[j])
            j += 1
        if k is not MISSING:
            out.append(k)
            i += 1
            j += 1
    return out
