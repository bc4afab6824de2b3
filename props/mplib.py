"""Reading the linear models recorded by the pywraplp stub."""
from symvm.vals import *

INF = float("inf")


def coef(d, i):
    x = resolve(d).get(i)
    if x is None:
        return 0
    g = guard_of(x)
    v = resolve(val_of(x))
    return v if g is True else ITE(g, v, 0)


def lin(d, values):
    """sum of coef * value; values: list indexed by variable (0/1 conditions or numbers)"""
    terms = []
    for i, v in enumerate(values):
        c = coef(d, i)
        if isinstance(v, SymBool):
            terms.append(ITE(v, c, 0))
        else:
            terms.append(c * v)
    return SUM(terms)


def isinf(v):
    return not isinstance(v, SYM) and v in (INF, -INF)


def within(v, lb, ub):
    c = []
    if not isinf(lb):
        c.append(v >= lb)
    if not isinf(ub):
        c.append(v <= ub)
    return AND(c)


def objective(s, values):
    return lin(s._obj._coefs, values) + s._obj._offset


def rows(s):
    """[(condition under which the row exists, row)]"""
    return [(guard_of(c), val_of(c)) for c in s._cons]


def row_ok(s, k, values):
    g, con = guard_of(s._cons[k]), val_of(s._cons[k])
    ok = within(lin(con._coefs, values), con._lb, con._ub)
    return ok if g is True else IMPLIES(g, ok)


def rows_ok(s, values, skip=()):
    return AND([row_ok(s, k, values) for k in range(len(s._cons)) if k not in skip])


def bounds_ok(s, values):
    return AND([within(num(v), s._vars[i]._lb, s._vars[i]._ub) for i, v in enumerate(values)])


def feasible(s, values):
    return AND(rows_ok(s, values), bounds_ok(s, values))


def sym_values(vm, s, tag, only=None):
    """Arbitrary values: booleans for 0/1 integer variables, else reals/ints."""
    out = []
    for i, v in enumerate(s._vars):
        name = "%s.%d" % (tag, i)
        isint = v._integer
        if isint is True and not isinf(v._lb) and not isinf(v._ub) and v._lb == 0 and v._ub == 1:
            out.append(vm.bool(name) if vm.sym else vm.bool(name))
        elif isint is True:
            out.append(vm.int(name))
        else:
            out.append(vm.real(name))
    return out


def dump(s):
    """The whole model, for comparing two states of it."""
    n = len(s._vars)
    out = {"n": n, "m": len(s._cons), "max": s._obj._maximize}
    nums = [s._obj._offset] + [coef(s._obj._coefs, i) for i in range(n)]
    for v in s._vars:
        nums += [v._lb, v._ub, v._integer]
    for g, c in rows(s):
        nums += [ITE(g, 1, 0), c._lb, c._ub] + [coef(c._coefs, i) for i in range(n)]
    out["nums"] = nums
    return out


def same_dump(vm, a, b):
    if (a["n"], a["m"], a["max"]) != (b["n"], b["m"], b["max"]):
        return False
    return AND([vm.eq(x, y) for x, y in zip(a["nums"], b["nums"])])


def num01(v):
    return num(v) if isinstance(v, SymBool) else (int(v) if isinstance(v, bool) else v)
