"""C24 Constructor parameters are stored and take effect on the next fit."""
from props.bdrlib import *
from props.c05 import judge
import sklearn.base

LEVEL_NOTE = ("Decided for symbolic integer C >= 1, real p and both rule classifiers, over sequences of construction, set_params, "
              "clone and up to 3 fits with different symbolic 0/1 data; the solver and scikit-learn's generic base are not encoded.")
ASSUMES = ["solvers behave as scripted by the harness (arbitrary pricing answers)", "C >= 1"]
BOUNDS = {"quick": "3x2 data, 2 fits", "thorough": "3x3 data, 3 fits"}

CLS = ("BooleanDecisionRuleClassifier", "BooleanDecisionRuleClassifierWithHeuristic")


def fit(vm, clf, X, Y, columns, tag):
    """Solver answers: `columns` clauses from the exact pricing, then none; zero duals."""
    def solve(s):
        zero = [0] * len(s._vars)
        none = [0] * len(s._cons)
        sps = [sp for level in clf.subproblems for sp in level if getattr(sp, "solver_", None) is s]
        if not sps:
            return 0, zero, none, 0
        k = vm.env.count("priced" + tag)
        if k < columns:
            zero[vm.concrete(sps[0].z_vars_[k])] = 1
            return 0, zero, none, -1
        return 0, zero, none, 0
    vm.hooks["mp_solve"] = solve
    if len(clf.subproblems) > 1:
        vm.split(clf.fit, X, Y)
    else:
        vm.call(clf.fit, X, Y)


def judge_fit(vm, clf, xs, y, C, p, limit, columns, when):
    m = len(xs[0])
    want = columns + 1 if limit <= 0 else min(limit, columns + 1)
    vm.check(vm.eq(clf.iter_, want), "the iteration limit in force is used %s" % when)
    added = min(columns, want)
    judge(vm, clf.master_problem, xs, y, C, p, [[j] for j in range(added)], "for the training %s" % when)
    # the size limit in force is the C of this training
    sp = clf.subproblems[-1][-1]
    ps = sp.solver_
    z = [vm.concrete(v) for _, v in vm.items(sp.z_vars_)]
    d = [vm.concrete(v) for _, v in vm.items(sp.delta_vars_)]
    vm.check(len(z) == m and len(d) == len(y), "the pricing model is built for the data %s" % when)
    for k in range(m + 1):
        values = [0] * len(ps._vars)
        for j in range(k):
            values[z[j]] = 1
        for i, v in enumerate(d):
            values[v] = ITE(sat(xs[i], range(k)), 1, 0)
        f = feasible(ps, values)
        vm.check(OR(AND(f, k <= C), AND(NOT(f), k > C)), "pricing uses the clause size limit C %s" % when)


def refit(cls, dims, ysq, changes, limits, columns):
    """fit, change parameters, fit again on other data"""
    def h(vm):
        C, p = vm.int_in("C0", 1, 50), vm.real("p0")
        clf = vm.call(getattr(vm.bdr, cls), max_iterations=limits[0], C=C, p=p)
        limit = limits[0]
        for t, y in enumerate(ysq):
            n, m = len(y), dims[t]
            if t:
                kw = {}
                if "C" in changes:
                    C = vm.int_in("C%d" % t, 1, 50)
                    kw["C"] = C
                if "p" in changes:
                    p = vm.real("p%d" % t)
                    kw["p"] = p
                if limits[t] != limit:
                    limit = limits[t]
                    kw["max_iterations"] = limit
                if kw:
                    vm.call(clf.set_params, **kw)
            if cls == CLS[1] and t < len(ysq) - 1:
                xs = [[(i * 5 + j * 3 + 1) // 2 % 2 for j in range(m)] for i in range(n)]
                X, Y = vm.array(xs, dtype=float), vm.array(list(y), dtype=int)
            else:
                xs, X, Y = data(vm, n, m, y, "x%d_" % t)
            fit(vm, clf, X, Y, columns, "f%d" % t)
            judge_fit(vm, clf, xs, y, C, p, limit, columns, "(fit %d)" % t)
            got = vm.call(clf.get_params, deep=False)
            vm.check(AND(vm.eq(got["C"], C), vm.eq(got["p"], p), vm.eq(got["max_iterations"], limit)),
                     "parameters are reported after training")
    return h


def before_first(cls, y, m):
    """parameters changed between construction and the first fit"""
    def h(vm):
        C0, p0 = vm.int_in("C0", 1, 50), vm.real("p0")
        clf = vm.call(getattr(vm.bdr, cls), C=C0, p=p0)
        C, p = vm.int_in("C", 1, 50), vm.real("p")
        vm.call(clf.set_params, C=C, p=p)
        xs, X, Y = data(vm, len(y), m, y)
        fit(vm, clf, X, Y, 1, "f")
        judge_fit(vm, clf, xs, y, C, p, -1, 1, "(first fit)")
    return h


def cloned(vm, est):
    """scikit-learn's clone; it refuses an estimator that does not store a parameter as given"""
    try:
        return sklearn.base.clone(est)
    except RuntimeError as e:
        vm.check(False, "the estimator can be cloned: " + str(e).rsplit(", as the", 1)[-1])
        return est


def stored(cls):
    def h(vm):
        C, p = vm.int("C"), vm.real("p")
        limit = vm.int("limit")
        solver = vm.one_of("solver", ["glop", "clp"])
        sps = vm.one_of("spsolver", ["cbc", "sat"])
        params = [["a"]] if cls == CLS[0] else [["a"], ["b"]]
        given = {"max_iterations": limit, "C": C, "p": p, "rmp_solver_params": "rp", "rmp_solver": solver,
                 "master_ip_solver_params": "ip", "subproblem_solver": sps, "subproblem_params": params}
        clf = vm.call(getattr(vm.bdr, cls), **given)
        for when, est in (("", clf), (" by a clone", cloned(vm, clf))):
            got = vm.call(est.get_params, deep=False)
            vm.check(sorted(got) == sorted(given), "exactly the constructor parameters are reported" + when)
            for k, v in given.items():
                if k in got:
                    same = vm.eq(got[k], v) if k in ("C", "p", "max_iterations") else got[k] == v
                    vm.check(same, "%s is reported%s" % (k, when))
        vm.check(vm.call(getattr(vm.bdr, cls)).get_params(deep=False)["C"] == 10, "the default C")
        kw = {"C": vm.int("C1"), "max_iterations": vm.int("limit1")}
        vm.call(clf.set_params, **kw)
        got = vm.call(clf.get_params, deep=False)
        vm.check(AND(vm.eq(got["C"], kw["C"]), vm.eq(got["max_iterations"], kw["max_iterations"]), vm.eq(got["p"], p)),
                 "changed parameters are reported, others are kept")
    return h


def tree_stored(depth, P0):
    """the tree classifier reports and clones what it was given"""
    from props import dtlib

    def h(vm):
        P = dtlib.Problem(vm, 1, depth, *P0)
        leafs = range(2 ** depth)
        paths = [P.path(l, {k: P.cands[k][0] for k, _ in dtlib.walk(l, depth)}, l % 2, 1) for l in leafs]
        nums = {k: vm.int(k) for k in ("max_iterations", "time_limit", "num_master_cuts_round")}
        flags = {"master_beta_constraints_as_cuts": vm.one_of("lazy", [False, True]),
                 "master_generate_cuts": vm.one_of("cuts", [False, True]), "use_old_sp": vm.one_of("old", [False, True])}
        solver = vm.one_of("solver", ["glop", "cbc"])
        rows = [vm.dt.Row()] if vm.one_of("rows", [False, True]) else None
        same = {"initial_paths": paths, "leaves": P.leaves, "nodes": P.nodes, "splits": P.splits, "targets": [0, 1], "data_rows": rows}
        plain = {"tree_depth": depth, "master_solver_type": solver, "rmp_solver_params": "rp", "master_ip_solver_params": "ip",
                 "subproblem_params": "sp"}
        given = dict(nums, **flags, **same, **plain)
        clf = vm.call(vm.dt.DTreeClassifier, **given)
        got = vm.call(clf.get_params, deep=False)
        vm.check(sorted(got) == sorted(given), "exactly the constructor parameters are reported by the tree classifier")
        twin = cloned(vm, clf)
        again = vm.call(twin.get_params, deep=False)
        for k, v in given.items():
            for r, when in ((got, "reported"), (again, "reported by a clone")):
                if k not in r:
                    continue
                if k in same:
                    ok = r[k] is v if when == "reported" else (type(r[k]) is type(v) and (v is None or len(r[k]) == len(v)))
                elif k in nums:
                    ok = vm.eq(r[k], v)
                else:
                    ok = r[k] == v
                vm.check(ok, "%s is %s by the tree classifier" % (k, when))
        if "sp" in plain.values():
            kinds = {type(sp).__name__ for sp in clf.subproblems[-1]}
            vm.check(len(clf.subproblems[-1]) == 2 ** depth * (2 if given["use_old_sp"] else 1) and len(kinds) == 1,
                     "one exact pricing problem per leaf, or per leaf and target")
    return h


def scenarios(tier):
    out = []
    for cls in CLS:
        short = cls[len("BooleanDecisionRule"):]
        out.append((short + " stored", stored(cls), {}))
        out.append((short + " set before the first fit", before_first(cls, (0, 1, 1), 2), {}))
        out.append((short + " refit other data", refit(cls, [2, 2], [(0, 1, 1), (1, 0, 1)], "", [-1, -1], 1), {"cost": 3}))
        out.append((short + " refit other shape", refit(cls, [2, 3], [(0, 1, 1), (1, 0)], "", [-1, -1], 2), {"cost": 3}))
        out.append((short + " refit C p", refit(cls, [2, 2], [(1, 0, 1), (0, 1, 1)], ("C", "p"), [-1, -1], 1), {"cost": 3}))
        out.append((short + " refit limits", refit(cls, [2, 2], [(1, 0), (1, 0)], ("C",), [1, 2], 2), {"cost": 3}))
        out.append((short + " refit limit removed", refit(cls, [2, 2], [(1, 0), (0, 1)], (), [1, -1], 2), {"cost": 3}))
        if tier != "quick":
            out.append((short + " three fits", refit(cls, [3, 2, 3], [(0, 1, 1), (1, 0, 1), (1, 1, 0)], ("C", "p"), [2, -1, 1], 2), {"cost": 9}))
            for y2 in ys(3):
                out.append((short + " refit y=%s" % (y2,), refit(cls, [3, 3], [(0, 1, 1), y2], ("C", "p"), [-1, 2], 2), {"cost": 5}))
    out.append(("tree classifier stored depth 1", tree_stored(1, ((0, 1), {0: [0, 1]})), {}))
    out.append(("tree classifier stored depth 2", tree_stored(2, ((0, 1, 2), {0: [0], 1: [1], 2: [2, 1]})), {}))
    return out
