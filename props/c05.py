"""C05 The rule master is the published covering LP for any data and column history."""
from props.bdrlib import *

LEVEL_NOTE = ("Decided for every 0/1 data set of 3 samples x 3 features (4x3 thorough), every label vector, every integer C and "
              "real p, and every sequence of up to 2 (3 thorough) distinct added clauses in any feature order. "
              "Large data (440 samples, 70 features, 40 columns) with a few arbitrary bits among given ones as well.")
ASSUMES = ["data is 0/1, labels are encoded 0/1", "added clauses are distinct and their features are distinct"]
BOUNDS = {"quick": "3x3 data, 2 added clauses; rebuilt with other data; empty column; 440x70 data, 40 columns with a few arbitrary bits", "thorough": "4x3 data, 3 added clauses; 440x70 data, 40 columns with a few arbitrary bits"}


def judge(vm, mp, xs, y, C, p, added, when):
    """The model is the published one over [] + added."""
    s = mp.solver_
    pos = [i for i, t in enumerate(y) if t == 1]
    P = len(pos)
    cl = [[]] + [list(c) for c in added]
    ok = len(s._vars) == P + len(cl) and len(s._cons) == P + 1
    vm.check(ok, "numbers of variables and constraints %s" % when)
    if not ok:
        return
    keys = {k: [vm.concrete(j) for _, j in vm.items(v)] for g, k, v in vm.dict_items(mp.clause_dict_)}
    vm.check(len(keys) == len(cl), "one dictionary entry per clause %s" % when)
    var_of = {tuple(sorted(v)): k for k, v in keys.items()}
    xi = [vm.concrete(v) for _, v in vm.items(mp.xi_vars_)]
    ok = sorted(var_of) == sorted(tuple(sorted(c)) for c in cl) and len(set(xi) | set(keys)) == P + len(cl)
    vm.check(ok, "variables are one per positive sample and one per clause %s" % when)
    if not ok:
        return
    for v in s._vars:
        vm.check(AND(EQ(v._lb, 0), isinf(v._ub) and v._ub > 0), "variables are non-negative %s" % when)
    for k in keys:
        vm.check(s._vars[k]._integer, "clause variables are integer %s" % when)
    vm.check(NOT(s._obj._maximize), "minimisation %s" % when)
    vm.check(vm.eq(s._obj._offset, 0), "no objective offset %s" % when)
    for v in xi:
        vm.check(vm.eq(coef(s._obj._coefs, v), p), "penalty coefficient %s" % when)
    for c in cl:
        neg = SUM([ITE(sat(xs[i], c), 1, 0) for i in range(len(y)) if y[i] == 0])
        vm.check(vm.eq(coef(s._obj._coefs, var_of[tuple(sorted(c))]), neg),
                 "objective coefficient = negatives satisfying the clause %s" % when)
    comp = vm.concrete(mp.clause_complexity_)
    rows = [vm.concrete(r) for _, r in vm.items(mp.clause_satisfaction_)]
    vm.check(sorted(rows + [comp]) == list(range(P + 1)), "one row per positive sample and the complexity row %s" % when)
    if sorted(rows + [comp]) != list(range(P + 1)):
        return
    con = s._cons[comp]
    vm.check(AND(vm.eq(con._ub, C), lower_free(con, xi)), "complexity row bounds %s" % when)
    for v in xi:
        vm.check(vm.eq(coef(con._coefs, v), 0), "penalties do not enter the complexity row %s" % when)
    for c in cl:
        vm.check(vm.eq(coef(con._coefs, var_of[tuple(sorted(c))]), len(c) + 1), "complexity of a clause %s" % when)
    owner = {}
    for k, r in enumerate(rows):
        con = s._cons[r]
        vm.check(AND(vm.eq(con._lb, 1), isinf(con._ub)), "covering row bounds %s" % when)
        ones = [j for j, v in enumerate(xi) if vm.fork(vm.eq(coef(con._coefs, v), 1))]
        vm.check(len(ones) == 1 and AND([vm.eq(coef(con._coefs, v), 0) for j, v in enumerate(xi) if j not in ones]),
                 "one penalty variable per covering row %s" % when)
        if len(ones) == 1:
            owner[k] = ones[0]
        for c in cl:
            vm.check(vm.eq(coef(con._coefs, var_of[tuple(sorted(c))]), ITE(sat(xs[pos[k]], c), 1, 0)),
                     "the k-th covering row is the k-th positive sample's %s" % when)
    vm.check(len(set(owner.values())) == P, "each penalty variable has its own row %s" % when)


def lower_free(con, xi):
    return OR(isinf(con._lb) and con._lb < 0, AND(EQ(con._lb, 0)) if not isinf(con._lb) else False,
              con._lb < 0 if not isinf(con._lb) else False)


def wide(n, m, y, added, free):
    """Large data sets and many columns; the bits outside `free` follow a pattern."""
    def h(vm):
        C, p = vm.int("C"), vm.real("p")
        xs, X, Y = data(vm, n, m, y, free=free)
        mp = vm.call(vm.bdr.BDRMasterProblem, C, p)
        vm.call(mp.generate_mp, X, Y)
        for c in added:
            vm.check(truthy(vm.call(mp.add_column, list(c))), "a new clause is accepted")
        judge(vm, mp, xs, y, C, p, added, "after adding")
    return h


def run(n, m, y, k, fixed=None):
    def h(vm):
        C, p = vm.int("C"), vm.real("p")
        xs, X, Y = data(vm, n, m, y)
        mp = vm.call(vm.bdr.BDRMasterProblem, C, p)
        vm.call(mp.generate_mp, X, Y)
        judge(vm, mp, xs, y, C, p, [], "after building")
        pool = clauses(m, 1, m)
        added = []
        for t in range(k):
            before = dump(mp.solver_)
            r = vm.call(mp.add_column, [])
            vm.check(NOT(r if r is not None else False), "an empty column is refused")
            vm.check(same_dump(vm, before, dump(mp.solver_)), "an empty column changes nothing")
            if fixed:
                c = list(fixed[t])
            else:
                c = list(vm.one_of("clause%d" % t, [c for c in pool if c not in [sorted(a) for a in added]]))
                if len(c) > 1 and vm.bool("order%d" % t):
                    c = c[::-1]
            r = vm.call(mp.add_column, list(c))
            vm.check(truthy(r), "a new clause is accepted")
            added.append(c)
        judge(vm, mp, xs, y, C, p, added, "after adding")
        before = dump(mp.solver_)
        y2 = y[::-1]
        xs2, X2, Y2 = data(vm, n, m, y2, "x2_")
        vm.call(mp.generate_mp, X2, Y2)
        vm.check(same_dump(vm, before, dump(mp.solver_)), "building again changes nothing")
        if k:
            # columns added after the repeated build still refer to the same data
            rest = [c for c in pool if c not in [sorted(a) for a in added]]
            if rest:
                vm.call(mp.add_column, list(rest[-1]))
                added.append(rest[-1])
                judge(vm, mp, xs, y, C, p, added, "after building again and adding")
    return h


def truthy(r):
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def through(cls, y):
    def h(vm):
        C, p = vm.int_in("C", 1, 50), vm.real("p")
        xs, X, Y = data(vm, len(y), 2, y)
        clf = vm.call(getattr(vm.bdr, cls), C=C, p=p)
        vm.call(clf.master_problem.generate_mp, X, Y)
        judge(vm, clf.master_problem, xs, y, C, p, [], "in the classifier")
    return h


def scenarios(tier):
    out = []
    n, m, k = (3, 3, 2) if tier == "quick" else (4, 3, 2)
    for y in ys(n, need_both=False):
        nm = "".join(map(str, y))
        out.append(("%dx%d y=%s one clause" % (n, m, nm), run(n, m, y, 1), {"cost": 5}))
        if tier != "quick" or nm in ("011", "100", "101"):
            out.append(("%dx%d y=%s %d clauses" % (n, m, nm, k), run(n, m, y, k), {"cost": 9}))
    out.append(("4x4 y=0110 three clauses", run(4, 4, (0, 1, 1, 0), 3, [[3], [0, 2], [3, 1, 0]]), {"cost": 9}))
    out.append(("300 negative samples", wide(310, 4, (1,) + (0,) * 300 + (1,) * 9, [[0], [3, 1]], ((0, 7, 300), range(4))), {"cost": 20}))
    out.append(("140 positive samples", wide(145, 3, (0,) * 3 + (1,) * 140 + (0,) * 2, [[2]], ((1, 142, 144), range(3))), {"cost": 20}))
    out.append(("70 features", wide(6, 70, (0, 1, 1, 0, 1, 0), [[69], [3, 65, 68], list(range(0, 70, 5)), [1, 33]],
                                   (range(6), (3, 5, 65, 69))), {"cost": 9}))
    out.append(("40 columns", wide(5, 7, (1, 0, 1, 0, 0), clauses(7, 1, 3)[:40], (range(5), (0, 6))), {"cost": 20}))
    for cls in ("BooleanDecisionRuleClassifier", "BooleanDecisionRuleClassifierWithHeuristic"):
        out.append((cls, through(cls, (1, 0, 1)), {}))
    return out
