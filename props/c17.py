"""C17 Tree pricing and tree master agree on the reduced cost of every path."""
from props.dtmaster import *
from props.dtpricing import *
from props import mplib

LEVEL_NOTE = ("Decided for every dual vector the LP solver may report (any real per constraint), every data set of 1-3 rows with "
              "arbitrary values and thresholds, depth 1-2 trees, every path of candidate splits, and histories in which row "
              "constraints are built at once, dropped, or added lazily, cuts are generated, and columns are added between solves; "
              "the tree master and the pricing objects are the real ones, linked by what solve_rmp returns. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well. Long or large cases, with a few arbitrary values: 130 splits.")
ASSUMES = ["initial paths use candidate splits of their nodes", "splits on one feature have different thresholds",
           "a row removed from the pricing problems has no constraint in the master (C19)",
           "solutions shown while cuts are generated satisfy the cut model"]
BOUNDS = {"quick": "depth 1-2, 1-3 rows, 2 solves, <=2 cuts; many rows with a few arbitrary ones; 130 splits", "thorough": "depth 1-2, 2-3 rows, 3 solves, <=3 cuts; many rows with a few arbitrary ones"}

SCALE = 100000


def master_rc(mp, path, cost):
    """cost of a column minus the duals of the constraints it enters"""
    s = mp.solver_
    i = path.id
    out = [cost]
    for g, con in mplib.rows(s):
        c = mplib.coef(con._coefs, i)
        out.append(ITE(g, -(c * con._dual), 0))
    return SUM(out)


class World:
    """A master and the history of its solves."""

    def __init__(self, vm, P, mode, y, initial, weight, removed, rounds=0):
        self.vm, self.P, self.y, self.mode = vm, P, y, mode
        allp = all_paths(P)
        specs = [allp[i % len(allp)] for i in initial]
        rows = None
        self.rows = None
        if mode != "auto":
            rm = [r in removed for r in range(P.n)]
            drop = list(rm)
            if mode == "given":
                # more rows may be dropped from the master alone
                drop = [True if rm[r] else vm.bool("row %d dropped" % r) for r in range(P.n)]
            rows = data_rows(vm, P.n, drop, rm, weight)
            self.rows = rows
        self.weight = weight
        self.kept = [r for r in range(P.n) if r not in removed]
        costs = [self.cost(l, c, 0) for l, c in specs]
        self.mp, self.paths, self.Y = build(vm, P, specs, costs, [0] * len(specs), y, rows, lazy=mode == "lazy", cuts=mode == "cuts", rounds=rounds)
        self.t = 0
        self.log = []

    def cost(self, l, c, t):
        P = self.P
        return SUM([ITE(P.follows(r, l, c), self.weight[r], 0) for r in self.kept if self.y[r] == t] or [0])

    def solve(self, cuts=0):
        """one master solve with arbitrary duals; the cut model shows that many solutions"""
        vm = self.vm
        self.t += 1
        t = self.t
        k = {"n": 0}

        def hook(s):
            k["n"] += 1
            tag = "solve%d.%d" % (t, k["n"])
            vals = [vm.real_in("%s.v%d" % (tag, i), 0) for i in range(len(s._vars))] if cuts or self.mode == "lazy" else [0] * len(s._vars)
            return 0, vals, [vm.real("%s.d%d" % (tag, j)) for j in range(len(s._cons))], 0

        def cp(solver, m, cb):
            sols = []
            for q in range(cuts):
                v = [num01(vm.bool("solve%d.%d.cut%d.%d" % (t, k["n"], q, i))) for i in range(len(m._vars))]
                vm.assume(cp_feasible(m, v))
                sols.append((v, 0, 0))
            return 4, sols, sols[-1][0], 0, 0, 0
        vm.hooks["mp_solve"] = hook
        vm.hooks["cp_solve"] = cp
        f = vm.split if cuts else vm.call
        return f(self.mp.solve_rmp, "")


def num01(v):
    return mplib.num01(v)


def compare(vm, a, b, what):
    vm.check(vm.eq(a, b), what)


def price(vm, W, sp, kind, leaf, D, t, what):
    """{(leaf, choice index, target): reduced cost the pricing assigns}, for the exact models up to tol"""
    P = W.P
    out = []
    nt = max(W.y) + 1
    if kind == "heur":
        for l in range(2 ** P.depth):
            for c in P.choices(l):
                for tg in range(nt):
                    p = P.path(l, c, tg, W.cost(l, c, tg))
                    fol = [P.follows(r, l, c) for r in range(P.n)]
                    out.append((l, c, tg, vm.call(sp.get_reduced_cost, P.X, W.Y, D, p, fol), 0))
        return out
    seen = {}
    if kind == "cp":
        def solve(solver, m, cb):
            seen["m"] = m
            return 3, [], [0] * len(m._vars), 0, 0, 0
        vm.hooks["cp_solve"] = solve
    else:
        def solve(s):
            seen["m"] = s
            return 0, [0] * len(s._vars), [0] * len(s._cons), 0
        vm.hooks["mp_solve"] = solve
    vm.call(sp.generate_columns, P.X, W.Y, D, "")
    vm.check("m" in seen, "the model is solved " + what)
    if "m" not in seen:
        return out
    m = seen["m"]
    n = len(m._vars)
    ncuts = len(W.sides)
    roles = Roles(vm, sp, [v._name for v in m._vars], P, leaf, nt, ncuts)
    vm.check(roles.ok, "the model has its variables " + what)
    if not roles.ok:
        return out
    spec = Spec(vm, P, leaf, W.y, list(range(nt)), None, W.sides, W.kept, W.weight, sp.target_ if kind == "old" else None)
    zero = cp_objective(m, [0] * n) if kind == "cp" else 0
    for c in P.choices(leaf):
        for tg in ([spec.fixed] if kind == "old" else range(nt)):
            w = spec.point(n, roles, c, tg)
            if kind == "cp":
                vm.check(cp_feasible(m, w), "the path is a solution of the model " + what)
                half = SUM([0.5 * x if not isinstance(x, SYM) else ITE(EQ(x, 1), 0.5, 0) for x in w]) + (0 if vm.sym else 1e-6)
                out.append((leaf, c, tg, cp_objective(m, w) - zero, half))
            else:
                vm.check(mplib.feasible(m, w), "the path is a solution of the model " + what)
                out.append((leaf, c, tg, mplib.objective(m, w), 0))
    return out


def run(kind, mode, depth, n, feats, cands, y, initial, solves, leaf=None, removed=(), concrete=None, target=0, weights=True, again=True):
    """solves: number of cuts shown at each master solve judged (0: an ordinary solve)"""
    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        weight = [vm.int_in("weight%d" % r, 1, 1000) if weights and mode != "auto" else 1 for r in range(n)]
        rounds = 1 if mode in ("lazy", "cuts") else 0
        W = World(vm, P, mode, y, initial, weight, removed, rounds)
        mp = W.mp
        W.sides = []
        nt = max(y) + 1
        if kind == "heur":
            sp = vm.call(vm.dt.DTreeSubProblemHeuristic, P.leaves, P.nodes, P.splits, list(range(nt)), depth, W.rows)
        elif kind == "mip":
            sp = vm.call(vm.dt.DTreeSubProblem, P.leaves[leaf], P.nodes, P.splits, list(range(nt)), depth, W.rows)
        elif kind == "cp":
            sp = vm.call(vm.dt.DTreeSubProblemSat, P.leaves[leaf], P.nodes, P.splits, list(range(nt)), depth, W.rows)
        else:
            sp = vm.call(vm.dt.DTreeSubProblemOld, P.leaves[leaf], P.nodes, P.splits, target, depth, W.rows)
        vm.hooks["draw_int"] = lambda k, a, b: a
        for t, cuts in enumerate(solves):
            what = "(solve %d)" % t
            if (cuts or mode == "lazy") and t < 2:
                # the tenth and the twentieth solve look for cuts
                ordinary(vm, W, 9)
            D = W.solve(cuts)
            new = [e for _, e in vm.items(D[4])]
            W.sides += [[e for _, e in vm.items(row)] for row in new]
            vm.call(sp.update_subproblem, P.X, W.Y, D)
            got = price(vm, W, sp, kind, leaf, D, t, what)
            for l, c, tg, rc, tol in got:
                cost = W.cost(l, c, tg)
                p = P.path(l, c, tg, cost)
                vm.call(mp.add_column, p)
                W.paths.append(p)
                true = master_rc(mp, p, p.cost)
                vm.check(vm.eq(p.cost, cost), "the cost of a path is left alone " + what)
                obj = mplib.coef(mp.solver_._obj._coefs, p.id)
                vm.check(vm.eq(obj, cost), "the column has the path's cost " + what)
                if kind == "cp":
                    # the objective leaves out the leaf dual and is scaled and rounded
                    d = rc - SCALE * (true + leaf_dual(D, l))
                    vm.check(AND(d <= tol, -d <= tol), "the model's value of a path is its reduced cost in the master, up to rounding " + what)
                else:
                    vm.check(vm.eq(rc, true), "the pricing's value of a path is its reduced cost in the master " + what)
    return h


def leaf_dual(D, l):
    return D[0][l]


def ordinary(vm, W, k):
    vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
    for _ in range(k):
        vm.call(W.mp.solve_rmp, "")


C1 = {0: [0, 1, 2]}
C2 = {0: [0, 1], 1: [2, 0], 2: [1]}
XS = [[0, 5], [3, 1], [6, 6], [2, 2]]
TS = [1, 4, 2]


def scenarios(tier):
    q = tier == "quick"
    F = (0, 0, 1)
    out = []
    for kind, leaves in (("heur", [None]), ("mip", [0, 1]), ("cp", [0, 1]), ("old", [0, 1])):
        for leaf in leaves:
            nm = kind if leaf is None else "%s leaf %d" % (kind, leaf)
            for mode in ("none", "given", "auto", "lazy"):
                out.append(("%s %s depth 1" % (nm, mode), run(kind, mode, 1, 2, F, C1, (0, 1), [0, 3, 4], [0, 0], leaf=leaf, target=1), {"cost": 4}))
            out.append(("%s cuts depth 1" % nm, run(kind, "cuts", 1, 1, F, {0: [0, 2]}, (0,), [0, 3], [1, 0, 0], leaf=leaf), {"cost": 6}))
            if not (q and leaf):
                out.append(("%s two cuts depth 1" % nm, run(kind, "cuts", 1, 1, F, {0: [2, 0]}, (0,), [0, 3], [1, 1, 0], leaf=leaf, concrete=(XS[:1], TS)), {"cost": 6}))
    for kind, leaves in (("heur", [None]), ("mip", range(4)), ("cp", range(4)), ("old", range(4))):
        for leaf in leaves:
            nm = kind if leaf is None else "%s leaf %d" % (kind, leaf)
            for mode in ("none", "given", "auto"):
                if leaf and (leaf + len(mode)) % 2:
                    continue
                out.append(("%s %s depth 2" % (nm, mode), run(kind, mode, 2, 2, F, C2, (1, 0), [0, 4, 6, 9], [0, 0], leaf=leaf, target=1), {"cost": 8}))
            out.append(("%s removed depth 2" % nm, run(kind, "given", 2, 3, F, C2, (1, 0, 1), [0, 4, 6, 9], [0], leaf=leaf, target=1, removed=(1,)), {"cost": 8}))
            out.append(("%s lazy depth 2" % nm, run(kind, "lazy", 2, 2, F, C2, (1, 0), [0, 4, 6, 9], [0, 0], leaf=leaf, target=1), {"cost": 20}))
            out.append(("%s cuts depth 2" % nm, run(kind, "cuts", 2, 1, F, C2, (0,), [0, 4, 6, 9], [1, 0], leaf=leaf, concrete=(XS[:1], TS)), {"cost": 20}))
            if not q:
                for mode in ("none", "given", "auto", "lazy"):
                    out.append(("%s %s three rows" % (nm, mode), run(kind, mode, 2, 3, F, C2, (1, 0, 0), [0, 4, 6, 9], [0, 0, 0], leaf=leaf), {"cost": 60}))
                out.append(("%s two cuts depth 2" % nm, run(kind, "cuts", 2, 1, F, C2, (0,), [0, 4, 6, 9], [2, 0], leaf=leaf, concrete=(XS[:1], TS)), {"cost": 60}))
                out.append(("%s cuts depth 2 any data" % nm, run(kind, "cuts", 2, 2, F, {0: [0], 1: [2], 2: [1, 0]}, (0, 1), [0, 2, 4, 5], [1, 0], leaf=leaf), {"cost": 60}))
    for kind, leaf in (("heur", None), ("mip", 1), ("cp", 2), ("old", 0)):
        for mode in ("given",):
            y = [int(r % 3 == 1) for r in range(20)]
            out.append(("%s %s 20 rows" % (kind, mode), run(kind, mode, 2, 20, F, C2, y, [0, 4, 6, 9], [0], leaf=leaf, target=1, weights=False,
                                                              concrete=many_rows(20, (0, 15), (2, 5, 3))), {"cost": 30}))
    FM, DM = many_splits(2, 130, (0,))
    for kind, leaf in (("heur", None), ("mip", 1), ("cp", 2), ("old", 0)):
        out.append(("%s 130 splits" % kind, run(kind, "given", 2, 2, FM, {0: [0, 120], 1: [129, 20], 2: [101]}, (1, 0), [0, 4, 6, 9], [0, 0], leaf=leaf, target=1,
                                                concrete=DM), {"cost": 20}))
        out.append(("%s same candidates" % kind, run(kind, "given", 2, 2, (0, 1), {0: [0, 1], 1: [0, 1], 2: [0, 1]}, (1, 0), [0, 4, 8, 12, 1, 2, 5, 6], [0], leaf=leaf, target=1),
                    {"cost": 20}))
    return out
