"""C16 Exact tree pricing models value every path by its reduced cost."""
from props.dtpricing import *

LEVEL_NOTE = ("Decided over every assignment of the pricing model's variables, every data set of 2-3 rows (arbitrary values and "
              "thresholds), every real duals, weights 1-1000 and removed rows, every cut rows, for every leaf of depth 1-2 trees "
              "(single leaves of depth 3 thorough), 1-3 candidate splits per node, 2-3 labels and up to 2-3 updates with 0-2 cuts. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well. Long or large cases, with a few arbitrary values: 33 updates of one model, and 130 splits.")
ASSUMES = ["for the integer programs: the solver returns an exactly optimal solution of the model it was given",
           "for the constraint program: every solution shown to the callback is feasible", "weights are positive integers"]
BOUNDS = {"quick": "depth 1-2, 2-3 rows, 2 updates, <=2 cuts; many rows with a few arbitrary ones; 33 updates of one model, and 130 splits", "thorough": "depth 1-3, 3 rows, 3 updates, <=3 cuts; many rows with a few arbitrary ones"}

SCALE = 100000


def near(vm, a, b, tol):
    return AND(a - b <= tol, b - a <= tol)


def make(vm, kind, P, leaf, targets, rows, target=None):
    if kind == "mip":
        return vm.call(vm.dt.DTreeSubProblem, P.leaves[leaf], P.nodes, P.splits, list(targets), P.depth, rows)
    if kind == "cp":
        return vm.call(vm.dt.DTreeSubProblemSat, P.leaves[leaf], P.nodes, P.splits, list(targets), P.depth, rows)
    return vm.call(vm.dt.DTreeSubProblemOld, P.leaves[leaf], P.nodes, P.splits, target, P.depth, rows)


def run(kind, depth, leaf, n, feats, cands, y, updates, removed=(), weights=True, target=None, calls=None, rows_given=True, concrete=None):
    """updates: new cuts of each update; calls: the updates after which pricing is called (all by default)"""
    def h(vm):
        import numpy as np
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        nt = max(y) + 1
        targets = list(range(nt))
        S = len(feats)
        kept = [r for r in range(n) if r not in removed]
        weight = [vm.int_in("weight%d" % r, 1, 1000) if weights and rows_given else 1 for r in range(n)]
        rows = None
        if rows_given:
            rows = []
            for r in range(n):
                row = vm.dt.Row()
                row.id = r
                row.weight = weight[r]
                row.removed_from_sp = r in removed
                row.removed_from_master = r in removed
                rows.append(row)
        sp = make(vm, kind, P, leaf, targets, rows, target)
        Y = np.array(list(y))
        vm.hooks["draw_int"] = lambda k, a, b: a
        cuts = []
        for t, k in enumerate(updates):
            new = cut_sides(vm, "cut%d." % t, k, S)
            cuts += new
            D = Duals(vm, P, "d%d" % t, len(cuts), new)
            vm.call(sp.update_subproblem, P.X, Y, D.tup)
            if calls is not None and t not in calls:
                continue
            spec = Spec(vm, P, leaf, y, targets, D, list(cuts), kept, weight, target)
            (price_mip if kind != "cp" else price_cp)(vm, P, sp, Y, D, spec, kind, nt, "(update %d)" % t, "s%d" % t)
        P.check_unchanged()
    return h


def choice_conditions(v, roles):
    """row sides under an assignment of the u variables"""
    return {k: {a: EQ(v[i], 1) for a, i in d.items()} for k, d in roles.u.items()}


def value_of(spec, v, roles, with_alpha=True):
    """the reduced cost of the path an assignment chooses, and its cost"""
    P, d = spec.P, spec.d
    on = choice_conditions(v, roles)
    sides = walk(spec.leaf, P.depth)

    def fol(side):
        return AND([OR([AND(on[k][a], side(a) if left else NOT(side(a))) for a in P.cands[k]] or [False]) for k, left in sides])
    cost, parts = [0], []
    for r in spec.kept:
        f = fol(lambda a: P.side[r][a])
        right = (spec.y[r] == spec.fixed) if spec.fixed is not None else EQ(v[roles.w[spec.y[r]]], 1)
        cost.append(ITE(AND(f, right), spec.weight[r], 0))
        parts.append(ITE(f, -d.beta[r], 0))
    for c in range(len(spec.cuts)):
        parts.append(ITE(fol(lambda a: spec.cuts[c][a]), -d.delta[c], 0))
    for k, _ in sides:
        parts += [ITE(on[k][a], -d.gamma[spec.leaf][k][a], 0) for a in P.cands[k]]
    if with_alpha:
        parts.append(-d.alpha[spec.leaf])
    cost = SUM(cost)
    return cost + SUM(parts), cost


def one_hot(spec, v, roles):
    out = [EQ(SUM([v[i] for i in d.values()]), 1) for d in roles.u.values()]
    if spec.fixed is None:
        out.append(EQ(SUM([v[i] for i in roles.w]), 1))
    return AND(out)


def judge_path(vm, spec, p, v, roles, cost, what, guard=True):
    """the returned path is the one of the solution"""
    P = spec.P
    vm.check(IMPLIES(guard, vm.eq(p.leaf_id, spec.leaf)), "the path ends in the leaf " + what)
    ids = [vm.concrete(k) for _, k in vm.items(p.node_ids)]
    ks = [k for k, _ in walk(spec.leaf, P.depth)]
    vm.check(IMPLIES(guard, sorted(ids) == sorted(ks)), "the path has the nodes of the leaf " + what)
    sps = vm.items(p.splits)
    if sorted(ids) == sorted(ks):
        vm.check(IMPLIES(guard, EQ(seq_len(sps), len(ids))), "one split per node " + what)
        for j, k in enumerate(ids):
            for a in P.cands[k]:
                vm.check(IMPLIES(AND(guard, EQ(v[roles.u[k][a]], 1)), nth_is(sps, j, lambda s: EQ(s, a))),
                         "the path has the splits of the solution " + what)
    if spec.fixed is not None:
        vm.check(IMPLIES(guard, vm.eq(p.target, spec.fixed)), "the path has the target " + what)
    else:
        for t, i in enumerate(roles.w):
            vm.check(IMPLIES(guard, IFF(EQ(p.target, t), EQ(v[i], 1))), "the path has the target of the solution " + what)
    vm.check(IMPLIES(guard, vm.eq(p.cost, cost)), "the cost is the weighted number of correctly labelled rows " + what)


def price_mip(vm, P, sp, Y, D, spec, kind, nt, what, tag):
    seen = {}

    def solve(s):
        """judges the model, then returns an arbitrary optimal solution of it"""
        seen["s"] = s
        n = len(s._vars)
        v = [num01(b) for b in mplib.sym_values(vm, s, tag + "v")]
        ans = 0, v, [0] * len(s._cons), mplib.objective(s, v)
        roles = Roles(vm, sp, [x._name for x in s._vars], P, spec.leaf, nt, len(spec.cuts))
        vm.check(roles.ok, "the model has its variables " + what)
        if not roles.ok:
            return ans
        vm.check(s._obj._maximize, "maximisation " + what)
        for i in [i for d in roles.u.values() for i in d.values()] + ([i for i in roles.w if i is not None] if spec.fixed is None else []):
            vm.check(s._vars[i]._integer, "the choices are integer variables " + what)
        for c in P.choices(spec.leaf):
            for t in ([spec.fixed] if spec.fixed is not None else range(nt)):
                w = spec.point(n, roles, c, t)
                vm.check(mplib.feasible(s, w), "every choice of candidate splits and target is feasible " + what)
                vm.check(vm.eq(mplib.objective(s, w), spec.rc(c, t)), "and has its reduced cost as objective " + what)
        feas = mplib.feasible(s, v)
        rc, cost = value_of(spec, v, roles)
        vm.check(IMPLIES(feas, one_hot(spec, v, roles)), "feasible points choose one candidate split per node and one target " + what)
        vm.check(IMPLIES(feas, vm.le(mplib.objective(s, v), rc)), "no feasible point exceeds the reduced cost of its path " + what)
        vm.assume(feas)
        vm.assume(EQ(mplib.objective(s, v), rc))
        seen["v"] = v, roles, rc, cost
        return ans
    vm.hooks["mp_solve"] = solve
    got = vm.call(sp.generate_columns, P.X, Y, D.tup, "")
    vm.check("s" in seen, "the model is solved " + what)
    if "v" not in seen:
        return
    v, roles, rc, cost = seen["v"]
    res = vm.items(got)
    cnt = SUM([ITE(g, 1, 0) for g, _ in res] or [0])
    vm.check(vm.eq(cnt, ITE(rc > 1e-6, 1, 0)), "a path is returned iff its reduced cost exceeds the threshold " + what)
    for g, p in res:
        judge_path(vm, spec, p, v, roles, cost, what, g)


def price_cp(vm, P, sp, Y, D, spec, kind, nt, what, tag):
    seen = {}
    NSOL = 2

    def solve(solver, m, cb):
        """judges the model, then shows arbitrary solutions of it"""
        seen["m"] = m
        n = len(m._vars)
        vs = [[num(vm.bool("%s.%d.%d" % (tag, q, i))) if vm.sym else int(vm.bool("%s.%d.%d" % (tag, q, i))) for i in range(n)]
              for q in range(NSOL)]
        ans = 4, [(v, 0, 0) for v in vs], vs[-1], 0, 0, 0
        roles = Roles(vm, sp, [x._name for x in m._vars], P, spec.leaf, nt, len(spec.cuts))
        vm.check(roles.ok, "the model has its variables " + what)
        if not roles.ok:
            return ans
        vm.check(m._maximize, "maximisation " + what)
        zero = cp_objective(m, [0] * n)
        for c in P.choices(spec.leaf):
            for t in range(nt):
                w = spec.point(n, roles, c, t)
                vm.check(cp_feasible(m, w), "every choice of candidate splits and target is feasible " + what)
                half = SUM([0.5 * x if not isinstance(x, SYM) else ITE(EQ(x, 1), 0.5, 0) for x in w]) + (0 if vm.sym else 1e-6)
                vm.check(near(vm, cp_objective(m, w) - zero, SCALE * (spec.cost(c, t) + spec.parts(c)), half),
                         "and its objective is its reduced cost up to rounding of the coefficients and a constant " + what)
        for q, v in enumerate(vs):
            feas = cp_feasible(m, v)
            rc, cost = value_of(spec, v, roles, False)
            if q == 0:
                vm.check(IMPLIES(feas, one_hot(spec, v, roles)), "feasible points choose one candidate split per node and one target " + what)
                half = SUM([ITE(EQ(x, 1), 0.5, 0) for x in v]) + (0 if vm.sym else 1e-6)
                vm.check(IMPLIES(feas, cp_objective(m, v) - zero <= SCALE * rc + half), "no feasible point exceeds the reduced cost of its path " + what)
            vm.assume(feas)
        seen["v"] = vs, roles
        return ans
    vm.hooks["cp_solve"] = solve
    got = vm.call(sp.generate_columns, P.X, Y, D.tup, "")
    vm.check("m" in seen, "the model is solved " + what)
    if "v" not in seen:
        return
    vs, roles = seen["v"]
    full = [value_of(spec, v, roles) for v in vs]
    res = vm.items(got)
    want = [rc > 1e-6 for rc, _ in full]
    cnt = SUM([ITE(g, 1, 0) for g, _ in res] or [0])
    vm.check(vm.eq(cnt, SUM([ITE(c, 1, 0) for c in want])), "a path is returned per solution whose reduced cost exceeds the threshold " + what)
    # the returned paths belong to the improving solutions, in order
    for g, p in res:
        alts = []
        for q, v in enumerate(vs):
            alts.append(AND(want[q], path_is(vm, spec, p, v, roles, full[q][1])))
        vm.check(IMPLIES(g, OR(alts)), "a returned path is that of an improving solution, with its true cost " + what)
    for q, v in enumerate(vs):
        vm.check(IMPLIES(want[q], OR([AND(g, path_is(vm, spec, p, v, roles, full[q][1])) for g, p in res] or [False])),
                 "the path of every improving solution is returned, with its true cost " + what)


def path_is(vm, spec, p, v, roles, cost):
    P = spec.P
    ids = [vm.concrete(k) for _, k in vm.items(p.node_ids)]
    ks = [k for k, _ in walk(spec.leaf, P.depth)]
    sps = vm.items(p.splits)
    if sorted(ids) != sorted(ks):
        return False
    c = [vm.eq(p.leaf_id, spec.leaf), vm.eq(p.cost, cost), EQ(seq_len(sps), len(ids))]
    for j, k in enumerate(ids):
        c += [IMPLIES(EQ(v[roles.u[k][a]], 1), nth_is(sps, j, lambda s: EQ(s, a))) for a in P.cands[k]]
    c += [IFF(EQ(p.target, t), EQ(v[i], 1)) for t, i in enumerate(roles.w)]
    return AND(c)


C1 = {0: [0, 1, 2]}
C2 = {0: [0, 1], 1: [2, 0], 2: [1]}
C3 = {k: [k % 3, (k + 1) % 3] if k in (0, 2) else [k % 3] for k in range(7)}


def scenarios(tier):
    q = tier == "quick"
    out = []
    for kind, target in (("mip", None), ("cp", None), ("old", 0), ("old", 1)):
        nm = kind + ("" if target is None else " target %d" % target)
        for leaf in (0, 1):
            out.append((nm + " depth 1 leaf %d" % leaf, run(kind, 1, leaf, 2, (0, 0, 1), C1, (0, 1), [0, 1], target=target), {"cost": 4}))
        for leaf in range(4):
            out.append((nm + " depth 2 leaf %d" % leaf, run(kind, 2, leaf, 2, (0, 1, 0), C2, (1, 0), [1, 1] if leaf % 2 else [0, 1], target=target), {"cost": 8}))
        out.append((nm + " depth 2 removed rows", run(kind, 2, 1, 3, (0, 1, 0), C2, (0, 1, 0), [0, 0], removed=(1,), target=target), {"cost": 6}))
        out.append((nm + " depth 1 no row data", run(kind, 1, 0, 3, (0, 0, 1), C1, (0, 1, 1), [1], target=target, rows_given=False), {"cost": 4}))
        out.append((nm + " cuts before the first call", run(kind, 2, 2, 2, (0, 1, 0), C2, (0, 1), [1, 1], target=target, calls=(1,)), {"cost": 6}))
        out.append((nm + " depth 1 three rounds of cuts", run(kind, 1, 0, 1, (0, 0, 1), {0: [0, 2]}, (1 if target is None else target,), [1, 1, 1], target=target), {"cost": 4}))
        if kind != "old":
            out.append((nm + " depth 1 three labels", run(kind, 1, 1, 3, (0, 0, 1), C1, (0, 2, 1), [0, 0], target=target), {"cost": 6}))
        if not q:
            out.append((nm + " depth 2 three updates", run(kind, 2, 1, 3, (0, 1, 0), C2, (0, 1, 1), [0, 2, 1], target=target), {"cost": 40}))
            for leaf in (0, 2, 5, 7):
                out.append((nm + " depth 3 leaf %d" % leaf, run(kind, 3, leaf, 2, (0, 1, 0), C3, (0, 1), [0, 1], target=target), {"cost": 20}))
    for kind, target in (("mip", None), ("cp", None), ("old", 1)):
        y = [int(r % 3 == 1) for r in range(24)]
        out.append(("%s 24 rows" % kind, run(kind, 2, 1, 24, (0, 1, 0), {0: [0, 1], 1: [2, 0], 2: [1]}, y, [0, 1], removed=(3, 9), target=target,
                                             weights=False, concrete=many_rows(24, (0, 20), (2, 5, 3))), {"cost": 30}))
        # a long training: the model is updated over and over
        out.append(("%s 33 updates" % kind, run(kind, 1, 0, 1, (0, 1), {0: [0, 1]}, (1,), [1] + [0] * 32, target=target), {"cost": 20}))
    FM, DM = many_splits(3, 130, (0,))
    for kind, target in (("mip", None), ("cp", None), ("old", 1)):
        out.append(("%s 130 splits" % kind, run(kind, 2, 1, 3, FM, {0: [0, 120, 5], 1: [129, 20], 2: [101, 1]}, (0, 1, 1), [0, 1], target=target, concrete=DM), {"cost": 20}))
    return out
