"""C25 Generated cuts are valid for every tree and priced consistently."""
from props.dtmaster import *
from props.dtpricing import *
from props import mplib
from props.c15 import gdump, unchanged

LEVEL_NOTE = ("Decided over every assignment of the cut model's variables and every real thresholds (2-4 splits on 1-2 features), "
              "every real path values of the LP solution, every pair of solutions shown while cuts are generated, depth 1-2 trees, "
              "1-2 rounds of cuts with columns added before, between and after, and every assignment of the pricing models' variables. Long or large cases, with a few arbitrary values: 12 and 40 rounds of cuts, all but the last given.")
ASSUMES = ["splits on one feature have different thresholds", "solutions shown while cuts are generated satisfy the cut model",
           "paths use candidate splits of their nodes"]
BOUNDS = {"quick": "depth 1-2, 3-4 splits, 2-8 paths, 2 solutions per round, 2 rounds; 12 and 40 rounds of cuts, all but the last given", "thorough": "depth 1-3, 4-5 splits, up to 12 paths, 3 solutions per round, 2 rounds"}


def num01(v):
    return mplib.num01(v)


def idx(vm, v):
    return vm.concrete(resolve(v)._index)


def sides_of(v, split_ids):
    return [EQ(v[i], 1) for i in split_ids]


def follows(P, side, leaf, choice):
    return AND([side[a] if left else NOT(side[a]) for a, left in P.spec(leaf, choice)])


def monotone(P, side):
    """some feature values have these sides: on one feature, a lower threshold passed is a higher one passed"""
    return AND([IMPLIES(AND(P.ts[a] < P.ts[b], side[a]), side[b]) for a in range(len(P.feats)) for b in range(len(P.feats))
                if a != b and P.feats[a] == P.feats[b]])


def setup(vm, depth, feats, cands, initial, added, rounds=0, given=None):
    P = Problem(vm, 1, depth, feats, cands, concrete=([[0] * (max(feats) + 1)], given) if given else None)
    allp = all_paths(P)
    specs = [allp[i % len(allp)] for i in initial]
    mp, paths, Y = build(vm, P, specs, [0] * len(specs), [0] * len(specs), (0,), data_rows(vm, 1), cuts=True, rounds=rounds)
    more = [allp[i % len(allp)] for i in added]
    return P, mp, paths, specs, more, Y


def add(vm, P, mp, paths, specs, more):
    for l, c in more:
        p = P.path(l, c, 0, 0)
        vm.call(mp.add_column, p)
        paths.append(p)
        specs.append((l, c))


def roles_of(vm, mp):
    m = mp.cut_gen_model_
    sp = [idx(vm, v) for _, v in vm.items(mp.cut_split_vars_)]
    pp = [idx(vm, v) for _, v in vm.items(mp.cut_path_vars_)]
    return m, sp, pp


def judge_model(vm, P, mp, specs, what):
    m, sv, pv = roles_of(vm, mp)
    ok = len(sv) == len(P.feats) and len(pv) == len(specs) and len(set(sv + pv)) == len(sv) + len(pv) == len(m._vars)
    vm.check(ok, "one variable per split and path " + what)
    if not ok:
        return
    n = len(m._vars)
    # sound: what is admitted is consistent and marked right
    v = [num01(vm.bool("%s.v%d" % (what, i))) for i in range(n)]
    side = sides_of(v, sv)
    feas = cp_feasible(m, v)
    vm.check(IMPLIES(feas, monotone(P, side)), "only sides of real feature values are admitted " + what)
    for (l, c), i in zip(specs, pv):
        vm.check(IMPLIES(feas, IFF(EQ(v[i], 1), follows(P, side, l, c))), "exactly the followed paths are marked " + what)
    # complete: every row is admitted
    x = [vm.real("%s.x%d" % (what, f)) for f in range(max(P.feats) + 1)]
    side = [x[f] <= t for f, t in zip(P.feats, P.ts)]
    w = [0] * n
    for i, s in zip(sv, side):
        w[i] = num01(s)
    for (l, c), i in zip(specs, pv):
        w[i] = num01(follows(P, side, l, c))
    vm.check(cp_feasible(m, w), "every row is admitted " + what)
    # every consistent assignment of sides is that of some feature values
    for i in sv + pv:
        vm.check(AND(EQ(m._vars[i]._lb, 0), EQ(m._vars[i]._ub, 1)), "variables are binary " + what)


def model(depth, feats, cands, initial, added, given=None):
    def h(vm):
        P, mp, paths, specs, more, Y = setup(vm, depth, feats, cands, initial, added, given=given)
        judge_model(vm, P, mp, specs, "initial")
        add(vm, P, mp, paths, specs, more)
        judge_model(vm, P, mp, specs, "later")
        P.check_unchanged()
    return h


def ordinary(vm, mp, k):
    vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
    for _ in range(k):
        vm.call(mp.solve_rmp, "")


def rounds(depth, feats, cands, initial, added, between, later, sols, nrounds=1, given=None, pricing=(), per=1, known=0):
    """known: in the first rounds the LP values and the solutions shown are given; sols: solutions shown per search; nrounds: solves that look for cuts; per: searches per such solve"""
    def h(vm):
        P, mp, paths, specs, more, Y = setup(vm, depth, feats, cands, initial, added, per, given)
        add(vm, P, mp, paths, specs, more)
        s = mp.solver_
        cuts = []           # sides of every cut
        base = len(s._cons)
        sps = []
        for kind, leaf in pricing:
            if kind == "mip":
                sps.append((kind, leaf, vm.call(vm.dt.DTreeSubProblem, P.leaves[leaf], P.nodes, P.splits, [0], depth, mp.data_rows)))
            elif kind == "cp":
                sps.append((kind, leaf, vm.call(vm.dt.DTreeSubProblemSat, P.leaves[leaf], P.nodes, P.splits, [0], depth, mp.data_rows)))
            elif kind == "old":
                sps.append((kind, leaf, vm.call(vm.dt.DTreeSubProblemOld, P.leaves[leaf], P.nodes, P.splits, 0, depth, mp.data_rows)))
            else:
                sps.append((kind, leaf, vm.call(vm.dt.DTreeSubProblemHeuristic, P.leaves, P.nodes, P.splits, [0], depth, mp.data_rows)))
        for t in range(nrounds):
            what = "(round %d)" % t
            ids = path_ids(vm, mp, paths)
            if ids is None:
                return
            ordinary(vm, mp, 9)
            vm.check(len(s._cons) == base + len(cuts), "no cuts are added before the tenth iteration " + what)
            before = gdump(s)
            x, log = [], []

            def hook(s, t=t):
                k = len(x)
                if t < known:
                    x.append([2] * len(s._vars))
                    return 0, list(x[-1]), [0] * len(s._cons), 0
                x.append([vm.real_in("r%d.lp%d.v%d" % (t, k, i), 0) for i in range(len(s._vars))])
                return 0, list(x[-1]), [0] * len(s._cons), 0

            def cp(solver, m, cb, t=t):
                k = len(log)
                if t < known:
                    _, sv, pv = roles_of(vm, mp)
                    side = [(t >> i) % 2 == 0 for i in range(len(sv))]
                    one = [0] * len(m._vars)
                    for i, b in zip(sv, side):
                        one[i] = int(b)
                    for (l, c), i in zip(specs, pv):
                        one[i] = int(all(side[a] == left for a, left in P.spec(l, c)))
                    log.append(([one], vm.concrete(m._maximize)))
                    return 4, [(one, 0, 0)], one, 0, 0, 0
                out = [[num01(vm.bool("r%d.s%d.%d.%d" % (t, k, q, i))) for i in range(len(m._vars))] for q in range(sols)]
                for v in out:
                    vm.assume(cp_feasible(m, v))
                log.append((out, vm.concrete(m._maximize)))
                return 4, [(v, 0, 0) for v in out], out[-1], 0, 0, 0
            vm.hooks["mp_solve"] = hook
            vm.hooks["cp_solve"] = cp
            D = vm.split(mp.solve_rmp, "")
            vm.check(1 <= len(log) <= per, "cuts are looked for, once per round " + what)
            new = [[e for _, e in vm.items(row)] for _, row in vm.items(D[4])]
            _, sv, pv = roles_of(vm, mp)
            vm.check(len(pv) == len(specs), "one variable per path " + what)
            if len(pv) != len(specs):
                return
            want, at = [], 0
            for k, (out, maximize) in enumerate(log):
                vm.check(maximize, "the search maximises " + what)
                got_here = 0
                for v in out:
                    total = SUM([ITE(EQ(v[p], 1), x[k][i], 0) for p, i in zip(pv, ids)])
                    bad = total > 1 + 1e-6
                    # decided on this path already
                    if vm.fork(bad):
                        want.append(sides_of(v, sv))
                        got_here += 1
                if k < len(log) - 1:
                    vm.check(got_here > 0, "the search goes on only after new cuts " + what)
            vm.check(len(new) == len(want), "every solution followed by more than one path becomes a cut, and no other " + what)
            if len(new) != len(want):
                return
            for a, b in zip(new, want):
                vm.check(len(a) == len(b) and AND([IFF(EQ(p, 1) if not isinstance(p, (bool, SymBool)) else p, q) for p, q in zip(a, b)]), "with the sides of the solution " + what)
            cuts += want
            vm.check(unchanged(vm, before, gdump(s)), "a round changes no existing row or column " + what)
            vm.check(len(s._cons) == base + len(cuts), "one constraint per cut " + what)
            if len(s._cons) != base + len(cuts):
                return
            judge_cuts(vm, P, s, base, cuts, specs, ids, what)
            vm.check(len(D[3]) == len(cuts), "one dual per cut " + what)
            for kind, leaf, sp in sps:
                vm.call(sp.update_subproblem, P.X, Y, D)
                judge_pricing(vm, P, sp, kind, leaf, cuts, Y, D, "%s %s" % (kind, what), "p%d.%s%s" % (t, kind, leaf))
            add(vm, P, mp, paths, specs, [all_paths(P)[i % len(all_paths(P))] for i in (between if t < nrounds - 1 else later)])
            ids = path_ids(vm, mp, paths)
            if ids is None:
                return
            judge_cuts(vm, P, s, base, cuts, specs, ids, "later " + what)
        judge_model(vm, P, mp, specs, "end")
    return h


def judge_cuts(vm, P, s, base, cuts, specs, ids, what):
    for side, (g, con) in zip(cuts, [(guard_of(c), val_of(c)) for c in s._cons[base:]]):
        vm.check(AND(g, EQ(con._lb, 1), EQ(con._ub, 1)), "a cut is an equality " + what)
        for (l, c), i in zip(specs, ids):
            vm.check(EQ(mplib.coef(con._coefs, i), ITE(follows(P, side, l, c), 1, 0)), "over exactly the followed paths " + what)
        for i in resolve(con._coefs):
            if i not in ids:
                vm.check(EQ(mplib.coef(con._coefs, i), 0), "and nothing else " + what)


def judge_pricing(vm, P, sp, kind, leaf, cuts, Y, D, what, tag):
    if kind == "heur":
        for l, c in all_paths(P):
            p = P.path(l, c, 0, 0)
            got = vm.call(vm.dt.get_satisfied_cuts, p, P.leaves[l], P.splits)
            for q, side in enumerate(cuts):
                vm.check(IFF(vm.member(got, q), follows(P, side, l, c)), "a path's cuts are those whose rows follow it " + what)
            for g, e in vm.items(got):
                vm.check(IMPLIES(g, AND(e >= 0, e < len(cuts))), "and nothing else " + what)
        return
    seen = {}

    def cps(solver, m, cb):
        seen["m"] = m
        return 3, [], [0] * len(m._vars), 0, 0, 0

    def mps(s):
        seen["m"] = s
        return 0, [0] * len(s._vars), [0] * len(s._cons), 0
    vm.hooks["cp_solve" if kind == "cp" else "mp_solve"] = cps if kind == "cp" else mps
    vm.hooks["draw_int"] = lambda k, a, b: a
    vm.call(sp.generate_columns, P.X, Y, D, "")
    vm.check("m" in seen, "the model is solved " + what)
    if "m" not in seen:
        return
    m = seen["m"]
    n = len(m._vars)
    roles = Roles(vm, sp, [v._name for v in m._vars], P, leaf, 1, len(cuts))
    vm.check(roles.ok, "the model has its variables " + what)
    if not roles.ok:
        return
    v = [num01(vm.bool("%s.%d" % (tag, i))) for i in range(n)]
    feas = cp_feasible(m, v) if kind == "cp" else mplib.feasible(m, v)
    for k, d in roles.u.items():
        vm.check(IMPLIES(feas, EQ(SUM([v[i] for i in d.values()]), 1)), "one split per node " + what)
    for q, side in enumerate(cuts):
        fol = AND([OR([AND(EQ(v[roles.u[k][a]], 1), side[a] if left else NOT(side[a])) for a in P.cands[k]] or [False])
                   for k, left in walk(leaf, P.depth)])
        vm.check(IMPLIES(feas, IFF(EQ(v[roles.yc[q]], 1), fol)), "the cut is marked exactly when its row follows the path " + what)


def scenarios(tier):
    q = tier == "quick"
    F = (0, 0, 1)
    C1 = {0: [0, 1, 2]}
    C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
    T = [1, 4, 2]
    out = []
    out.append(("model depth 1", model(1, F, C1, [0, 3], [1, 4, 2, 5, 1]), {"cost": 2}))
    out.append(("model depth 1 one feature", model(1, (0, 0, 0), C1, [0, 3], [1, 4]), {"cost": 2}))
    out.append(("model depth 2", model(2, F, C2, [0, 4, 8, 12, 9], [1, 7, 10, 15]), {"cost": 4}))
    out.append(("model depth 2 four splits", model(2, (0, 1, 0, 0), {0: [3, 1], 1: [2, 0], 2: [1, 3]}, [0, 4, 8, 12], [1, 7, 10, 15]), {"cost": 4}))
    out.append(("model depth 2 a feature without candidates", model(2, (1, 0, 1, 0), {0: [0], 1: [2], 2: [0]}, [0, 1, 2, 3], [1]), {"cost": 4}))
    out.append(("model depth 3", model(3, (0, 1, 0, 1), {k: [k % 4, (k + 1) % 4] for k in range(7)}, [0, 8, 19, 27, 36, 44, 53, 62], [1, 10], given=[3, 1, 2, 4]), {"cost": 4}))
    H = [("heur", None)]
    out.append(("round depth 1", rounds(1, F, C1, [0, 3], [4], [], [1, 5], 1, pricing=H + [("mip", 0), ("cp", 1), ("old", 0)]), {"cost": 10}))
    out.append(("round depth 1 two solutions", rounds(1, (0, 0), {0: [0, 1]}, [0, 3], [1], [], [2, 0], 2, pricing=H + [("mip", 1), ("cp", 0), ("old", 1)]), {"cost": 20}))
    out.append(("two rounds depth 1", rounds(1, (0, 0), {0: [0, 1]}, [0, 3], [], [1], [2, 0], 1, nrounds=2, given=[4, 1], pricing=H + [("mip", 0), ("cp", 0), ("old", 0)]), {"cost": 20}))
    out.append(("two searches depth 1", rounds(1, (0, 0), {0: [0, 1]}, [0, 3], [1], [], [2, 0], 1, per=2, given=[1, 4], pricing=H + [("mip", 0), ("cp", 1)]), {"cost": 20}))
    out.append(("round depth 2", rounds(2, F, C2, [0, 4, 8, 12], [], [], [1, 7, 10], 1, given=T, pricing=H + [("mip", 1), ("cp", 2), ("old", 3)]), {"cost": 20}))
    out.append(("two rounds depth 2", rounds(2, (0, 1), {0: [0], 1: [1], 2: [1]}, [0, 1, 2, 3], [], [1], [2, 0], 1, nrounds=2, given=[4, 1],
                                             pricing=H + [("mip", 0), ("cp", 1), ("old", 2)]), {"cost": 20}))
    out.append(("three rounds depth 1 one split", rounds(1, (0,), {0: [0]}, [0, 1], [], [], [0, 1], 1, nrounds=3, given=[1], pricing=H + [("mip", 0), ("cp", 1), ("old", 0)]), {"cost": 20}))
    out.append(("twelve rounds depth 1 one split", rounds(1, (0,), {0: [0]}, [0, 1], [], [], [0, 1], 1, nrounds=12, known=11, given=[1], pricing=H + [("mip", 0), ("cp", 1), ("old", 0)]), {"cost": 20}))
    out.append(("forty rounds depth 1 two splits", rounds(1, (0, 1), {0: [0, 1]}, [0, 3], [], [], [1, 2], 1, nrounds=40, known=39, given=[1, 4], pricing=H), {"cost": 20}))
    if not q:
        for leaf in range(4):
            out.append(("round depth 2 leaf %d" % leaf, rounds(2, F, C2, [0, 4, 8, 12], [2], [], [1, 7, 10], 1, pricing=[(k, leaf) for k in ("mip", "cp", "old")]), {"cost": 60}))
            out.append(("round depth 2 two solutions leaf %d" % leaf, rounds(2, F, C2, [0, 4, 8, 12], [], [], [1, 7, 10], 2, given=T, pricing=[(k, leaf) for k in ("mip", "cp", "old")]), {"cost": 60}))
        out.append(("round depth 1 three solutions", rounds(1, (0, 0), {0: [0, 1]}, [0, 3], [1], [], [2, 0], 3, given=[1, 4], pricing=H + [("mip", 1), ("cp", 0), ("old", 1)]), {"cost": 60}))
        out.append(("two rounds depth 1 two solutions", rounds(1, (0, 0), {0: [0, 1]}, [0, 3], [], [1], [2, 0], 2, nrounds=2, given=[4, 1], pricing=H + [("mip", 0), ("cp", 0), ("old", 0)]), {"cost": 80}))
        out.append(("three rounds depth 1", rounds(1, (0, 1), {0: [0, 1]}, [0, 3], [], [1], [2, 0], 1, nrounds=3, given=[4, 1], pricing=H + [("mip", 0), ("cp", 0), ("old", 0)]), {"cost": 80}))
        out.append(("model depth 2 five splits", model(2, (0, 1, 0, 0, 1), {0: [3, 1, 4], 1: [2, 0], 2: [1, 3]}, [0, 4, 8, 12], [1, 7, 10, 15]), {"cost": 20}))
    return out
