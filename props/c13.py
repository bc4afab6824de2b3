"""C13 The tree master equals the published LP, built at once or column by column."""
from props.dtmaster import *

LEVEL_NOTE = ("Decided over every real point of the path variables for every data set (2-3 rows, arbitrary real values and "
              "thresholds, so every pattern of sides), trees of depth 1-2 (3 thorough, fixed patterns), 2-3 candidate splits per node, arbitrary real path costs, "
              "and histories of initial paths followed by up to 6 added ones, repeated paths included. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well. Long or large cases, with a few arbitrary values: 130 splits.")
ASSUMES = ["initial paths use candidate splits of their nodes", "splits on one feature have different thresholds"]
BOUNDS = {"quick": "depth 1-2, 2-3 rows, 4-10 paths; many rows with a few arbitrary ones; 130 splits", "thorough": "depth 1-3, 3 rows, up to 16 paths; many rows with a few arbitrary ones"}


def judge(vm, P, mp, paths, specs, costs, kept, what):
    """kept: row -> condition, or None for all rows"""
    ids = path_ids(vm, mp, paths)
    if ids is None:
        return
    s = mp.solver_
    vm.check(s._obj._maximize, "maximisation " + what)
    n = len(s._vars)
    v = [vm.real("%s.v%d" % (what, i)) for i in range(n)]
    x = [v[i] for i in ids]
    rowmap = {r: True for r in range(P.n)} if kept is None else kept
    published = AND(nonneg(x), alpha(P, specs, x), gamma(P, specs, x), beta(P, specs, x, rowmap))
    ok = feasible(s, v)
    vm.check(IMPLIES(ok, published), "feasible points of the master are feasible in the published problem " + what)
    w = complete(s, dict(zip(ids, x)))
    vm.check(IMPLIES(published, feasible(s, w)), "feasible points of the published problem are feasible in the master " + what)
    vm.check(vm.eq(objective(s, v), SUM([c * a for c, a in zip(costs, x)])), "the objective is the sum of the costs of the paths " + what)
    for i in ids:
        vm.check(s._vars[i]._integer, "path variables are integer variables " + what)


def run(depth, n, feats, cands, initial, added, mode, y=None, stages=1, concrete=None):
    """mode: auto (preprocessing drops rows), given (rows flagged by the caller), none (rows flagged none), lazy (no row constraints)"""
    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        allp = all_paths(P)
        specs = [allp[i % len(allp)] for i in initial]
        more = [allp[i % len(allp)] for i in added]
        # the costs of the paths are numbers of any kind (weights need not be whole)
        costs = [vm.real_in("cost%d" % i, 0, 20) if i % 2 == 0 or i >= len(specs) else vm.int_in("cost%d" % i, 0, 20)
                 for i in range(len(specs) + len(more))]
        yy = y or [i % 2 for i in range(n)]
        kept, rows_ = None, None
        if mode == "given":
            rm = [vm.bool("row %d dropped" % r) for r in range(n)]
            rows_ = data_rows(vm, n, rm, weight=[vm.int_in("weight%d" % r, 1, 1000) for r in range(n)])
            kept = {r: NOT(rm[r]) for r in range(n)}
        elif mode == "none":
            rows_ = data_rows(vm, n, weight=[2 + r for r in range(n)])
        elif mode == "lazy":
            rows_ = data_rows(vm, n)
            kept = {}
        mp, paths, Y = build(vm, P, specs, costs[:len(specs)], [i % 2 for i in range(len(specs))], yy, rows_, lazy=mode == "lazy")
        if stages > 1 or not more:
            judge(vm, P, mp, paths, specs, costs[:len(specs)], kept, "(initial)")
        for i, (l, c) in enumerate(more):
            # a path that differs from a known one in its label only comes with the other label
            p = P.path(l, c, (i + 1) % 2 if (l, c) not in specs else 1 - vm.concrete(paths[specs.index((l, c))].target), costs[len(specs)])
            a = vm.call(mp.add_column, p)
            vm.check(a if isinstance(a, SymBool) else bool(a), "an added path is reported as added")
            paths.append(p)
            specs.append((l, c))
            if i == len(more) - 1 or (stages > 2 and i % 2 == 0):
                judge(vm, P, mp, paths, specs, costs[:len(specs)], kept, "(after %d added)" % (i + 1))
        P.check_unchanged()
        if mode != "lazy" and stages > 1:
            before = dump(mp.solver_)
            vm.call(mp.generate_mp, P.X, Y)
            vm.check(same_dump(vm, before, dump(mp.solver_)), "building again changes nothing")
    return h


C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
C3 = {0: [0, 1, 2], 1: [2, 0], 2: [1, 2]}
# sides of every row given, for larger trees
XS3 = [[0, 5], [3, 1], [6, 6], [2, 2]]
TS3 = [1, 4, 0, 3]


def scenarios(tier):
    q = tier == "quick"
    out = []
    for mode in ("auto", "given", "none", "lazy"):
        out.append(("depth 1 %s" % mode, run(1, 2, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1, 4, 2, 5, 1], mode, stages=3), {"cost": 4}))
        out.append(("depth 2 %s initial" % mode, run(2, 2, (0, 0, 1), C2, [0, 4, 8, 12, 3, 9], [], mode), {"cost": 8}))
        out.append(("depth 2 %s added" % mode, run(2, 2, (0, 0, 1), C2, [0, 4, 8, 12], [1, 7, 10, 15, 1], mode, stages=2), {"cost": 14}))
        # the added paths form further trees among themselves and with the initial ones
        out.append(("depth 2 %s second tree" % mode, run(2, 2, (0, 0, 1), C2, [0, 4, 8, 12], [3, 7, 11, 15, 2, 6], mode), {"cost": 14}))
        if mode in ("auto", "given"):
            out.append(("depth 2 %s three rows" % mode, run(2, 3, (0, 1, 1), C3, [1, 6, 13, 20], [2, 9, 16, 23], mode), {"cost": 14}))
        out.append(("depth 2 %s one candidate" % mode, run(2, 2, (0, 0, 1), {0: [0], 1: [2], 2: [1, 2]}, [0, 1, 2, 3], [4, 5], mode, stages=3), {"cost": 6}))
        if not q:
            out.append(("depth 2 %s all paths" % mode, run(2, 3, (0, 0, 1), C2, [0, 4, 8, 12], [i for i in range(16) if i % 4], mode, stages=2), {"cost": 60}))
            out.append(("depth 3 %s" % mode, run(3, 4, (0, 0, 1, 1), {k: [(k % 4), (k * 2 + 1) % 4] if k != 3 else [1, 2] for k in range(7)},
                                                 [8 * l for l in range(8)], [1, 9, 18, 27, 36, 44, 53, 62], mode, concrete=(XS3, TS3)), {"cost": 60}))
    # many splits, some of them candidates
    CM = {0: [0, 120, 5], 1: [129, 20], 2: [101, 1, 21]}
    for mode in ("auto", "given", "lazy"):
        F, D = many_splits(3, 130, (0,))
        out.append(("depth 2 %s 130 splits" % mode, run(2, 3, F, CM, [0, 6, 12, 21], [1, 7, 13, 22, 3, 9, 15, 26], mode, concrete=D), {"cost": 30}))
    # rows that reach exactly three leaves, and all paths
    for mode in ("auto", "lazy", "given", "none"):
        out.append(("depth 2 %s three leaves" % mode, run(2, 1, (0, 1), {0: [0, 1], 1: [0, 1], 2: [0]}, list(range(12)), [], mode), {"cost": 8}))
    out.append(("depth 3 auto small", run(3, 3, (0, 0, 1, 1), {k: [(k % 4), (k * 2 + 1) % 4] if k < 3 else [k % 4] for k in range(7)},
                                          [4 * l for l in range(8)], [1, 6, 11, 13], "auto", concrete=(XS3[:3], TS3)), {"cost": 20}))
    for mode in ("auto", "given", "none", "lazy"):
        n = {"auto": 24, "given": 60}.get(mode, 300)
        out.append(("depth 2 %s %d rows" % (mode, n), run(2, n, (0, 0, 1), C2, [0, 4, 8, 12, 3], [1, 7, 10], mode,
                                                         concrete=many_rows(n, (0, n - 1), (2, 5, 3))), {"cost": 30}))
    # one row that reaches four (three) of the eight leaves, with all paths
    for four in (True, False):
        C = {0: [0, 1], 1: [2, 3], 2: [2, 3] if four else [2], 3: [0], 4: [1], 5: [0], 6: [1]}
        N = sum(2 * len(C[1 + l // 4]) for l in range(8))
        for mode in ("auto",) if q else ("auto", "lazy", "none"):
            out.append(("depth 3 %s %s leaves" % (mode, "four" if four else "three"),
                        run(3, 1, (0, 0, 1, 1), C, list(range(N)), [], mode, concrete=([[3, 1]], TS3)), {"cost": 20}))
    for mode in ("auto", "given", "lazy"):
        out.append(("depth 2 %s same candidates" % mode, run(2, 2, (0, 1), {0: [0, 1], 1: [0, 1], 2: [0, 1]}, [0, 4, 8, 12],
                                                            [1, 2, 5, 6, 9, 10, 13, 14], mode), {"cost": 14}))
    return out
