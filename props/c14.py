"""C14 An integer master solution is one valid tree worth its training hits."""
from props.dtmaster import *

LEVEL_NOTE = ("Decided over every integer point of the path variables for every data set (2-3 rows with arbitrary real values and "
              "thresholds), trees of depth 1-2 (3 with given sides), 2-3 candidate splits per node, and path sets built at once or "
              "column by column, with the row constraints present, dropped by preprocessing or left to lazy addition. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well. Long or large cases, with a few arbitrary values: 130 splits.")
ASSUMES = ["initial paths use candidate splits of their nodes", "splits on one feature have different thresholds",
           "solution values are exact integers"]
BOUNDS = {"quick": "depth 1-2 (3 small), 2-3 rows, 6-16 paths; many rows with a few arbitrary ones; 130 splits", "thorough": "depth 1-3, 3-4 rows, up to 16-24 paths; many rows with a few arbitrary ones"}


def run(depth, n, feats, cands, initial, added, mode, y, concrete=None):
    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        allp = all_paths(P)
        if initial == "all":
            specs, more = list(allp), []
        else:
            specs, more = [allp[i % len(allp)] for i in initial], [allp[i % len(allp)] for i in added]
        nlab = max(y) + 1
        allspecs = specs + more
        targets = []
        for i, sp in enumerate(allspecs):
            # the same leaf and splits come back with another label
            targets.append((i * 2 + i // 3) % nlab if sp not in allspecs[:i] else (targets[allspecs.index(sp)] + 1) % nlab)
        # the number of rows following the path with its target
        costs = [SUM([ITE(P.follows(r, l, c), 1, 0) for r in range(n) if y[r] == t] or [0]) for (l, c), t in zip(allspecs, targets)]
        rows_ = data_rows(vm, n) if mode in ("none", "lazy") else None
        k = len(specs)
        mp, paths, Y = build(vm, P, specs, costs[:k], targets[:k], y, rows_, lazy=mode == "lazy")
        for i, (l, c) in enumerate(more):
            p = P.path(l, c, targets[k + i], costs[k + i])
            vm.call(mp.add_column, p)
            paths.append(p)
        ids = path_ids(vm, mp, paths)
        if ids is None:
            return
        s = mp.solver_
        # an arbitrary integer feasible point
        v = [vm.int_in("v%d" % i, 0, 3) if i in ids else vm.real("v%d" % i) for i in range(len(s._vars))]
        x = [v[i] for i in ids]
        ok = feasible(s, v)
        one = alpha(P, allspecs, x)
        vm.check(IMPLIES(ok, one), "exactly one path per leaf is selected")
        same = AND([NOT(AND(x[a] > 0, x[b] > 0)) for a in range(len(x)) for b in range(a)
                    if any(allspecs[a][1][q] != allspecs[b][1][q] for q in allspecs[a][1] if q in allspecs[b][1])])
        vm.check(IMPLIES(ok, same), "selected paths use the same split at every common node")
        for r in range(n):
            vm.check(IMPLIES(ok, EQ(row_sum(P, allspecs, x, r), 1)), "every row follows exactly one selected path")
        hits = SUM([ITE(AND(x[a] > 0, P.follows(r, *allspecs[a])), 1, 0) for a in range(len(x)) for r in range(n)
                    if y[r] == targets[a]] or [0])
        vm.check(IMPLIES(ok, vm.eq(objective(s, v), hits)), "the objective is the number of rows the tree predicts correctly")
        # and every tree the paths can form is feasible
        w = complete(s, dict(zip(ids, x)))
        vm.check(IMPLIES(AND(nonneg(x), one, same), feasible(s, w)), "every complete tree the paths can form is feasible")
    return h


C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
C3 = {0: [0, 1, 2], 1: [2, 0], 2: [1, 2]}
XS3 = [[0, 5], [3, 1], [6, 6], [2, 2]]
TS3 = [1, 4, 0, 3]


def scenarios(tier):
    q = tier == "quick"
    out = []
    for mode in ("auto", "none", "lazy"):
        out.append(("depth 1 %s" % mode, run(1, 3, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1, 4, 2, 5, 1], mode, (0, 1, 0)), {"cost": 4}))
        out.append(("depth 2 %s all paths" % mode, run(2, 2, (0, 0, 1), C2, "all", [], mode, (0, 1)), {"cost": 14}))
        out.append(("depth 2 %s added" % mode, run(2, 2, (0, 0, 1), C2, [0, 4, 8, 12], [1, 7, 10, 15, 1], mode, (1, 1)), {"cost": 14}))
        out.append(("depth 2 %s three labels" % mode, run(2, 3, (0, 1, 1), C2, [0, 4, 8, 12], [2, 5, 11], mode, (0, 1, 2)), {"cost": 14}))
        # the added paths form trees among themselves, one using a split twice on a path
        out.append(("depth 2 %s more trees" % mode, run(2, 2, (0, 0, 1), C2, [0, 4, 8, 12], [2, 6, 9, 13, 3, 7], mode, (0, 1)), {"cost": 14}))
        out.append(("depth 2 %s other labels" % mode, run(2, 2, (0, 0, 1), C2, [0, 4, 8, 12], [0, 12, 3, 8], mode, (0, 1)), {"cost": 14}))
        if not q:
            out.append(("depth 2 %s added all" % mode, run(2, 3, (0, 0, 1), C2, [0, 4, 8, 12], [i for i in range(16) if i % 4], mode, (0, 1, 0)), {"cost": 60}))
            out.append(("depth 2 %s three root splits" % mode, run(2, 3, (0, 0, 1), C3, "all", [], mode, (0, 1, 0)), {"cost": 60}))
    cd = {k: [(k % 4), (k * 2 + 1) % 4] if k < 3 else [k % 4] for k in range(7)}
    for mode in ("auto",) if q else ("auto", "none", "lazy"):
        out.append(("depth 3 %s" % mode, run(3, 3, (0, 0, 1, 1), cd, [4 * l for l in range(8)], [1, 6, 11, 13], mode, (0, 1, 1), concrete=(XS3[:3], TS3)), {"cost": 20}))
    for mode in ("auto", "none", "lazy"):
        n = 20 if mode == "auto" else 150
        out.append(("depth 2 %s %d rows" % (mode, n), run(2, n, (0, 0, 1), C2, [0, 4, 8, 12], [1, 7, 10, 15, 2, 6], mode, [r % 2 for r in range(n)],
                                                         concrete=many_rows(n, (0, n - 1), (2, 5, 3))), {"cost": 30}))
    # many splits, some of them candidates; the same candidates at every node
    FM, DM = many_splits(3, 130, (0,))
    CM = {0: [0, 120, 5], 1: [129, 20], 2: [101, 1, 21]}
    for mode in ("auto", "lazy"):
        out.append(("depth 2 %s 130 splits" % mode, run(2, 3, FM, CM, [0, 6, 12, 21], [1, 7, 13, 22, 3, 9, 15, 26], mode, (0, 1, 1), concrete=DM), {"cost": 30}))
        out.append(("depth 2 %s same candidates" % mode, run(2, 2, (0, 1), {0: [0, 1], 1: [0, 1], 2: [0, 1]}, [0, 4, 8, 12],
                                                            [1, 2, 5, 6, 9, 10, 13, 14], mode, (0, 1)), {"cost": 14}))
    return out
