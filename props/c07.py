"""C07 Heuristic rule pricing returns exactly the improving clauses up to size K."""
from props.bdrlib import *

LEVEL_NOTE = ("Decided for every 0/1 data set of 3 samples and 3 features (4x4 thorough), every label vector, every non-negative "
              "real duals and K = 1..3. "
              "Large data with a few arbitrary bits among given ones as well; data that is large and arbitrary is outside. Long or large cases, with a few arbitrary values: 70 pricing calls.")
ASSUMES = ["duals are non-negative reals", "data is 0/1, labels are encoded 0/1"]
BOUNDS = {"quick": "3 samples x 3 features, K<=3, and 4 samples x 2 features; large data with a few arbitrary bits; 70 pricing calls", "thorough": "4 samples x 4 features, K<=4; large data with a few arbitrary bits"}


def run(n, m, y, K, calls=1, free=None):
    def h(vm):
        xs, X, Y = data(vm, n, m, y, free=free)
        heur = vm.call(vm.bdr.BDRHeuristic, K)
        for t in range(calls):
            cc, mus = duals(vm, y, "d%d" % t)
            got = vm.call(heur.generate_columns, X, Y, (cc, list(mus)), "")
            found = {}
            for g, c in vm.items(got):
                key = tuple(sorted(vm.concrete(j) for _, j in vm.items(c)))
                vm.check(IMPLIES(g, len(set(key)) == len(key)), "a clause lists each feature once")
                found.setdefault(key, []).append(g)
            for c in clauses(m, 1, min(K, m)):
                gs = found.pop(tuple(c), [])
                want = reduced_cost(xs, y, cc, mus, c) < EPS
                cnt = SUM([num01(g) for g in gs]) if gs else 0
                vm.check(vm.eq(cnt, ITE(want, 1, 0)), "clause %s is returned once iff it improves" % (c,))
            for key, gs in found.items():
                vm.check(NOT(OR(gs)), "clause %s is not among the clauses of size 1..K" % (key,))
    return h


def scenarios(tier):
    out = []
    dims = [(3, 3, (1, 2, 3)), (4, 2, (1, 2))] if tier == "quick" else [(3, 3, (1, 2, 3, 4)), (4, 4, (2, 3, 4)), (5, 3, (2, 3))]
    for n, m, Ks in dims:
        for K in Ks:
            for y in ys(n, need_both=False):
                out.append(("%dx%d y=%s K=%d" % (n, m, "".join(map(str, y)), K), run(n, m, y, K), {"cost": 2 ** m * K}))
    out.append(("3x2 y=011 K=2 twice", run(3, 2, (0, 1, 1), 2, 2), {}))
    out.append(("2x2 K=1 70 calls", run(2, 2, (0, 1), 1, 70), {"cost": 30}))
    out.append(("3x60 K=2", run(3, 60, (0, 1, 0), 2, 1, ((0, 1), (0, 59))), {"cost": 60}))
    out.append(("9x12 K=2", run(9, 12, (0, 1, 1, 0, 1, 0, 1, 1, 0), 2, 1, ((0, 4, 8), (0, 11))), {"cost": 30}))
    out.append(("4x70 K=1", run(4, 70, (0, 1, 1, 0), 1, 1, ((0, 1), (0, 65))), {"cost": 30}))
    out.append(("40x3 K=3", run(40, 3, (0, 1, 1, 0, 1, 0, 1, 1) * 5, 3, 1, ((0, 4, 38), range(3))), {"cost": 30}))
    return out
