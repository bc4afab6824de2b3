"""C08 Rule pricing and rule master agree on the reduced cost of every clause."""
from props.bdrlib import *

LEVEL_NOTE = ("Decided for every 0/1 data set of 3 samples x 3 features (4x3 thorough), every label vector with a positive sample, "
              "every real duals with the signs linear programming duality allows, with 0-2 columns already added, for every clause. "
              "Large data with a few arbitrary bits among given ones as well. Long or large cases, with a few arbitrary values: 40 rounds.")
ASSUMES = ["the LP solver reports duals >= 0 for lower-bounded and <= 0 for upper-bounded rows of the minimisation",
           "data is 0/1, labels are encoded 0/1"]
BOUNDS = {"quick": "3x3 data, 0-1 earlier columns, 1-2 RMP solves; large data with a few arbitrary bits; 40 rounds", "thorough": "4x3 data, 2 earlier columns, 2 RMP solves; large data with a few arbitrary bits"}


def lp_duals(vm, s, tag):
    out = []
    for k, c in enumerate(s._cons):
        lo, up = not isinf(c._lb), not isinf(c._ub)
        v = vm.real_in("%s.%d" % (tag, k), 0)
        if lo and not up:
            out.append(v)
        elif up and not lo:
            out.append(-v)
        else:
            out.append(v - vm.real_in("%s.u%d" % (tag, k), 0))
    return out


def run(n, m, y, before, exact, rounds, K, free=None):
    def h(vm):
        C, p = vm.int_in("C", 1, 20), vm.real_in("p", 0)
        xs, X, Y = data(vm, n, m, y, free=free)
        mp = vm.call(vm.bdr.BDRMasterProblem, C, p)
        vm.call(mp.generate_mp, X, Y)
        have = []
        if exact:
            sp = vm.call(vm.bdr.BDRSubProblem, m)
        else:
            sp = vm.call(vm.bdr.BDRHeuristic, K)
        todo = list(before)
        for r in range(rounds):
            take = todo if r == rounds - 1 else todo[:1]
            todo = todo[len(take):]
            for c in take:
                vm.call(mp.add_column, list(c))
                have.append(list(c))
            reported = lp_duals(vm, mp.solver_, "dual%d" % r)
            vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), reported, 0)
            dual_costs = vm.call(mp.solve_rmp, "")
            if exact:
                seen = []

                def solve(s):
                    seen.append(s)
                    return 0, [0] * len(s._vars), [0] * len(s._cons), 0
                vm.hooks["mp_solve"] = solve
                vm.call(sp.update_subproblem, X, Y, dual_costs)
                vm.call(sp.generate_columns, X, Y, dual_costs, "")
                vm.check(len(seen) > 0, "the pricing model is solved")
                if not seen:
                    return
            else:
                vm.call(sp.update_subproblem, X, Y, dual_costs)
                got = vm.call(sp.generate_columns, X, Y, dual_costs, "")
        s = mp.solver_
        value, returned = {}, {}
        for c in clauses(m, 1, m):
            if exact:
                ps = seen[-1]
                zi = [vm.concrete(v) for _, v in vm.items(sp.z_vars_)]
                di = [vm.concrete(v) for _, v in vm.items(sp.delta_vars_)]
                point = [0] * len(ps._vars)
                for j in c:
                    point[zi[j]] = 1
                for i, d in enumerate(di):
                    point[d] = ITE(sat(xs[i], c), 1, 0)
                vm.check(feasible(ps, point), "clause %s can be priced" % (c,))
                value[tuple(c)] = SUM([coef(ps._obj._coefs, z) * point[z] for z in zi]
                                      + [ITE(EQ(point[d], 1), coef(ps._obj._coefs, d), 0) for d in di]) + ps._obj._offset
            else:
                value[tuple(c)] = None
        if not exact:
            for g, c in vm.items(got):
                key = tuple(sorted(vm.concrete(j) for _, j in vm.items(c)))
                returned[key] = OR(g, returned.get(key, False))
        # the reduced cost of the column the master adds
        for c in clauses(m, 1, m if exact else min(K, m)):
            if c in have:
                var = [k for g, k, v in vm.dict_items(mp.clause_dict_)
                       if [vm.concrete(j) for _, j in vm.items(v)] == c][0]
            else:
                var = len(s._vars)
                vm.call(mp.add_column, list(c))
            rc = coef(s._obj._coefs, var)
            rc = SUM([rc] + [-(coef(con._coefs, var) * d) for con, d in zip(s._cons, reported)])
            if exact:
                vm.check(vm.eq(value[tuple(c)], rc), "exact pricing values clause %s by its reduced cost" % (c,))
            else:
                vm.check(EQB(returned.get(tuple(c), False), rc < EPS), "heuristic returns clause %s iff its column improves" % (c,))
    return h


def EQB(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def scenarios(tier):
    out = []
    if tier == "quick":
        cases = [(3, 3, [], 1), (3, 3, [[1], [0, 2]], 2)]
    else:
        cases = [(3, 3, [], 1), (4, 3, [], 1), (4, 3, [[1], [0, 2]], 2), (3, 4, [[2], [0, 1, 3]], 2)]
    for n, m, before, rounds in cases:
        for y in ys(n, need_both=True):
            if tier == "quick" and rounds > 1 and y not in ((0, 1, 1), (1, 0, 1), (1, 0, 0), (1, 1, 0)):
                continue
            nm = "%dx%d y=%s %d earlier" % (n, m, "".join(map(str, y)), len(before))
            out.append((nm + " exact", run(n, m, y, before, True, rounds, m), {"cost": 4 * rounds}))
            out.append((nm + " heuristic", run(n, m, y, before, False, rounds, 2), {"cost": 9 * rounds}))
    for exact in (True, False):
        out.append(("30x3 %s" % ("exact" if exact else "heuristic"),
                    run(30, 3, (0, 1, 1, 0, 1) * 6, [[1]], exact, 1, 2, ((0, 4, 29), range(3))), {"cost": 30}))
        out.append(("2x2 %s 40 rounds" % ("exact" if exact else "heuristic"), run(2, 2, (0, 1), [[1]], exact, 40, 2), {"cost": 30}))
        out.append(("6x7 %s" % ("exact" if exact else "heuristic"),
                    run(6, 7, (0, 1, 1, 0, 1, 0), [[1], [6, 2], [3]], exact, 2, 2, (range(6), (1, 6))), {"cost": 30}))
    return out
