"""C06 Exact rule pricing finds a clause iff one with negative reduced cost exists."""
from props.bdrlib import *

LEVEL_NOTE = ("Decided over every assignment of the pricing model's variables for every 0/1 data set of 3 samples x 3 features "
              "(4x3, 3x4 thorough), every label vector, every non-negative real duals, every size limit and 2 (3) consecutive calls. "
              "Large data with a few arbitrary bits among given ones as well. Long or large cases, with a few arbitrary values: 70 pricing calls.")
ASSUMES = ["duals are non-negative reals", "data is 0/1, labels are encoded 0/1",
           "the solver returns an exactly optimal solution of the model it was given"]
BOUNDS = {"quick": "3x3 data, 2 calls with different duals, D symbolic in 1..4; large data with a few arbitrary bits; 70 pricing calls", "thorough": "4x3 and 3x4 data, 3 calls; large data with a few arbitrary bits"}

MP_OPTIMAL, MP_FEASIBLE = 0, 1


def run(n, m, y, calls, free=None):
    """free: the symbolic bits of a large data set (the solution is then not compared to every clause)"""
    def h(vm):
        D = vm.int_in("D", 1, m + 1)
        xs, X, Y = data(vm, n, m, y, free=free)
        sp = vm.call(vm.bdr.BDRSubProblem, D)
        pool = clauses(m, 0, m) if free is None else []
        for t in range(calls):
            cc, mus = duals(vm, y, "d%d" % t)
            state = {}

            def solve(s):
                v = [num01(b) for b in sym_values(vm, s, "v%d" % t)]
                state["s"] = s
                return MP_OPTIMAL, v, [0] * len(s._cons), objective(s, v)
            vm.hooks["mp_solve"] = solve
            got = vm.call(sp.generate_columns, X, Y, (cc, list(mus)), "")
            vm.check("s" in state, "the model is solved")
            if "s" not in state:
                return
            s = state["s"]
            zi = [vm.concrete(v) for _, v in vm.items(sp.z_vars_)]
            di = [vm.concrete(v) for _, v in vm.items(sp.delta_vars_)]
            vm.check(len(set(zi)) == m and len(set(di)) == n and not set(zi) & set(di) and len(s._vars) == n + m,
                     "one variable per feature and one per sample")
            if len(s._vars) != n + m:
                return
            vm.check(NOT(s._obj._maximize), "minimisation")
            for i in zi:
                vm.check(s._vars[i]._integer, "integer feature variables")

            def rc_of(values):
                """reduced cost of the clause selected by arbitrary z"""
                tt = [cc] + [ITE(EQ(values[z], 1), cc, 0) for z in zi]
                k = 0
                for i, t_i in enumerate(y):
                    sat_i = AND([OR(EQ(values[z], 0), EQ(xs[i][j], 1)) for j, z in enumerate(zi)])
                    if t_i == 1:
                        tt.append(ITE(sat_i, -mus[k], 0))
                        k += 1
                    else:
                        tt.append(ITE(sat_i, 1, 0))
                return SUM(tt)

            def obj(values):
                return SUM([ITE(EQ(v, 1), coef(s._obj._coefs, i), 0) for i, v in enumerate(values)]) + s._obj._offset
            # every feasible point is a clause within the size limit and costs at least its reduced cost
            w = [num01(b) for b in sym_values(vm, s, "w%d" % t)]
            size = SUM([w[z] for z in zi])
            feas = feasible(s, w)
            vm.check(IMPLIES(feas, size <= D), "feasible points respect the size limit")
            vm.check(IMPLIES(feas, vm.le(rc_of(w), obj(w))), "no feasible point is below the reduced cost of its clause")
            # every clause within the limit is represented at its reduced cost
            tight = [0] * (n + m)
            for j, z in enumerate(zi):
                tight[z] = w[z]
            for i, d in enumerate(di):
                tight[d] = ITE(AND([OR(EQ(w[z], 0), EQ(xs[i][j], 1)) for j, z in enumerate(zi)]), 1, 0)
            vm.check(IMPLIES(size <= D, feasible(s, tight)), "every clause within the size limit is feasible")
            vm.check(vm.eq(obj(tight), rc_of(tight)), "the objective of a clause is its reduced cost")
            # the solver returned an optimal solution
            v = [num01(b) for b in sym_values(vm, s, "v%d" % t)]
            if vm.sym:
                vm.assume(feasible(s, v))
                vm.assume(EQ(obj(v), rc_of(v)))
            if calls == 1 or t == calls - 1:
                for c in pool:
                    vm.assume(IMPLIES(len(c) <= D, vm.le(rc_of(v), reduced_cost(xs, y, cc, mus, c))))
            improving = rc_of(v) < EPS
            res = vm.items(got)
            cnt = SUM([num01(g) for g, _ in res]) if res else 0
            vm.check(vm.eq(cnt, ITE(improving, 1, 0)), "a clause is returned iff its reduced cost is below the threshold")
            for g, c in res:
                for j, z in enumerate(zi):
                    k = SUM([ITE(AND(gg, EQ(e, j)), 1, 0) for gg, e in vm.items(c)] or [0])
                    vm.check(IMPLIES(g, vm.eq(k, v[z])), "the returned clause is the one of the solution")
                k = SUM([ITE(gg, 1, 0) for gg, e in vm.items(c)] or [0])
                vm.check(IMPLIES(g, vm.eq(k, SUM([v[z] for z in zi]))), "the returned clause has no other feature")
    return h


def scenarios(tier):
    out = []
    dims = [(3, 3, 2)] if tier == "quick" else [(3, 3, 3), (4, 3, 2), (3, 4, 2)]
    for n, m, calls in dims:
        for y in ys(n, need_both=False):
            if sum(y) == 0 and calls > 1 and tier == "quick":
                continue
            out.append(("%dx%d y=%s %d calls" % (n, m, "".join(map(str, y)), calls), run(n, m, y, calls), {"cost": n * m * calls}))
    out.append(("2x1 70 calls", run(2, 1, (0, 1), 70, ((0, 1), (0,))), {"cost": 30}))
    out.append(("3x2 33 calls", run(3, 2, (1, 0, 1), 33, ((), ())), {"cost": 30}))
    out.append(("12x20", run(12, 20, (0, 1, 1, 0, 1, 0) * 2, 2, ((0, 2, 11), (0, 9, 19))), {"cost": 30}))
    out.append(("3x70", run(3, 70, (0, 1, 0), 2, ((0, 1), (0, 65))), {"cost": 30}))
    out.append(("30x3", run(30, 3, (0, 1, 1, 0, 1) * 6, 1, ((0, 4, 29), range(3))), {"cost": 30}))
    return out
