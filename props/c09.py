"""C09 The integer master solution is decoded into exactly the selected columns."""
from props.bdrlib import *
from props.dtlib import Problem

LEVEL_NOTE = ("Decided for every non-negative integer solution vector, status and objective, for masters with symbolic data, "
              "for column histories of up to 3 (rules, 5 thorough) and 4 (trees, depth 1-2) added columns and two solves.")
ASSUMES = ["the solver's variable order is the order of the loaded model", "solution values are exact non-negative integers"]
BOUNDS = {"quick": "rules: 2x3 data, 3 columns; trees: depth 1 and 2, 2-4 initial and 0-3 added paths",
          "thorough": "rules: 3x3 data, 5 columns; trees: 6 added paths"}

BAD = [2, 3, 4, 5, 6]


def solution(vm, s, tag):
    return [vm.int_in("%s.%d" % (tag, i), 0, 5) for i in range(len(s._vars))]


def solve(vm, mp, tag, statuses=(0, 1)):
    """Runs solve_ip; returns (values, result, exception, solver)"""
    st = {}
    status = vm.one_of(tag + "status", list(statuses))
    obj = vm.real(tag + "objective")
    vals = solution(vm, mp.solver_, tag + "v")

    def hook(s):
        st["s"] = s
        return status, [vals[i] if i < len(vals) else 0 for i in range(len(s._vars))], [0] * len(s._cons), obj
    vm.hooks["mp_solve"] = hook
    if status in (0, 1):
        r, e = vm.call(mp.solve_ip, ""), None
    else:
        r, e = vm.attempt(mp.solve_ip, "")
    return status, vals, r, e, st.get("s")


def judge_model(vm, mp, s, what, cols):
    vm.check(s is not None, "an integer model is solved " + what)
    if s is None:
        return
    vm.check(same_dump(vm, dump(s), dump(mp.solver_)), "the model solved is the current master " + what)
    for i in cols:
        vm.check(s._vars[i]._integer, "the column variables are integer " + what)


def rules(n, m, y, seq, rounds, bad=False):
    def h(vm):
        xs, X, Y = data(vm, n, m, y)
        C, p = vm.int_in("C", 1, 30), vm.real_in("p", 0)
        mp = vm.call(vm.bdr.BDRMasterProblem, C, p)
        vm.call(mp.generate_mp, X, Y)
        todo = list(seq)
        for t in range(rounds):
            take = todo if t == rounds - 1 else todo[:len(todo) // 2]
            todo = todo[len(take):]
            for c in take:
                vm.call(mp.add_column, list(c))
            status, vals, r, e, s = solve(vm, mp, "s%d" % t, BAD if bad and t == rounds - 1 else (0, 1))
            if status not in (0, 1):
                vm.check(e is not None or not r, "a solve without solution is an error")
                return
            what = "(solve %d)" % t
            judge_model(vm, mp, s, what, [vm.concrete(k) for _, k, _ in vm.dict_items(mp.clause_dict_)])
            vm.check(r is not None and r is not False, "success is reported " + what)
            got = {}
            for g, c in vm.items(mp.explanation):
                key = tuple(sorted(vm.concrete(j) for _, j in vm.items(c)))
                got.setdefault(key, []).append(g)
            for g, k, c in vm.dict_items(mp.clause_dict_):
                key = tuple(sorted(vm.concrete(j) for _, j in vm.items(c)))
                cnt = SUM([ITE(x, 1, 0) for x in got.pop(key, [])] or [0])
                vm.check(vm.eq(cnt, ITE(vals[vm.concrete(k)] > 0, 1, 0)), "clause %s is in the explanation iff it is selected %s" % (key, what))
            vm.check(not any(vm.fork(OR(v)) for v in got.values()), "no other clause is in the explanation " + what)
    return h


def trees(depth, nsplit, initial, added, rounds, bad=False, rows=2):
    def h(vm):
        n = rows
        xs = [[i * 2 + j for j in range(nsplit)] for i in range(n)]
        ts = [j + 0.5 if j % 2 else j - 0.5 for j in range(nsplit)]
        cands = {k: list(range(nsplit)) for k in range(2 ** depth - 1)}
        P = Problem(vm, n, depth, list(range(nsplit)), cands, concrete=(xs, ts))
        allp = [(l, c) for l in range(2 ** depth) for c in P.choices(l)]
        cost = [vm.int_in("cost%d" % i, 0, 9) for i in range(initial + added)]

        def mk(i):
            l, c = allp[(i * 7 + i // 3) % len(allp)]
            return P.path(l, c, i % 2, cost[i])
        paths = [mk(i) for i in range(initial)]
        mp = vm.call(vm.dt.DTreeMasterProblem, list(paths), P.leaves, P.nodes, P.splits)
        vm.call(mp.generate_mp, P.X, vm.array([0, 1] * n, dtype=int)[:n])
        todo = [mk(initial + i) for i in range(added)]
        for t in range(rounds):
            take = todo if t == rounds - 1 else todo[:len(todo) // 2]
            todo = todo[len(take):]
            for p in take:
                vm.call(mp.add_column, p)
                paths.append(p)
            ids = [vm.concrete(p.id) for p in paths]
            vm.check(len(set(ids)) == len(ids) and all(0 <= i < len(mp.solver_._vars) for i in ids), "each path has its own variable")
            for p, i in zip(paths, ids):
                vm.check(vm.eq(coef(mp.solver_._obj._coefs, i), p.cost), "the variable of a path carries its cost")
            status, vals, r, e, s = solve(vm, mp, "s%d" % t, BAD if bad and t == rounds - 1 else (0, 1))
            if status not in (0, 1):
                vm.check(e is not None or not r, "a solve without solution is an error")
                return
            what = "(solve %d)" % t
            judge_model(vm, mp, s, what, ids)
            vm.check(r is not None and r is not False, "success is reported " + what)
            got = vm.items(mp.selected_paths)
            for p, i in zip(paths, ids):
                cnt = SUM([ITE(g, 1, 0) for g, q in got if q is p] or [0])
                vm.check(vm.eq(cnt, ITE(vals[i] > 0, 1, 0)), "a path is selected iff its variable is positive " + what)
            vm.check(all(any(q is p for p in paths) for g, q in got), "only paths of the master are selected " + what)
    return h


def scenarios(tier):
    out = []
    seq = [[1], [0, 2], [2]] if tier == "quick" else [[1], [0, 2], [2], [2, 1, 0], [0]]
    n = 2 if tier == "quick" else 3
    for y in ys(n, need_both=True):
        nm = "".join(map(str, y))
        out.append(("rules y=%s" % nm, rules(n, 3, y, seq, 1), {"cost": 3}))
        out.append(("rules y=%s two solves" % nm, rules(n, 3, y, seq, 2), {"cost": 5}))
        out.append(("rules y=%s no solution" % nm, rules(n, 3, y, seq, 1, True), {"cost": 2}))
    out.append(("rules solution then none", rules(2, 3, (0, 1), seq, 2, True), {"cost": 3}))
    out.append(("rules no added column", rules(2, 2, (1, 1), [], 1), {}))
    cases = [(1, 2, 2, 0, 1), (1, 2, 2, 2, 2), (1, 3, 3, 3, 2), (2, 2, 4, 0, 1), (2, 2, 4, 3, 2)]
    if tier != "quick":
        cases += [(1, 3, 2, 4, 2), (2, 3, 5, 6, 2), (2, 2, 6, 4, 3)]
    for d, ns, i, a, r in cases:
        out.append(("trees depth %d splits %d initial %d added %d solves %d" % (d, ns, i, a, r), trees(d, ns, i, a, r), {"cost": 4 * d}))
    out.append(("trees no solution", trees(1, 2, 2, 1, 1, True), {}))
    out.append(("trees solution then none", trees(1, 2, 2, 1, 2, True), {}))
    # more than ten columns: names no longer sort like numbers
    many = [[0], [1], [2], [3], [0, 1], [0, 2], [0, 3], [1, 2], [1, 3], [2, 3], [0, 1, 2], [1, 2, 3]]
    out.append(("rules twelve clauses", rules(2, 4, (0, 1), many, 2), {"cost": 10}))
    out.append(("trees thirteen paths", trees(2, 2, 5, 8, 2), {"cost": 10}))
    return out
