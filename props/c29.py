"""C29 No training step cuts off a valid tree or admits an invalid one."""
from props.dtmaster import *
from props.dtpricing import *
from props.c15 import lp
from props.c25 import roles_of

LEVEL_NOTE = ("Decided over every integer point of the path variables after histories of added columns, lazily added rows (for every "
              "LP solution) and generated cuts (for every LP solution and every solution of the search) in any order of up to 5 steps, for "
              "every data set of 1-2 rows with arbitrary values and thresholds (given sides at depth 2 with cuts), depth 1-2.")
ASSUMES = ["initial paths form a valid tree and use candidate splits of their nodes", "splits on one feature have different thresholds",
           "solutions shown while cuts are generated satisfy the cut model", "solution values are exact integers"]
BOUNDS = {"quick": "depth 1-2, 1-2 rows, 4-10 paths, 1-2 rounds of rows and cuts", "thorough": "depth 1-2, 2-3 rows, up to 16 paths, 3 rounds"}


def judge_trees(vm, P, mp, paths, specs, costs, what):
    ids = path_ids(vm, mp, paths)
    if ids is None:
        return
    s = mp.solver_
    v = [vm.int_in("%s.v%d" % (what, i), 0, 3) if i in ids else vm.real("%s.v%d" % (what, i)) for i in range(len(s._vars))]
    x = [v[i] for i in ids]
    one = alpha(P, specs, x)
    same = AND([NOT(AND(x[a] > 0, x[b] > 0)) for a in range(len(x)) for b in range(a)
                if any(specs[a][1][q] != specs[b][1][q] for q in specs[a][1] if q in specs[b][1])])
    tree = AND(nonneg(x), one, same)
    vm.check(IMPLIES(feasible(s, v), tree), "every feasible integer point is a valid tree " + what)
    w = complete(s, dict(zip(ids, x)))
    vm.check(IMPLIES(tree, feasible(s, w)), "every valid tree of known paths is feasible " + what)
    vm.check(vm.eq(objective(s, v), SUM([k * a for k, a in zip(costs, x)])), "and worth the costs of its paths " + what)


def shows(vm, t):
    """an arbitrary solution of the cut model"""
    def cp(solver, m, cb):
        v = [num01(vm.bool("s%d.%d" % (t, i))) for i in range(len(m._vars))]
        vm.assume(cp_feasible(m, v))
        return 4, [(v, 0, 0)], v, 0, 0, 0
    return cp


def run(depth, n, feats, cands, initial, steps, given=None, rows=None, drop=False):
    """steps: integers (paths to add), "rows" and "cuts"; rows: how row constraints start out (lazy, all)"""
    mixed = any("cuts" in str(e) for e in steps)
    loop = any("until" in str(e) for e in steps)

    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=given)
        allp = all_paths(P)
        specs = [allp[i % len(allp)] for i in initial]
        costs = [vm.int_in("cost%d" % i, 0, 20) for i in range(len(specs))]
        rm = [vm.bool("row %d dropped" % r) for r in range(n)] if drop else None
        mp, paths, Y = build(vm, P, specs, costs, [l % 2 for l, _ in specs], [r % 2 for r in range(n)], data_rows(vm, n, rm),
                             lazy=rows == "lazy", cuts=mixed or not loop, rounds=1)
        for t, step in enumerate(steps):
            if str(step).startswith("until") or step == "nothing":
                # iterations of the training loop until the next one that looks for rows and cuts
                vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
                for _ in range(9 + (step == "nothing")):
                    vm.hooks["cp_solve"] = lambda solver, m, cb: (4, [], [0] * len(m._vars), 0, 0, 0)
                    vm.call(mp.solve_rmp, "")
            if step == "nothing":
                continue
            if step == "until rows":
                vals, hook = lp(vm, "lp%d" % t, len(mp.solver_._vars))
                vm.hooks["mp_solve"] = hook
                if mixed:
                    vm.hooks["cp_solve"] = shows(vm, t)
                (vm.split if mixed else vm.call)(mp.solve_rmp, "")
            elif step == "until cuts":
                x = [vm.real_in("lp%d.%d" % (t, i), 0) for i in range(len(mp.solver_._vars))]
                vm.hooks["mp_solve"] = lambda s: (0, list(x), [0] * len(s._cons), 0)
                vm.hooks["cp_solve"] = shows(vm, t)
                vm.split(mp.solve_rmp, "")
            elif step == "rows":
                vals, hook = lp(vm, "lp%d" % t, len(mp.solver_._vars))
                vm.hooks["mp_solve"] = hook
                vm.call(mp.solve_rmp, "")
                vm.call(mp.add_beta_cuts)
            elif step == "cuts":
                x = [vm.real_in("lp%d.%d" % (t, i), 0) for i in range(len(mp.solver_._vars))]
                vm.hooks["mp_solve"] = lambda s: (0, list(x), [0] * len(s._cons), 0)
                vm.hooks["cp_solve"] = shows(vm, t)
                vm.call(mp.solve_rmp, "")
                vm.split(mp.add_cuts)
            else:
                l, c = allp[step % len(allp)]
                k = vm.int_in("cost of added %d" % t, 0, 20)
                # a known path comes back with the other label
                p = P.path(l, c, (l + specs.count((l, c))) % 2, k)
                vm.call(mp.add_column, p)
                paths.append(p)
                specs.append((l, c))
                costs.append(k)
        judge_trees(vm, P, mp, paths, specs, costs, "(at the end)")
        P.check_unchanged()
    return h


def scenarios(tier):
    q = tier == "quick"
    F, C1 = (0, 0, 1), {0: [0, 1, 2]}
    C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
    TREE2 = [0, 4, 8, 12]
    G1 = ([[1, 2], [3, 0]], [2, 1])
    G2 = ([[1, 2], [3, 0]], [2, 4, 1])
    out = []

    def add(name, *a, cost=4, **kw):
        out.append((name, run(*a, **kw), {"cost": cost}))
    for rows in ("lazy", "all"):
        add("depth 1 %s columns, cuts, columns" % rows, 1, 2, F, C1, [0, 3], [1, "cuts", 4, 1], rows=rows, cost=8)
        add("depth 1 %s cuts, cuts, columns" % rows, 1, 1, (0, 1), {0: [0, 1]}, [0, 3], ["cuts", 1, "cuts", 2, 0], rows=rows, cost=8)
        add("depth 2 %s cuts, columns" % rows, 2, 2, F, C2, TREE2, ["cuts", 1, 7, 10, 13], rows=rows, given=G2, cost=14)
        add("depth 2 %s columns, cuts, columns" % rows, 2, 2, (0, 0), {0: [0], 1: [1], 2: [1]}, [0, 1, 2, 3], [0, "cuts", 3, 1], rows=rows, cost=14)
    add("depth 1 rows, columns, rows", 1, 2, F, C1, [0, 3], ["rows", 1, 4, "rows", 2, 5], rows="lazy", drop=True, cost=8)
    add("depth 1 rows, cuts, columns", 1, 2, (0, 1), {0: [0, 1]}, [0, 3], ["rows", 1, "cuts", 2, 3], rows="lazy", drop=True, cost=8)
    add("depth 1 cuts, columns, rows", 1, 2, F, C1, [0, 3], ["cuts", 1, 4, "rows", 2], rows="lazy", cost=8)
    add("depth 2 rows, columns, rows", 2, 2, F, C2, TREE2, ["rows", 1, 7, "rows", 10, 15], rows="lazy", drop=True, cost=14)
    add("depth 2 all dropped", 2, 2, F, C2, TREE2, [2, 6, 9, 13, 3, 7], rows="all", drop=True, cost=14)
    add("depth 2 one feature cuts", 2, 1, (0, 0, 0), {0: [0, 1], 1: [2], 2: [2, 1]}, [0, 2, 4, 6], ["cuts", 1, 3, 5, 7], rows="lazy", given=([[3]], [2, 4, 1]), cost=14)
    add("depth 1 training loop rows", 1, 2, F, C1, [0, 3], [1, "until rows", 4, "until rows", 2, "until rows", 5], rows="lazy", drop=True, cost=8)
    add("depth 1 training loop cuts", 1, 1, (0, 1), {0: [0, 1]}, [0, 3], [1, "nothing", "until cuts", 2, "until cuts", 0], rows="all", cost=10)
    add("depth 2 training loop cuts", 2, 2, F, C2, TREE2, [1, "nothing", 7, "until cuts", 10], rows="all", given=G2, cost=14)
    add("depth 2 training loop rows", 2, 2, F, C2, TREE2, [1, "until rows", 7, "until rows", 10], rows="lazy", cost=14)
    add("depth 1 training loop rows again", 1, 2, (0, 1), {0: [0, 1]}, [0, 3], [1, "until rows", 2, "until rows", 3], rows="lazy", cost=10)
    # the same candidates at every node
    CS = {0: [0, 1], 1: [0, 1], 2: [0, 1]}
    add("depth 2 same candidates", 2, 2, (0, 1), CS, [0, 4, 8, 12], [1, 2, 5, 6, 9, 10, 13, 14], rows="all", cost=14)
    add("depth 2 same candidates lazy", 2, 2, (0, 1), CS, [1, 5, 9, 13], [2, 6, 10, 14, "rows", 0], rows="lazy", cost=14)
    if not q:
        for rows in ("lazy", "all"):
            add("depth 2 %s free sides, cuts" % rows, 2, 2, F, C2, TREE2, [1, "cuts", 7, 10, 13], rows=rows, cost=60)
            add("depth 2 %s two cuts" % rows, 2, 2, F, C2, TREE2, ["cuts", 1, 7, "cuts", 10, 13], rows=rows, given=G2, cost=60)
            add("depth 1 %s three cuts" % rows, 1, 2, (0, 1), {0: [0, 1]}, [0, 3], ["cuts", 1, "cuts", 2, "cuts", 0], rows=rows, cost=40)
        add("depth 2 rows, cuts, rows", 2, 3, F, C2, TREE2, ["rows", 1, "cuts", 7, "rows", 10, 15], rows="lazy", drop=True, given=([[1, 2], [3, 0], [2, 1]], [2, 4, 1]), cost=60)
        add("depth 2 rows three times", 2, 3, F, C2, TREE2, ["rows", 1, 6, "rows", 9, "rows", 13, 3, 7], rows="lazy", cost=60)
    return out
