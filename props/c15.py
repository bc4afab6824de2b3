"""C15 Lazily added row constraints are right, needed, bounded and stay right."""
from props.dtmaster import *

LEVEL_NOTE = ("Decided for every LP solution (arbitrary real path values), every data set of 2-3 rows with arbitrary values and "
              "thresholds (12-14 rows with given sides for the limit of ten), every set of dropped rows, depth 1-2 trees with "
              "6-9 paths, two rounds with columns added between and after, and rounds run by solve_rmp at its tenth iteration. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well. Long or large cases, with a few arbitrary values: 130 splits and 8 rounds.")
ASSUMES = ["initial paths use candidate splits of their nodes", "splits on one feature have different thresholds"]
BOUNDS = {"quick": "depth 1-2, 2-3 rows (12 given), 2 rounds; many rows with a few arbitrary ones; 130 splits and 8 rounds", "thorough": "depth 1-2, 3-4 rows (14 given), 3 rounds; many rows with a few arbitrary ones"}


def lp(vm, tag, k, free=None):
    """hook answering with arbitrary values for the first k variables (those in free, the others are given)"""
    vals = [vm.real_in("%s.v%d" % (tag, i), 0) if free is None or i in free else Fraction(i % 3, 4) for i in range(k)]

    def hook(s):
        return 0, [vals[i] if i < k else 0 for i in range(len(s._vars))], [0] * len(s._cons), 0
    return vals, hook


def new_rows(s, m0):
    return [(guard_of(c), val_of(c)) for c in s._cons[m0:]]


def is_row(P, con, specs, ids, r):
    """the constraint says: at most one of the paths followed by row r"""
    ok = [EQ(coef(con._coefs, i), ITE(P.follows(r, l, c), 1, 0)) for (l, c), i in zip(specs, ids)]
    others = [i for i in resolve(con._coefs) if i not in ids]
    ok += [EQ(coef(con._coefs, i), 0) for i in others]
    ok.append(isinf(con._lb) and con._lb < 0)
    ok.append(EQ(con._ub, 1))
    return AND(ok)


def violated(P, specs, x, r):
    d = row_sum(P, specs, x, r) - 1
    return OR(d > 1e-6, -d > 1e-6)


def prefix_same(vm, a, b, m):
    """nothing of the model before the round has changed"""
    return AND(a["n"] == b["n"], a["max"] == b["max"], b["m"] >= m, same_dump_prefix(vm, a, b, m))


def same_dump_prefix(vm, a, b, m):
    na = a["nums"]
    return AND([vm.eq(x, y) for x, y in zip(na, b["nums"][:len(na)])])


def gdump(s):
    """dump with conditional rows, each as (guard, lb, ub, coefs)"""
    n = len(s._vars)
    rows_ = [(g, c._lb, c._ub, [coef(c._coefs, i) for i in range(n)]) for g, c in rows(s)]
    vars_ = [(v._lb, v._ub, v._integer) for v in s._vars]
    return {"n": n, "rows": rows_, "vars": vars_, "obj": [coef(s._obj._coefs, i) for i in range(n)] + [s._obj._offset], "max": s._obj._maximize}


def unchanged(vm, a, b):
    if a["n"] != b["n"] or a["max"] != b["max"] or len(b["rows"]) < len(a["rows"]):
        return False
    c = []
    for (g, lo, up, cs), (g2, lo2, up2, cs2) in zip(a["rows"], b["rows"]):
        c += [IFF(g, g2), vm.eq(lo, lo2), vm.eq(up, up2)] + [vm.eq(x, y) for x, y in zip(cs, cs2)]
    for x, y in zip(a["vars"], b["vars"]):
        c += [vm.eq(p, q) for p, q in zip(x, y)]
    c += [vm.eq(x, y) for x, y in zip(a["obj"], b["obj"])]
    return AND(c)


def judge_round(vm, P, s, before, m0, specs, ids, x, kept, present, got, what):
    """present: row -> condition that its constraint is there already; returns the new map"""
    n = P.n
    vm.check(unchanged(vm, before, gdump(s)), "a round changes no existing row or column " + what)
    need = [AND(kept[r], NOT(present[r]), violated(P, specs, x, r)) for r in range(n)]
    # all of them, up to ten, the first ones first
    counts = [ITE(c, 1, 0) for c in need]
    total = SUM(counts)
    new = new_rows(s, m0)
    added = SUM([ITE(g, 1, 0) for g, _ in new] or [0])
    vm.check(vm.eq(added, ITE(total > 10, 10, total)), "all violated rows are added, up to ten " + what)
    vm.check(vm.eq(got, added), "the number of added rows is reported " + what)
    # each new constraint is the one of a needed row
    for g, con in new:
        vm.check(IMPLIES(g, OR([AND(need[r], is_row(P, con, specs, ids, r)) for r in range(n)])),
                 "every added constraint is that of a violated, kept row " + what)
    # each needed row (at most ten in all) has its constraint
    for r in range(n):
        have = OR([AND(g, is_row(P, con, specs, ids, r)) for g, con in new] or [False])
        vm.check(IMPLIES(AND(need[r], total <= 10), have), "every violated row gets its constraint " + what)
    return need, total


def direct(depth, n, feats, cands, initial, added, rounds, concrete=None, drop=True, between=True, lpfree=None):
    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        allp = all_paths(P)
        specs = [allp[i % len(allp)] for i in initial]
        more = [allp[i % len(allp)] for i in added]
        rm = [vm.bool("row %d dropped" % r) for r in range(n)] if drop else [False] * n
        y = [r % 2 for r in range(n)]
        mp, paths, Y = build(vm, P, specs, [0] * len(specs), [0] * len(specs), y, data_rows(vm, n, rm), lazy=True)
        s = mp.solver_
        kept = [NOT(g) for g in rm]
        present = [False] * n
        base_m = len(s._cons)

        def add(k):
            for l, c in more[:k]:
                p = P.path(l, c, 0, 0)
                vm.call(mp.add_column, p)
                paths.append(p)
                specs.append((l, c))
            del more[:k]
        per = len(more) // rounds
        for t in range(rounds):
            what = "(round %d)" % t
            ids = path_ids(vm, mp, paths)
            if ids is None:
                return
            if t == 0:
                vm.check(len(new_rows(s, base_m)) == 0, "no row constraint before the first round")
            vals, hook = lp(vm, "lp%d" % t, len(s._vars), lpfree)
            vm.hooks["mp_solve"] = hook
            vm.call(mp.solve_rmp, "")
            x = [vals[i] for i in ids]
            before = gdump(s)
            m0 = len(s._cons)
            got = vm.call(mp.add_beta_cuts)
            need, total = judge_round(vm, P, s, before, m0, specs, ids, x, kept, present, got, what)
            vm.assume(total <= 10) if not isinstance(total, int) and n > 10 and t < rounds - 1 else None
            present = [OR(a, b) for a, b in zip(present, need)]
            # columns added later enter exactly the constraints of the rows that follow them
            add(per if t < rounds - 1 else len(more))
            ids = path_ids(vm, mp, paths)
            if ids is None:
                return
            now = new_rows(s, base_m)
            for r in range(n):
                cnt = SUM([ITE(AND(g, is_row(P, con, specs, ids, r)), 1, 0) for g, con in now] or [0])
                if n <= 10:
                    vm.check(IMPLIES(present[r], cnt >= 1), "columns added later are in the constraints of the rows that follow them " + what)
            for g, con in now:
                vm.check(IMPLIES(g, OR([AND(kept[r], is_row(P, con, specs, ids, r), present[r] if n <= 10 else True) for r in range(n)])),
                         "row constraints stay those of their rows " + what)
        P.check_unchanged()
    return h


def by_solve(depth, n, feats, cands, initial, added, rounds, concrete=None, statuses=(0,)):
    """Rounds run by solve_rmp at its tenth iteration; merging off."""
    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        allp = all_paths(P)
        specs = [allp[i % len(allp)] for i in initial]
        y = [r % 2 for r in range(n)]
        rm = [r == n - 1 and n > 2 for r in range(n)]
        mp, paths, Y = build(vm, P, specs, [0] * len(specs), [0] * len(specs), y, data_rows(vm, n, rm), lazy=True, rounds=rounds)
        s = mp.solver_
        for l, c in [allp[i % len(allp)] for i in added]:
            p = P.path(l, c, 0, 0)
            vm.call(mp.add_column, p)
            paths.append(p)
            specs.append((l, c))
        ids = path_ids(vm, mp, paths)
        if ids is None:
            return
        vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
        base = len(s._cons)
        for k in range(9):
            vm.call(mp.solve_rmp, "")
        vm.check(len(s._cons) == base, "no rows are added before the tenth iteration")
        log = []

        def hook(s):
            k = len(log)
            vals = [vm.real_in("lp%d.v%d" % (k, i), 0) for i in range(len(s._vars))]
            log.append(([vals[i] for i in ids], len(s._cons)))
            st = statuses[min(k, len(statuses) - 1)]
            return st, vals, [0] * len(s._cons), 0
        vm.hooks["mp_solve"] = hook
        vm.split(mp.solve_rmp, "")
        vm.check(1 <= len(log) <= rounds + 1, "one solve and at most one more per round")
        present = [False] * n
        kept = [not g for g in rm]
        for k, (x, m) in enumerate(log):
            end = log[k + 1][1] if k + 1 < len(log) else len(s._cons)
            new = [val_of(c) for c in s._cons[m:end]]
            last = k == len(log) - 1
            if k >= rounds or statuses[min(k, len(statuses) - 1)] != 0:
                vm.check(not new, "no rows are added after the last round or without a solution")
                continue
            need = [AND(kept[r], NOT(present[r]), violated(P, specs, x, r)) for r in range(n)]
            vm.check(EQ(SUM([ITE(c, 1, 0) for c in need]), len(new)), "each round adds all violated rows")
            for r in range(n):
                vm.check(IMPLIES(need[r], OR([is_row(P, con, specs, ids, r) for con in new] or [False])), "with their constraints")
            for con in new:
                vm.check(OR([AND(need[r], is_row(P, con, specs, ids, r)) for r in range(n)]), "and no others")
            if last:
                vm.check(not new, "the problem is solved again after rows were added")
            present = [OR(a, b) for a, b in zip(present, need)]
    return h


C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
XS = [[i * 2 % 7, i * 3 % 5] for i in range(14)]
TS = [3, 1, 2]


def scenarios(tier):
    q = tier == "quick"
    out = []
    out.append(("depth 1", direct(1, 2 if q else 3, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1, 4, 2, 5, 1], 2), {"cost": 4}))
    out.append(("depth 1 one round", direct(1, 3, (0, 0, 1), {0: [0, 1, 2]}, [0, 3, 1], [4, 2], 1), {"cost": 4}))
    out.append(("depth 2", direct(2, 2, (0, 0, 1), C2, [0, 4, 8, 12, 9], [1, 7, 10, 15], 2), {"cost": 14}))
    out.append(("depth 2 three rows", direct(2, 3, (0, 0, 1), C2, [0, 4, 8, 12], [1, 10], 1 if q else 2), {"cost": 14}))
    out.append(("depth 2 twelve rows", direct(2, 12, (0, 0, 1), C2, [0, 4, 8, 12], [1, 10], 1, concrete=(XS[:12], TS), drop=False), {"cost": 20}))
    out.append(("depth 1 twelve rows, some dropped", direct(1, 12, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1, 4], 1, concrete=(XS[:12], TS)), {"cost": 20}))
    out.append(("depth 2 by the tenth solve", by_solve(2, 3, (0, 0, 1), C2, [0, 4, 8, 12], [1, 10], 2, concrete=(XS[:3], TS)), {"cost": 10}))
    out.append(("depth 1 by the tenth solve", by_solve(1, 2, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1], 3, concrete=(XS[:2], TS)), {"cost": 10}))
    out.append(("depth 1 by the tenth solve, then unsolved", by_solve(1, 2, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1], 3, concrete=(XS[:2], TS), statuses=(0, 2)), {"cost": 10}))
    if not q:
        out.append(("depth 2 fourteen rows", direct(2, 14, (0, 0, 1), C2, [0, 4, 8, 12], [1, 10], 1, concrete=(XS, TS), drop=False), {"cost": 40}))
        out.append(("depth 2 three rounds", direct(2, 3, (0, 0, 1), C2, [0, 4, 8, 12], [1, 7, 10], 3), {"cost": 60}))
        out.append(("depth 2 by the tenth solve, four rows", by_solve(2, 4, (0, 0, 1), C2, [0, 4, 8, 12], [1, 10, 6], 3, concrete=(XS[:4], TS)), {"cost": 60}))
    out.append(("40 rows", direct(2, 40, (0, 0, 1), {0: [0, 1], 1: [2, 0], 2: [1, 2]}, [0, 4, 8, 12, 3], [1, 7], 1,
                                  concrete=many_rows(40, (39,), (2, 5, 3)), drop=False, lpfree=(1, 3)), {"cost": 30}))
    out.append(("depth 1 eight rounds", direct(1, 4, (0, 0, 1), {0: [0, 1, 2]}, [0, 3], [1, 4, 2, 5, 1, 0, 3, 2], 8, concrete=(XS[:4], TS), drop=False, lpfree=(1,)), {"cost": 20}))
    FM, DM = many_splits(3, 130, (0,))
    out.append(("depth 2 130 splits", direct(2, 3, FM, {0: [0, 120, 5], 1: [129, 20], 2: [101, 1]}, [0, 6, 12, 18], [3, 8, 14, 22], 2, concrete=DM), {"cost": 14}))
    return out
