"""C18 Heuristic tree pricing returns only valid, improving, distinct paths."""
from props.dtpricing import *

LEVEL_NOTE = ("Decided over every outcome of the random draws of the first 1-2 attempts (later attempts repeat them), every data set "
              "of 1-3 rows, weights 1-1000, removed rows, every real duals and cut rows, trees of depth 1-2 (3 thorough), 2-3 labels. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well. Long or large cases, with a few arbitrary values: 14 given calls (1400 attempts) before the arbitrary one.")
ASSUMES = ["rows left out of pricing have no master constraint (dual 0)", "weights are positive integers",
           "attempts after the first ones repeat the draws of the first ones"]
BOUNDS = {"quick": "depth<=2, rows<=3, 2 free attempts, 2 calls; many rows with a few arbitrary ones; 14 given calls (1400 attempts) before the arbitrary one", "thorough": "depth<=3, 3 free attempts; many rows with a few arbitrary ones"}


def run(depth, n, feats, cands, y, free, removed=(), rows_given=True, ncuts=0, calls=1, leaves=None, split=False, concrete=None, quiet=0):
    """quiet: further calls at the start, with given duals that make nothing worthwhile; free: ranges of the random draws that are arbitrary; leaves: leaf of each attempt, when fixed; split: every decision on its own path"""
    def h(vm):
        import numpy as np
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        nt = max(y) + 1
        targets = list(range(nt))
        weight = [vm.int_in("weight%d" % r, 1, 1000) if rows_given else 1 for r in range(n)]
        rows = None
        if rows_given:
            rows = []
            for r in range(n):
                row = vm.dt.Row()
                row.id, row.weight = r, weight[r]
                row.removed_from_sp = row.removed_from_master = r in removed
                rows.append(row)
        kept = [r for r in range(n) if r not in removed]
        sp = vm.call(vm.dt.DTreeSubProblemHeuristic, P.leaves, P.nodes, P.splits, targets, depth, rows)
        Y = np.array(list(y))
        st = {"k": 0, "attempts": 0}
        # the arbitrary draws, repeated afterwards
        free_draws = []
        for i, size in enumerate(free):
            free_draws.append(vm.concrete(vm.int_in("pick%d" % i, 0, size - 1)) if size > 1 else 0)

        def bump(what):
            if vm.E is not None:
                vm.E.touch(st)
            st[what] = st[what] + 1
            return st[what] - 1

        def draw(size):
            return free_draws[bump("k") % len(free_draws)] % size

        def pick(seq):
            size = len(seq)
            if size and all(hasattr(e, "left_nodes") for e in seq):
                a = bump("attempts")
                if leaves is not None:
                    return seq[leaves[a % len(leaves)]]
            return seq[draw(size)]
        vm.hooks["pick"] = pick
        vm.hooks["draw_int"] = lambda k, a, b: a + draw(b - a + 1)
        cuts = []
        total = 0
        for t in range(quiet):
            none = Duals(vm, P, "", 0, [], given=5000)
            vm.call(sp.update_subproblem, P.X, Y, none.tup)
            nothing = vm.fork(EQ(seq_len(vm.items(vm.call(sp.generate_columns, P.X, Y, none.tup, ""))), 0))
            vm.check(nothing, "nothing worthwhile, nothing returned")
            if not nothing:
                return
        for t in range(calls):
            new = cut_sides(vm, "cut%d." % t, ncuts, len(feats))
            cuts += new
            D = Duals(vm, P, "d%d" % t, len(cuts), new, zero_rows=removed)
            vm.call(sp.update_subproblem, P.X, Y, D.tup)
            got = vm.items((vm.split if split else vm.call)(sp.generate_columns, P.X, Y, D.tup, ""))
            judge(vm, P, D, cuts, kept, weight, y, targets, got, "(call %d)" % t)
            P.check_unchanged("(call %d)" % t)
            total = total + SUM([ITE(g, 1, 0) for g, _ in got] or [0])
            vm.check(vm.eq(sp.success_rounds, total), "successes are counted (call %d)" % t)
        if st["attempts"]:
            vm.check(vm.eq(sp.success_rounds + sp.failed_rounds, st["attempts"]), "successes and failures sum to the attempts")
    return h


def judge(vm, P, D, cuts, kept, weight, y, targets, got, what):
    info = []
    for g, p in got:
        leaf = vm.concrete(p.leaf_id)
        okl = isinstance(leaf, int) and 0 <= leaf < 2 ** P.depth
        vm.check(IMPLIES(g, okl), "the path ends in an existing leaf " + what)
        ids = [vm.concrete(k) for _, k in vm.items(p.node_ids)]
        sps = [vm.concrete(k) for _, k in vm.items(p.splits)]
        if not okl:
            continue
        okn = sorted(ids) == sorted(k for k, _ in walk(leaf, P.depth)) and len(sps) == len(ids)
        vm.check(IMPLIES(g, okn), "the path has the nodes of its leaf and one split each " + what)
        if not okn:
            continue
        vm.check(IMPLIES(g, all(s in P.cands[k] for k, s in zip(ids, sps))), "the splits are candidates of their nodes " + what)
        vm.check(IMPLIES(g, len(set(sps)) == len(sps)), "no split is used twice " + what)
        choice = dict(zip(ids, sps))
        spec = Spec(vm, P, leaf, y, targets, D, cuts, kept, weight)
        cnt = [spec.cost(choice, t) for t in targets]
        vm.check(IMPLIES(g, OR([EQ(p.target, t) for t in targets])), "the target is a valid one " + what)
        for t in targets:
            best = AND([cnt[t] >= c for c in cnt])
            vm.check(IMPLIES(AND(g, EQ(p.target, t)), AND(best, vm.eq(p.cost, cnt[t]))),
                     "the target is a weighted majority label of the covered rows and the cost its weight " + what)
        rc = MAX(cnt) + spec.parts(choice) - D.alpha[leaf]
        vm.check(IMPLIES(g, rc > 1e-6 if vm.sym else rc > 1e-6 - 1e-9), "the reduced cost exceeds the threshold " + what)
        info.append((g, leaf, choice, p.target))
    for i in range(len(info)):
        for j in range(i):
            a, b = info[i], info[j]
            if a[1] == b[1] and a[2] == b[2]:
                vm.check(NOT(AND(a[0], b[0], EQ(a[3], b[3]))), "the returned paths are distinct " + what)


def MAX(cs):
    m = cs[0]
    for c in cs[1:]:
        m = ITE(c > m, c, m)
    return m


def scenarios(tier):
    q = tier == "quick"
    C1 = {0: [0, 1, 2]}
    C2 = {0: [0, 1], 1: [2, 0], 2: [1]}
    out = [
        ("depth 1", run(1, 2, (0, 0, 1), {0: [2, 0]}, (0, 1), (1, 2, 2, 2), calls=1), {"cost": 10, "budget": 300}),
        ("depth 1 cuts", run(1, 1, (0, 0, 1), C1, (1,), (2, 3), ncuts=2, calls=2), {"cost": 6}),
        ("depth 1 three labels", run(1, 3, (0, 0, 1), C1, (2, 0, 1), (2, 3)), {"cost": 6}),
        ("depth 1 removed", run(1, 3, (0, 0, 1), C1, (0, 1, 1), (2, 3), removed=(1,)), {"cost": 6}),
        ("depth 1 first rows removed", run(1, 4, (0, 0, 1), {0: [0, 2]}, (1, 0, 1, 0), (2, 2), removed=(0, 2)), {"cost": 6}),
        ("depth 1 no row data", run(1, 2, (0, 0, 1), C1, (0, 1), (2, 3), rows_given=False, ncuts=1), {"cost": 6}),
        ("depth 2", run(2, 2, (0, 1, 0), C2, (0, 1), (4, 2, 2)), {"cost": 10, "budget": 300}),
        ("depth 2 repeated splits", run(2, 1, (0, 1), {0: [0], 1: [0], 2: [0, 1]}, (1,), (4, 2, 2, 4)), {"cost": 10, "budget": 300}),
        ("depth 2 two leaves", run(2, 2, (0, 1, 0), C2, (1, 1), (1, 2, 2, 2), leaves=(3, 0), ncuts=1), {"cost": 10, "budget": 300}),
        ("30 rows", run(1, 30, (0, 0, 1), C1, [r % 2 for r in range(30)], (2, 3), removed=(4, 7), concrete=many_rows(30, (0, 29), (2, 5, 3))), {"cost": 10, "budget": 300}),
        ("alternating leaves", run(1, 1, (0,), {0: [0]}, (1,), (1,), leaves=(0, 1), split=True), {"cost": 4}),
        ("alternating four leaves", run(2, 1, (0, 1, 0), {0: [0], 1: [1], 2: [2]}, (1,), (1,), leaves=(3, 0, 2, 0), split=True), {"cost": 6}),
    ]
    out.append(("depth 1 after 14 calls", run(1, 1, (0, 0), {0: [0, 1]}, (1,), (2,), quiet=14), {"cost": 20, "budget": 300}))
    if not q:
        out += [
            ("depth 1 all", run(1, 2, (0, 0, 1), C1, (0, 1), (2, 3, 2, 3), calls=1), {"cost": 10, "budget": 600}),
            ("depth 2 all", run(2, 3, (0, 1, 0), C2, (0, 1, 1), (4, 2, 2, 4, 2, 2)), {"cost": 60, "budget": 2400}),
            ("depth 1 three attempts", run(1, 2, (0, 0, 1), C1, (0, 1), (2, 3, 2, 3, 2, 3), calls=1), {"cost": 60, "budget": 2400}),
            ("depth 3", run(3, 2, (0, 1, 0), {k: [k % 3, (k + 1) % 3] for k in range(7)}, (0, 1), (8, 2, 2, 2)), {"cost": 60, "budget": 2400}),
            ("depth 1 cuts two calls", run(1, 2, (0, 0, 1), C1, (1, 0), (2, 3), ncuts=2, calls=3), {"cost": 30, "budget": 1200}),
        ]
    return out
