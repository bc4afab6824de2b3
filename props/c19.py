"""C19 Preprocessing rows loses no information, wherever it is cut short."""
import numpy as np
from props.dtmaster import *

LEVEL_NOTE = ("Decided for every data set of 1-5 rows with arbitrary real values and thresholds, trees of depth 1-3, "
              "candidate lists of 1-3 splits, every labelling with 2 labels up to renaming, and every moment at which the time limit runs out. Long or large cases, with a few arbitrary values: 130 splits at one node.")
ASSUMES = ["the clock is non-decreasing", "splits carry the rows on their sides", "nodes are listed by id"]
BOUNDS = {"quick": "1-4 rows, depth 1-3, 3-4 splits; 130 splits at one node", "thorough": "1-5 rows, depth 1-3, 3-4 splits"}


def cell(vm):
    st = [0]

    def bump():
        if vm.E is not None:
            vm.E.touch(st)
        st[0] = st[0] + 1
        return st[0] - 1
    return bump


def bare_nodes(P):
    """the links of the nodes are not known yet"""
    for node in P.nodes:
        node.parent = node.left_child = node.right_child = -1
        node.children_are_leaves = False


def judge_links(vm, P, nodes):
    for k, node in enumerate(nodes):
        bottom = 2 * k + 1 >= 2 ** P.depth - 1
        off = 2 ** P.depth - 1 if bottom else 0
        vm.check(AND(vm.eq(node.parent, -1 if k == 0 else (k - 1) // 2), vm.eq(node.left_child, 2 * k + 1 - off),
                     vm.eq(node.right_child, 2 * k + 2 - off), IFF(node.children_are_leaves, bottom)), "links of node %d" % k)


def reach_nodes(P, r):
    out = {}
    for k in range(P.n_nodes):
        c, g = k, True
        while c > 0:
            f = (c - 1) // 2
            left = c == 2 * f + 1
            g = AND(g, OR([P.side[r][a] if left else NOT(P.side[r][a]) for a in P.cands[f]] or [False]))
            c = f
        out[k] = g
    return out


def same_paths(P, r, q):
    """both rows are followed by exactly the same selectable paths"""
    return AND([IFF(P.follows(r, l, c), P.follows(q, l, c)) for l, c in all_paths(P)])


def same_sides(P, r, q):
    """the same side on every split selectable at every node either can reach"""
    a, b = reach_nodes(P, r), reach_nodes(P, q)
    return AND([IMPLIES(OR(a[k], b[k]), IFF(P.side[r][s], P.side[q][s])) for k in range(P.n_nodes) for s in P.cands[k]])


def judge(vm, P, rows, y, pricing=True):
    vm.check(len(rows) == P.n, "one record per row")
    if len(rows) != P.n:
        return
    reach = [reach_leaves(P, r) for r in range(P.n)]
    for r, row in enumerate(rows):
        for s in range(len(P.splits)):
            vm.check(AND(IFF(vm.member(row.left_splits, s), P.side[r][s]), IFF(vm.member(row.right_splits, s), NOT(P.side[r][s]))), "sides of a row")
        for l, g in reach[r].items():
            vm.check(IFF(vm.member(row.reachable_leaves, l), g), "reachable leaves are those that can be reached")
        for k, g in reach_nodes(P, r).items():
            vm.check(IFF(vm.member(row.reachable_nodes, k), g), "reachable nodes are those that can be reached")
        for g, e in vm.items(row.reachable_leaves):
            vm.check(IMPLIES(g, AND(e >= 0, e < 2 ** P.depth)), "reachable leaves are leaves")
    mkept = [NOT(row.removed_from_master) for row in rows]
    for r, row in enumerate(rows):
        twin = OR([AND(mkept[q], same_paths(P, r, q)) for q in range(P.n) if q != r] or [False])
        few = SUM([ITE(g, 1, 0) for g in reach[r].values()]) <= 2
        vm.check(IMPLIES(row.removed_from_master, OR(few, twin)), "a row dropped from the master reaches two leaves at most or has a kept twin")
    gone = [row.removed_from_sp for row in rows]
    for r, row in enumerate(rows):
        if pricing:
            vm.check(vm.eq(row.target, y[r]), "label of a row")
        vm.check(IMPLIES(gone[r], row.removed_from_master), "a row dropped from the pricing problems has no constraint in the master")
        twins = [AND(NOT(gone[q]), same_sides(P, r, q)) for q in range(P.n) if q != r and y[q] == y[r]]
        vm.check(IMPLIES(gone[r], OR(twins or [False])), "a row is dropped from the pricing problems only for an equal one that stays")
    vm.check(vm.eq(SUM([ITE(gone[r], 0, rows[r].weight) for r in range(P.n)]), P.n), "the weights of the kept rows count all rows")
    for t in sorted(set(y)):
        for l, c in all_paths(P):
            true = SUM([ITE(P.follows(r, l, c), 1, 0) for r in range(P.n) if y[r] == t])
            kept = SUM([ITE(AND(P.follows(r, l, c), NOT(gone[r])), rows[r].weight, 0) for r in range(P.n) if y[r] == t])
            vm.check(vm.eq(true, kept), "weighted count of a path and label equals the true count")


def pre(depth, n, feats, cands, ys, aggressive=True, clock=True, limit=None, concrete=None):
    def h(vm):
        y = vm.one_of("labels", ys)
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        bare_nodes(P)
        if limit is None:
            lim = vm.real("limit")
            vm.assume(lim > 0)
        else:
            lim = limit
        if clock:
            # the time is up from some reading on
            cut = vm.int_in("cut", 0, n * n + 2)
            t0 = vm.real("t0")
            bump = cell(vm)
            vm.hooks["clock"] = lambda: ITE(bump() < cut, t0, t0 + abs_(lim) + 1)
        kw = {} if limit == "default" else {"time_limit": lim}
        rows = vm.call(vm.exp.preprocess, P.nodes, P.splits, P.X, np.array(y), depth, aggressive, **kw)
        rows = [e for _, e in vm.items(rows)]
        judge(vm, P, rows, y)
        judge_links(vm, P, P.nodes)
        P.check_unchanged()
    return h


def abs_(v):
    return ITE(v < 0, -v, v)


def master(depth, n, feats, cands, aggressive, initial, concrete=None):
    def h(vm):
        P = Problem(vm, n, depth, feats, cands, concrete=concrete)
        bare_nodes(P)
        allp = all_paths(P)
        specs = [allp[i % len(allp)] for i in initial]
        paths = [P.path(l, c, 0, 0) for l, c in specs]
        for i, p in enumerate(paths):
            p.id = i
        mp = vm.call(vm.dt.DTreeMasterProblem, list(paths), P.leaves, P.nodes, P.splits)
        mp.X_ = P.X
        y = [r % 2 for r in range(n)]
        mp.y_ = np.array(y)
        rows = [e for _, e in vm.items(vm.call(mp.preprocess_rows, aggressive))]
        judge(vm, P, rows, y, pricing=False)
        if len(rows) != n:
            return
        for r in range(n):
            for i, (l, c) in enumerate(specs):
                vm.check(IFF(vm.member(rows[r].reachable_paths, i), P.follows(r, l, c)), "the paths a row follows")
        judge_links(vm, P, P.nodes)
        P.check_unchanged()
    return h


def sides(n, feats):
    """filling the row sets of the splits"""
    def h(vm):
        P = Problem(vm, n, 1, feats, {0: list(range(len(feats)))})
        for sp in P.splits:
            sp.left_rows, sp.right_rows = set(), set()
        got = [e for _, e in vm.items(vm.call(vm.exp.add_rows_to_splits, P.splits, P.X))]
        vm.check(len(got) == len(feats), "every split is kept")
        vm.check([vm.concrete(s.id) for s in got] == list(range(len(feats))), "in its place")
        P.splits = got
        P.check_unchanged("but for the rows on either side")
    return h


def scenarios(tier):
    q = tier == "quick"
    F = (0, 0, 1)
    out = []
    two = [[0, 0], [0, 1]]
    three = [[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1]]
    C1 = {0: [0, 1, 2]}
    CA = {0: [0], 1: [1], 2: [0, 2]}
    CB = {0: [2, 0], 1: [1], 2: [1, 0]}
    CC = {0: [0, 1], 1: [2], 2: [2, 1]}
    for s in (True, False):
        tag = "aggressive" if s else "plain"
        out.append(("depth 1 two rows " + tag, pre(1, 2, F, C1, two, s), {"cost": 2}))
        out.append(("depth 2 two rows " + tag, pre(2, 2, F, CC, two, s), {"cost": 4}))
    out.append(("one row", pre(2, 1, F, CA, [[0]], True), {"cost": 1}))
    for i, y in enumerate(three):
        out.append(("depth 1 three rows %d" % i, pre(1, 3, F, {0: [0, 2]}, [y]), {"cost": 6}))
        out.append(("depth 2 three rows %d" % i, pre(2, 3, F, [CA, CB, CC, CA][i], [y]), {"cost": 20}))
        out.append(("depth 2 three rows no limit %d" % i, pre(2, 3, F, [CC, CA, CB, CC][i], [y], clock=False), {"cost": 20}))
    out.append(("no limit", pre(2, 2, F, CB, two, limit=-1), {"cost": 4}))
    out.append(("default limit", pre(2, 2, F, CB, two, limit="default", clock=False), {"cost": 4}))
    for s in (True, False):
        out.append(("master depth 1 %s" % s, master(1, 2, F, C1, s, [0, 1, 2, 3, 4]), {"cost": 2}))
        out.append(("master depth 2 two rows %s" % s, master(2, 2, F, CC, s, [0, 3, 5, 6]), {"cost": 4}))
        out.append(("master depth 2 three rows %s" % s, master(2, 3, F, CB, s, [0, 3, 5, 6]), {"cost": 20}))
    # rows that differ only above the lowest level, and only on it
    for nm, c in (("upper", {0: [0, 1], 1: [2, 3], 2: [2, 3]}), ("lower", {0: [2, 3], 1: [0, 1, 2], 2: [1, 3]})):
        out.append(("master depth 2 %s splits" % nm, master(2, 2, (0, 1, 0, 1), c, True, [0, 3, 5, 6]), {"cost": 8}))
        out.append(("depth 2 %s splits" % nm, pre(2, 2, (0, 1, 0, 1), c, two, clock=False), {"cost": 8}))
    # many splits at a node: the two arbitrary rows may differ on any of them
    FM, DM = many_splits(3, 130, (0, 2))
    CM = {0: list(range(130))}
    CN = {0: [3, 128], 1: list(range(0, 130, 2))[::-1], 2: [1] + list(range(76, 130))}
    out.append(("depth 1 130 splits", pre(1, 3, FM, CM, [[0, 1, 0]], clock=False, concrete=DM), {"cost": 20}))
    out.append(("depth 2 130 splits", pre(2, 3, FM, CN, [[0, 1, 0]], clock=False, concrete=DM), {"cost": 20}))
    out.append(("master depth 1 130 splits", master(1, 3, FM, CM, True, [0, 100, 131], concrete=DM), {"cost": 20}))
    out.append(("master depth 2 130 splits", master(2, 3, FM, {0: list(range(130)), 1: [57, 12], 2: [76, 30]}, True, [0, 100, 261, 700], concrete=DM), {"cost": 20}))
    out.append(("row sets", sides(3, F), {"cost": 1}))
    D3 = {k: [k % 4] if k else [0, 1] for k in range(7)}
    out.append(("depth 3", pre(3, 2, (0, 1, 0, 1), D3, two), {"cost": 20}))
    out.append(("depth 3 three rows", pre(3, 3, (0, 1, 0, 1), D3, three[1:2]), {"cost": 20}))
    four = [[0] + [b >> i & 1 for i in range(3)] for b in range(8)]
    for i, y in enumerate(four):
        out.append(("depth 2 four rows %d" % i, pre(2, 4, F, [CA, CB, CC][i % 3], [y]), {"cost": 20}))
        out.append(("depth 1 four rows %d" % i, pre(1, 4, F, {0: [2, 1]}, [y]), {"cost": 20}))
    for s in (True, False):
        out.append(("master depth 2 four rows %s" % s, master(2, 4, F, CC, s, [0, 3, 5, 6, 6, 1]), {"cost": 20}))
    if not q:
        C3 = {0: [0, 1, 2], 1: [2, 0], 2: [1, 2]}
        for i, y in enumerate(four):
            for j, c in enumerate((CA, CB, CC, C3)):
                out.append(("depth 2 four rows %d tree %d" % (i, j), pre(2, 4, F, c, [y]), {"cost": 40}))
        for i in range(16):
            y = [0] + [i >> k & 1 for k in range(4)]
            out.append(("depth 2 five rows %d" % i, pre(2, 5, F, [CB, CC][i % 2], [y]), {"cost": 60}))
        out.append(("three labels", pre(2, 4, F, C3, [[0, 1, 2, 0], [0, 1, 2, 1], [0, 0, 1, 2]]), {"cost": 60}))
        for i, y in enumerate(four):
            out.append(("depth 3 four rows %d" % i, pre(3, 4, (0, 1, 0, 1), D3, [y]), {"cost": 100}))
        out.append(("master depth 3", master(3, 4, (0, 1, 0, 1), D3, True, [0, 3, 5, 6, 9]), {"cost": 60}))
    return out
