"""C27 Warm-start paths form a valid tree with true majority costs."""
import itertools
from props.dtlib import *

LEVEL_NOTE = ("Decided for every data set of 2-4 rows with arbitrary real values and thresholds, every labelling of the rows with "
              "up to 3 labels (as listed per bound), complete trees of depth 1-3 and choices of the last-seen splits, and for the "
              "per-leaf variant every subset of known nodes, nodes without a split and removed splits. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well.")
ASSUMES = ["leaves carry the left and right nodes of a complete tree", "there is at least one row"]
BOUNDS = {"quick": "1-4 rows, 3 labels, depth 1-2 (3 with few rows), 1-4 splits; many rows with a few arbitrary ones", "thorough": "1-5 rows, 3 labels, depth 1-3, 1-4 splits, every choice of last splits at depth 2; many rows with a few arbitrary ones"}


def labels(vm, n, k, fixed=None):
    if fixed is not None:
        return list(fixed)
    return [vm.concrete(vm.int_in("y%d" % r, 0, k - 1)) for r in range(n)]


def judge_path(vm, P, path, leaf, choice, y, what):
    vm.check(path is not None, "a path is given " + what)
    if path is None:
        return
    depth = P.depth
    got = [(vm.concrete(a), vm.concrete(b)) for (_, a), (_, b) in zip(vm.items(path.node_ids), vm.items(path.splits))]
    vm.check(vm.length(path.node_ids) == depth and vm.length(path.splits) == depth, "one split per node of the path " + what)
    vm.check(sorted(got) == sorted((k, choice[k]) for k, _ in walk(leaf, depth)), "the nodes of the leaf's path, each with its last-seen split " + what)
    vm.check(vm.eq(path.leaf_id, leaf), "the path leads to its leaf " + what)
    fol = [P.follows(r, leaf, choice) for r in range(P.n)]
    cnt = {t: SUM([ITE(fol[r], 1, 0) for r in range(P.n) if y[r] == t]) for t in sorted(set(y))}
    for t in cnt:
        vm.check(cnt[t] <= path.cost, "no label has more rows than the cost " + what)
    vm.check(OR([AND(EQ(path.target, t), EQ(path.cost, cnt[t])) for t in cnt]), "the cost counts the rows of the path's label " + what)
    nobody = NOT(OR(fol))
    vm.check(IMPLIES(nobody, AND(EQ(path.target, y[0]), EQ(path.cost, 0))), "without rows, the first label and 0 " + what)


def whole_tree(depth, n, feats, maps, k=3, fixed=None, concrete=None):
    def h(vm):
        y = labels(vm, n, k, fixed)
        choice = vm.one_of("last", maps)
        choice = dict(enumerate(choice))
        P = Problem(vm, n, depth, feats, {i: list(range(len(feats))) for i in range(2 ** depth - 1)}, concrete=concrete)
        nodes = {}
        for i, node in enumerate(P.nodes):
            node.last_split = choice[i]
            nodes[i] = node
        leaves, paths = vm.call(vm.exp.get_all_leaves_paths, nodes, depth, P.splits, P.X, vm.array(y, int))
        leaves, paths = vm.plain(leaves), vm.plain(paths)
        L = 2 ** depth
        vm.check(sorted(leaves) == list(range(L)) and sorted(paths) == list(range(L)), "one leaf and one path per leaf")
        seen = []
        for l in range(L):
            for left, ids in ((True, leaves[l].left_nodes), (False, leaves[l].right_nodes)):
                vm.check(same_list(vm, ids, sorted(a for a, s in walk(l, depth) if s == left), ordered=False), "a leaf's left and right nodes")
            vm.check(vm.eq(leaves[l].id, l), "leaves are numbered from left to right")
        for i in range(L):
            l = vm.concrete(paths[i].leaf_id)
            seen.append(l)
            vm.check(vm.eq(paths[i].id, i), "paths are numbered")
            judge_path(vm, P, paths[i], l, choice, y, "(leaf %d)" % l)
        vm.check(sorted(seen) == list(range(L)), "every leaf has its path")
        lst = [p for _, p in vm.items(vm.call(vm.exp.get_paths_list, paths))]
        vm.check([vm.concrete(p.id) for p in lst] == list(range(L)), "the list of paths is indexed by id")
        lst = [p for _, p in vm.items(vm.call(vm.exp.get_leaves_list, leaves))]
        vm.check([vm.concrete(p.id) for p in lst] == list(range(L)), "the list of leaves is indexed by id")
        P.check_unchanged()
    return h


def per_leaf(depth, n, feats, choice, k=2, fixed=None, states=True, leaves=None):
    """states: which nodes the fitted tree lacks, or has without a known split, and which splits are removed is arbitrary"""
    def h(vm):
        y = labels(vm, n, k, fixed)
        P = Problem(vm, n, depth, feats, {i: list(range(len(feats))) for i in range(2 ** depth - 1)})
        l = vm.one_of("leaf", leaves or list(range(2 ** depth)))
        removed = [False] * len(feats)
        if states:
            removed = [vm.bool("removed%d" % s) for s in range(len(feats))]
        for s, c in enumerate(removed):
            P.splits[s].removed = c
        tree, here, last = {}, {}, {}
        for i, node in enumerate(P.nodes):
            st = vm.concrete(vm.int_in("state%d" % i, 0, 2)) if states else 1
            here[i] = st
            last[i] = -1 if st == 2 else choice[i]
            if st:
                node.last_split = last[i]
                tree[i] = node
        path, err = vm.attempt_split(vm.exp.get_path_for_leaf, P.leaves[l], tree, depth, P.splits, P.X, vm.array(y, int))
        vm.check(err is None, "no error")
        if err is not None:
            return
        ks = [a for a, _ in walk(l, depth)]
        usable = AND([here[a] == 1 for a in ks] + [NOT(removed[choice[a]]) for a in ks if here[a] == 1])
        vm.check(IFF(usable, path is not None), "a path exactly when every node of the leaf carries a known split that was not removed")
        if path is not None and all(here[a] == 1 for a in ks):
            judge_path(vm, P, path, l, choice, y, "(leaf %d)" % l)
        P.check_unchanged()
    return h


def scenarios(tier):
    q = tier == "quick"
    F = (0, 0, 1)
    out = []
    m1 = [(a,) for a in range(3)]
    m2 = [(0, 2, 1), (0, 1, 1), (1, 0, 2), (2, 2, 0), (0, 0, 0), (1, 1, 0)]
    if not q:
        m2 = list(itertools.product(range(3), repeat=3))
    out.append(("initial depth 1, 3 rows", whole_tree(1, 3, F, m1), {"cost": 6}))
    out.append(("initial depth 1, 4 rows", whole_tree(1, 4, F, m1[:2], k=2), {"cost": 6}))
    out.append(("initial depth 1, 5 rows", whole_tree(1, 5, F, m1[:1], fixed=(1, 0, 0, 1, 2)), {"cost": 6}))
    out.append(("initial depth 1, 1 row", whole_tree(1, 1, F, m1), {"cost": 1}))
    out.append(("initial depth 2, 2 rows", whole_tree(2, 2, F, m2, k=2), {"cost": 8}))
    out.append(("initial depth 2, 3 rows", whole_tree(2, 3, F, m2[:3] if q else m2, k=2), {"cost": 12}))
    out.append(("initial depth 3, 2 rows", whole_tree(3, 2, (0, 1, 0, 1), [(0, 1, 2, 3, 0, 1, 2)], k=2), {"cost": 6}))
    for l in range(2):
        out.append(("per leaf depth 1 leaf %d" % l, per_leaf(1, 3, F, {0: 1}, k=2, leaves=[l]), {"cost": 4}))
    for l in range(4):
        out.append(("per leaf depth 2 states leaf %d" % l, per_leaf(2, 2, F, {0: 0, 1: 2, 2: 0}, fixed=(1, 0), leaves=[l]), {"cost": 6}))
        out.append(("per leaf depth 2 labels leaf %d" % l, per_leaf(2, 3, F, {0: 1, 1: 2, 2: 0}, k=2, states=False, leaves=[l]), {"cost": 6}))
    out.append(("initial depth 1, 400 rows", whole_tree(1, 400, F, m1[2:], fixed=[(r * r) % 3 for r in range(400)], concrete=many_rows(400, (0, 199, 399), (2, 5, 3))), {"cost": 20}))
    out.append(("initial depth 2, 40 rows", whole_tree(2, 40, F, m2[:2], fixed=[(r * r) % 3 for r in range(40)], concrete=many_rows(40, (0, 19, 39), (2, 5, 3))), {"cost": 20}))
    if not q:
        out.append(("initial depth 2, 4 rows", whole_tree(2, 4, F, m2[:4], k=2), {"cost": 60}))
        out.append(("initial depth 3, 3 rows", whole_tree(3, 3, (0, 1, 0, 1), [(0, 1, 2, 3, 0, 1, 2), (3, 2, 1, 0, 3, 2, 1)], k=2), {"cost": 60}))
        for l in range(8):
            out.append(("per leaf depth 3 leaf %d" % l, per_leaf(3, 2, (0, 1, 0, 1), {i: (i * 3) % 4 for i in range(7)}, fixed=(1, 0), leaves=[l]), {"cost": 60}))
    return out
