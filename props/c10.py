"""C10 Leaf, path and node geometry describe one complete binary tree."""
from symvm.vals import *
from props.dtlib import *

LEVEL_NOTE = ("Decided for every depth from 1 to 4 (6 thorough) and every leaf id of that depth as a symbolic integer; "
              "deeper trees are outside.  Set-up from data is run with one row, since geometry does not depend on rows.")
ASSUMES = ["leaf ids are in [0, 2^depth)", "nodes are numbered 0 .. 2^depth-2"]
BOUNDS = {"quick": "depth 1..4, all leaves, stale previous content", "thorough": "depth 1..6"}


def sym_walk(leaf, depth):
    """[(node, odd)] with symbolic leaf; odd: child index is odd = left child."""
    out = []
    k = 2 ** depth - 1 + leaf
    for _ in range(depth):
        f = (k - 1) // 2
        out.append((f, EQ(k, 2 * f + 1)))
        k = f
    return out, k


def check_nodes(vm, ids, leaf, depth, what):
    w, root = sym_walk(leaf, depth)
    vm.check(EQ(vm.length(ids), depth), "%s: %d nodes" % (what, depth))
    for f, _ in w:
        vm.check(vm.member(ids, f), "%s: lists every node of the walk" % what)


def check_sides(vm, l, leaf, depth, what):
    w, root = sym_walk(leaf, depth)
    vm.check(EQ(vm.length(l.left_nodes) + vm.length(l.right_nodes), depth), "%s: each node once" % what)
    for f, left in w:
        vm.check(IFF(vm.member(l.left_nodes, f), left), "%s: left nodes are those whose left child is on the walk" % what)
        vm.check(IFF(vm.member(l.right_nodes, f), NOT(left)), "%s: right nodes" % what)


def geometry(depth, again):
    def h(vm):
        leaf = vm.int_in("leaf", 0, 2 ** depth - 1)
        p = vm.call(vm.dt.Path)
        l = vm.call(vm.dt.Leaf)
        if again:
            d = depth + again if depth + again > 0 else 1
            other = vm.int_in("earlier", 0, 2 ** d - 1)
            vm.call(p.set_leaf, other, d)
            vm.call(l.create_leaf, other, d)
        vm.call(p.set_leaf, leaf, depth)
        vm.call(l.create_leaf, leaf, depth)
        vm.observe("nodes", [p.node_ids, l.left_nodes, l.right_nodes])
        vm.check(AND(EQ(p.leaf_id, leaf), EQ(l.id, leaf)), "leaf id is recorded")
        check_nodes(vm, p.node_ids, leaf, depth, "path")
        check_sides(vm, l, leaf, depth, "leaf")
    return h


def links(depth):
    def h(vm):
        n = 2 ** depth - 1
        order = list(range(n))
        if vm.bool("reversed"):
            order = order[::-1]
        nodes = []
        for i in order:
            k = vm.dt.Node()
            k.id = i
            nodes.append(k)
        res = vm.call(vm.exp.preprocess_nodes, nodes, depth)
        res = vm.plain(res)
        vm.check(len(res) == n, "all nodes returned")
        by = {vm.concrete(k.id): k for k in res}
        vm.check(sorted(by) == list(range(n)), "node ids unchanged")
        check_links(vm, by, depth)
    return h


def check_links(vm, by, depth):
    n = 2 ** depth - 1
    leafno = {}
    # number leaves from the left by walking the tree
    def visit(i):
        if i >= n:
            leafno[i] = len(leafno)
            return
        visit(2 * i + 1)
        visit(2 * i + 2)
    visit(0)
    for i in range(n):
        k = by[i]
        want_parent = -1 if i == 0 else (i - 1) // 2
        vm.check(vm.eq(k.parent, want_parent), "parent of node %d" % i)
        for c, got in ((2 * i + 1, k.left_child), (2 * i + 2, k.right_child)):
            vm.check(vm.eq(got, leafno.get(c, c)), "child of node %d" % i)
        ch = k.children_are_leaves
        vm.check(IFF(ch, 2 * i + 1 >= n), "children_are_leaves of node %d" % i)


def setup(depth):
    """Leaves, paths and links as the experiment sets them up from data."""
    def h(vm):
        n = 2 ** depth - 1
        splits = [mk_split(vm, i, 0, vm.real("t%d" % i)) for i in range(n)]
        nodes = {}
        for i in range(n):
            k = vm.dt.Node()
            k.id = i
            k.candidate_splits = [i]
            k.last_split = i
            nodes[i] = k
        x = vm.real("x")
        X = vm.array([[x]])
        for s in splits:
            s.left_rows = cond_set(vm, [(x <= s.threshold, 0)])
            s.right_rows = cond_set(vm, [(x > s.threshold, 0)])
        leaves, paths = vm.call(vm.exp.get_all_leaves_paths, nodes, depth, splits, X, [0])
        leaves = vm.call(vm.exp.get_leaves_list, leaves)
        paths = vm.call(vm.exp.get_paths_list, paths)
        vm.check(len(leaves) == 2 ** depth and len(paths) == 2 ** depth, "one leaf and path per leaf id")
        seen = []
        for i, l in enumerate(leaves):
            vm.check(vm.eq(l.id, i), "leaf list is indexed by leaf id")
            check_sides(vm, l, i, depth, "leaf %d" % i)
        for p in paths:
            i = vm.concrete(p.leaf_id)
            seen.append(i)
            check_nodes(vm, p.node_ids, i, depth, "path of leaf %d" % i)
        vm.check(sorted(seen) == list(range(2 ** depth)), "each leaf has a path")
        nl = vm.call(vm.exp.get_nodes_list, nodes)
        vm.call(vm.exp.preprocess, nl, splits, X, [0], depth)
        check_links(vm, {k.id: k for k in nl}, depth)
    return h


def master_links(depth, given):
    """Links as the tree master sets them up by itself, from nodes without any."""
    def h(vm):
        n = 2 ** depth - 1
        X = vm.array([[vm.real("x")]])
        splits = [mk_split(vm, 0, 0, vm.real("t"))]
        nodes = []
        for i in range(n):
            k = vm.dt.Node()
            k.id = i
            k.candidate_splits = [0]
            nodes.append(k)
        leaves = [mk_leaf(vm, l, depth) for l in range(2 ** depth)]
        mp = vm.call(vm.dt.DTreeMasterProblem, [], leaves, nodes, splits)
        if given:
            mp.X_ = X
            vm.call(mp.preprocess_rows)
            vm.call(mp.preprocess_rows)
        else:
            import numpy as np
            vm.call(mp.generate_mp, X, np.array([0]))
        check_links(vm, {vm.concrete(k.id): k for k in nodes}, depth)
        for l in leaves:
            check_sides(vm, l, vm.concrete(l.id), depth, "leaf %d" % vm.concrete(l.id))
    return h


def scenarios(tier):
    D = 4 if tier == "quick" else 6
    out = []
    for d in range(1, D + 1):
        out.append(("geometry depth %d" % d, geometry(d, 0), {}))
        for again in (-1, 1, 2):
            out.append(("geometry depth %d, object reused (%+d)" % (d, again), geometry(d, again), {}))
        out.append(("links depth %d" % d, links(d), {}))
        out.append(("master links depth %d" % d, master_links(d, False), {}))
        out.append(("master links depth %d, twice" % d, master_links(d, True), {}))
        if d <= 3:
            out.append(("experiment set-up depth %d" % d, setup(d), {}))
    return out
