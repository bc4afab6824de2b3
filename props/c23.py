"""C23 The candidate catalogue built from CART trees is faithful."""
from symvm.vals import *
from props.dtlib import *

LEVEL_NOTE = ("Decided for every feature and real threshold at the internal nodes of collections of 1-3 fitted trees of given shapes "
              "(node numbering depth-first as in scikit-learn, or breadth-first), every pattern of equal and different "
              "pairs, and every counts list for the reduction; every decision of the code is explored.")
ASSUMES = ["a tree's children have larger numbers than their parent", "the complete tree is at least as deep as the fitted trees"]
BOUNDS = {"quick": "1-3 trees, up to 5 internal nodes in all, reduction of up to 3 nodes x 3 splits",
          "thorough": "1-4 trees, up to 7 internal nodes in all, reduction of 4 splits per node"}


def arrays(shape, order):
    """shape: positions (in the complete tree) of the internal nodes; order: 'dfs' or 'bfs' numbering.
    Returns children_left, children_right and the position of every number."""
    inner = set(shape)
    pos = []
    if order == "dfs":
        def go(p):
            pos.append(p)
            if p in inner:
                go(2 * p + 1)
                go(2 * p + 2)
        go(0)
    else:
        queue = [0]
        while queue:
            p = queue.pop(0)
            pos.append(p)
            if p in inner:
                queue += [2 * p + 1, 2 * p + 2]
    num = {p: i for i, p in enumerate(pos)}
    left = [num[2 * p + 1] if p in inner else -1 for p in pos]
    right = [num[2 * p + 2] if p in inner else -1 for p in pos]
    return left, right, pos


def fitted(vm, tag, shape, order, nf):
    """a fitted tree: arrays with arbitrary features and thresholds, and {position: (feature, threshold)}"""
    left, right, pos = arrays(shape, order)
    feature, threshold, at = [], [], {}
    for i, p in enumerate(pos):
        if left[i] < 0:
            feature.append(-2)
            threshold.append(-2.0)
        else:
            f = vm.int_in("%s.f%d" % (tag, p), 0, nf - 1)
            t = vm.real("%s.t%d" % (tag, p))
            feature.append(f)
            threshold.append(t)
            at[p] = (f, t)
    return left, right, feature, threshold, at


def same_key(a, b):
    return AND(EQ(a[0], b[0]), EQ(a[1], b[1]))


def check_catalogue(vm, splits, seen, before, what):
    """splits: the dict of splits; seen: pairs seen so far; before: [(pair, id)] that must be kept"""
    d = {k: val_of(s) for k, s in vm.plain(splits).items()}
    keys = list(d)
    for a in seen:
        vm.check(EQ(SUM([ITE(same_key(k, a), 1, 0) for k in keys] or [0]), 1), "one entry per seen pair " + what)
    for k in keys:
        s = d[k]
        vm.check(OR([same_key(k, a) for a in seen]), "only pairs that were seen " + what)
        vm.check(AND(vm.eq(s.feature, k[0]), vm.eq(s.threshold, k[1])), "an entry has its own pair " + what)
    ids = [vm.concrete(d[k].id) for k in keys]
    vm.check(sorted(ids) == list(range(len(keys))), "ids are consecutive " + what)
    for a, i in before:
        vm.check(AND([IMPLIES(same_key(k, a), EQ(d[k].id, i)) for k in keys]), "ids never change " + what)
    return [(k, vm.concrete(d[k].id)) for k in keys]


def id_of(vm, table, a):
    """condition table: [(condition, id)] of pair a"""
    return [(same_key(k, a), i) for k, i in table]


def has_id(vm, table, a, got):
    return AND([IMPLIES(c, EQ(got, i)) for c, i in id_of(vm, table, a)])


def catalogue(shapes, order, nf, depth, weight=None, stop_early=False):
    """the catalogue of several trees, merged one after another"""
    def h(vm):
        n = 2 ** depth - 1
        combined, nodes = {}, {}
        for i in range(n):
            k = vm.dt.Node()
            k.id = i
            k.candidate_splits = []
            nodes[i] = k
        seen, before, history = [], [], {i: [] for i in range(n)}
        for t, shape in enumerate(shapes):
            what = "(tree %d)" % t
            left, right, feature, threshold, at = fitted(vm, "tree%d" % t, shape, order, nf)
            m = len(left)
            leaves = vm.split(vm.exp.get_is_leaves, m, left, right)
            vm.check([bool(vm.concrete(x)) for x in leaves] == [x < 0 for x in left], "leaves are the nodes without children " + what)
            own = vm.split(vm.exp.get_all_splits, m, feature, threshold, leaves)
            check_catalogue(vm, own, list(at.values()), [], what)
            combined = vm.split(vm.exp.merge_all_splits, combined, own)
            seen += list(at.values())
            before = check_catalogue(vm, combined, seen, before, "after merging " + what)
            if stop_early:
                continue
            lst = vm.items(vm.split(vm.exp.get_splits_list, combined))
            vm.check(len(lst) == len(before) and all(vm.concrete(s.id) == i for i, (_, s) in enumerate(lst)), "the list of splits is indexed by id " + what)
            mine = vm.split(vm.exp.get_all_nodes, left, right, m, feature, threshold, leaves, combined)
            mine = vm.plain(mine)
            vm.check(sorted(mine) == sorted(shape), "every internal node is mapped to its position " + what)
            for p in shape:
                if p not in mine:
                    continue
                k = mine[p]
                c = [vm.concrete(s) for s in k.candidate_splits]
                cn = [vm.concrete(s) for s in k.candidate_splits_count]
                vm.check(vm.eq(k.id, p), "a node has the id of its position " + what)
                vm.check(len(c) == 1 and cn == [1], "a node of one tree has its own split only " + what)
                vm.check(AND(has_id(vm, before, at[p], c[0]) if c else False, has_id(vm, before, at[p], k.last_split)), "a node has exactly its own split " + what)
            w = 1 if weight is None or t < len(shapes) - 1 else weight
            nodes = vm.split(vm.exp.merge_all_nodes, nodes, mine, w) if w != 1 else vm.split(vm.exp.merge_all_nodes, nodes, mine)
            for p in shape:
                history[p].append((at[p], w))
            now = vm.plain(nodes)
            vm.check(sorted(now) == list(range(n)), "the nodes stay those of the complete tree " + what)
            for p in range(n):
                k = now[p]
                c = [vm.concrete(s) for s in k.candidate_splits]
                vm.check(len(set(c)) == len(c) and len(k.candidate_splits_count) == len(c), "each split is listed once, with its count " + what)
                vm.check(vm.eq(k.id, p), "node ids are kept " + what)
                for a, _ in history[p]:
                    vm.check(OR([has_id(vm, before, a, s) for s in c] or [False]), "every split seen at the node is listed " + what)
                for s, cnt in zip(c, k.candidate_splits_count):
                    times = SUM([ITE(has_id(vm, before, a, s), wt, 0) for a, wt in history[p]] or [0])
                    vm.check(AND(times > 0, vm.eq(cnt, times)), "a split is listed with the number of times it was seen " + what)
                if history[p]:
                    vm.check(has_id(vm, before, history[p][-1][0], k.last_split), "the last split is remembered " + what)
                else:
                    vm.check(AND(len(c) == 0, vm.eq(k.last_split, -1)), "a node that was never seen has no candidates " + what)
        if not stop_early:
            lst = vm.items(vm.split(vm.exp.get_nodes_list, nodes))
            vm.check(len(lst) == n and all(vm.concrete(k.id) == i for i, (_, k) in enumerate(lst)), "the list of nodes is indexed by id")
    return h


def last_only(shape, order, depth):
    """taking over the last split of another tree touches nothing else"""
    def h(vm):
        n = 2 ** depth - 1
        nodes = {}
        for i in range(n):
            k = vm.dt.Node()
            k.id, k.candidate_splits, k.candidate_splits_count, k.last_split = i, [4, i], [2, 1], i
            nodes[i] = k
        left, right, feature, threshold, at = fitted(vm, "tree", shape, order, 2)
        m = len(left)
        leaves = [x < 0 for x in left]
        combined = vm.split(vm.exp.merge_all_splits, {}, vm.split(vm.exp.get_all_splits, m, feature, threshold, leaves))
        table = check_catalogue(vm, combined, list(at.values()), [], "")
        mine = vm.split(vm.exp.get_all_nodes, left, right, m, feature, threshold, leaves, combined)
        now = vm.plain(vm.split(vm.exp.merge_all_nodes_last_split, nodes, mine))
        for i in range(n):
            k = now[i]
            vm.check(has_id(vm, table, at[i], k.last_split) if i in at else vm.eq(k.last_split, i), "the last split is taken over where there is one")
            vm.check(list(k.candidate_splits) == [4, i] and list(k.candidate_splits_count) == [2, 1], "the candidates are left alone")
    return h


def unknown_split(shape, order):
    """a tree whose splits were never catalogued gives nodes without a split"""
    def h(vm):
        left, right, feature, threshold, at = fitted(vm, "tree", shape, order, 2)
        known = {}
        s = vm.dt.Split()
        s.id, s.feature, s.threshold = 0, vm.int_in("kf", 0, 1), vm.real("kt")
        known[(s.feature, s.threshold)] = s
        mine = vm.plain(vm.split(vm.exp.get_all_nodes, left, right, len(left), feature, threshold, [x < 0 for x in left], known))
        vm.check(sorted(mine) == sorted(shape), "every internal node is mapped to its position")
        for p in shape:
            hit = same_key(at[p], (s.feature, s.threshold))
            k = mine[p]
            vm.check(IFF(hit, EQ(len(k.candidate_splits), 1)), "a node has a split exactly when it is catalogued")
            vm.check(EQ(k.last_split, ITE(hit, 0, -1)), "its last split is its own, or none")
    return h


def reduce(sizes, nsplits, quotas, maxc=None):
    """sizes: candidates per node; quotas: (root, others)"""
    def h(vm):
        nodes, counts, cands = [], [], []
        for i, size in enumerate(sizes):
            k = vm.dt.Node()
            k.id = i
            c = [(i + 2 * j) % nsplits if nsplits % 2 else (i + j) % nsplits for j in range(size)]
            n = [vm.int_in("count%d_%d" % (i, j), 0, maxc if maxc is not None else 10 ** 6) for j in range(size)]
            k.candidate_splits, k.candidate_splits_count = list(c), list(n)
            k.last_split = c[-1]
            nodes.append(k)
            counts.append(n)
            cands.append(c)
        splits = []
        for s in range(nsplits):
            sp = mk_split(vm, s, s % 2, s)
            sp.removed = vm.bool("removed%d" % s)
            splits.append(sp)
        got = vm.items(vm.split(vm.exp.reduce_splits, nodes, splits, quotas[0], quotas[1]))
        vm.check(len(got) == len(sizes), "all nodes are kept")
        used = []
        for i, (_, k) in enumerate(got):
            q = quotas[0] if i == 0 else quotas[1]
            kept = [vm.concrete(s) for s in k.candidate_splits]
            vm.check(vm.eq(k.id, i), "nodes stay in order")
            vm.check(len(set(kept)) == len(kept) == min(q, sizes[i]), "as many candidates as the quota allows are kept")
            vm.check(set(kept) <= set(cands[i]), "no other candidates are kept")
            num_ = dict(zip(cands[i], counts[i]))
            for s, c in zip(kept, k.candidate_splits_count):
                if s in num_:
                    vm.check(vm.eq(c, num_[s]), "a kept split keeps its count")
            for s in set(kept) & set(cands[i]):
                for d in set(cands[i]) - set(kept):
                    vm.check(num_[s] >= num_[d], "the most frequently seen splits are kept")
            used += kept
        for s in range(nsplits):
            r = splits[s].removed
            vm.check(IFF(r, s not in used) if isinstance(r, SymBool) else bool(r) == (s not in used), "a split is marked removed exactly when no node keeps it")
    return h


def scenarios(tier):
    q = tier == "quick"
    out = [
        ("one tree depth 2 dfs", catalogue([[0, 1, 2]], "dfs", 2, 2), {"cost": 4}),
        ("one tree depth 2 bfs", catalogue([[0, 1, 2]], "bfs", 2, 2), {"cost": 4}),
        ("one deep tree dfs", catalogue([[0, 2, 5]], "dfs", 3, 3), {"cost": 4}),
        ("one deep tree bfs", catalogue([[0, 1, 2, 5]], "bfs", 2, 3), {"cost": 8}),
        ("stump and tree", catalogue([[0], [0, 2]], "dfs", 2, 2), {"cost": 4}),
        ("tree and stump", catalogue([[0, 1], [0]], "dfs", 2, 2, weight=1000), {"cost": 4}),
        ("two trees", catalogue([[0, 1], [0, 2]], "dfs", 2, 2), {"cost": 8}),
        ("three stumps", catalogue([[0], [0], [0]], "dfs", 2, 1, weight=1000), {"cost": 4}),
        ("three trees", catalogue([[0], [0, 1], [0, 2]], "dfs", 2, 2), {"cost": 10}),
        ("ids across five stumps", catalogue([[0]] * 5, "dfs", 2, 1, stop_early=True), {"cost": 6}),
        ("tree without a split", catalogue([[], [0, 2]], "dfs", 2, 2), {"cost": 3}),
        ("last split only", last_only([0, 2], "dfs", 2), {"cost": 2}),
        ("uncatalogued tree", unknown_split([0, 1, 4], "dfs"), {"cost": 2}),
    ]
    for quotas in ((1, 1), (2, 1), (1, 2), (0, 1), (3, 3), (5, 2)):
        out.append(("reduce quotas %d %d" % quotas, reduce((3, 2), 4, quotas), {"cost": 3}))
    out.append(("reduce three nodes", reduce((2, 3, 1), 5, (1, 2)), {"cost": 5}))
    if not q:
        out += [
            ("two full trees", catalogue([[0, 1, 2], [0, 1, 2]], "dfs", 2, 2), {"cost": 60, "budget": 2400}),
            ("three bigger trees", catalogue([[0, 1], [0, 2], [0, 1]], "bfs", 2, 2, weight=1000), {"cost": 60, "budget": 2400}),
            ("one tree depth 3", catalogue([[0, 1, 2, 4, 5]], "dfs", 2, 3), {"cost": 40, "budget": 1200}),
            ("four trees", catalogue([[0], [0, 1], [0], [0, 2]], "dfs", 3, 2, weight=1000), {"cost": 60, "budget": 2400}),
            ("reduce four", reduce((4, 4), 6, (2, 3)), {"cost": 30, "budget": 1200}),
            ("reduce three by three", reduce((3, 3, 3), 5, (2, 1)), {"cost": 30, "budget": 1200}),
        ]
    return out
