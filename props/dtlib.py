"""Shared builders and specifications for the decision tree harnesses."""
from symvm.vals import *


def walk(leaf, depth):
    """[(node, goes_left)] from the leaf's parent up to the root."""
    out = []
    k = 2 ** depth - 1 + leaf
    while k > 0:
        f = (k - 1) // 2
        out.append((f, k == 2 * f + 1))
        k = f
    return out


def parent_of(vm, k):
    """floor((k-1)/2) for a symbolic k >= 1."""
    return (k - 1) // 2


def mk_leaf(vm, leaf, depth):
    """A Leaf as the classifier's users build it, by the specification."""
    l = vm.dt.Leaf()
    l.id = leaf
    l.left_nodes = [n for n, left in walk(leaf, depth) if left]
    l.right_nodes = [n for n, left in walk(leaf, depth) if not left]
    return l


def mk_path(vm, leaf, depth, splits, target, cost=0, pid=-1, order=None):
    """splits: node id -> split id"""
    p = vm.dt.Path()
    p.leaf_id = leaf
    ids = [n for n, _ in walk(leaf, depth)]
    if order:
        ids = [ids[i] for i in order]
    p.node_ids = ids
    p.splits = [splits[n] for n in ids]
    p.target = target
    p.cost = cost
    p.id = pid
    return p


def mk_split(vm, sid, feature=0, threshold=0):
    s = vm.dt.Split()
    s.id = sid
    s.feature = feature
    s.threshold = threshold
    return s


def mk_node(vm, nid, depth, cands):
    n = vm.dt.Node()
    n.id = nid
    n.parent = -1 if nid == 0 else (nid - 1) // 2
    n.left_child = 2 * nid + 1
    n.right_child = 2 * nid + 2
    if n.left_child >= 2 ** depth - 1:
        n.left_child -= 2 ** depth - 1
        n.right_child -= 2 ** depth - 1
        n.children_are_leaves = True
    n.candidate_splits = list(cands)
    n.candidate_splits_count = [1] * len(n.candidate_splits)
    if n.candidate_splits:
        n.last_split = n.candidate_splits[-1]
    return n


def cond_set(vm, pairs):
    """A set with conditional members, from [(guard, element)]."""
    if vm.mode == "interp":
        s = set()
        for g, e in pairs:
            if g is not False:
                s.add(mkopt(g, e) if g is not True else e)
        return s
    return {e for g, e in pairs if bool(g)}


def rows_of(vm, side, n):
    """membership conditions of a split's row set: row -> condition"""
    d = {}
    for g, e in vm.items(side):
        d[vm.concrete(e)] = g
    return [d.get(r, False) for r in range(n)]


def many_rows(n, free, ts, nf=2):
    """Data of many rows for Problem's `concrete`: the rows in `free` are arbitrary, the others and the thresholds given."""
    def make(vm):
        def value(r, f):
            if r in free:
                return vm.real("x%d_%d" % (r, f))
            return (5 * r + 3 * f + r * f + r // 7) % 8
        return [[value(r, f) for f in range(nf)] for r in range(n)], [t for t in ts]
    return make


def many_splits(n, S, free=(), per=7):
    """(features, concrete) for Problem: S splits with given thresholds, up to `per` on each feature, in no particular order,
    for n rows; the rows in `free` have arbitrary values of the first two features and agree
    on the others."""
    nf = (S + per - 1) // per
    feats = tuple(s % nf for s in range(S))
    ts = [(3 * (s // nf) + s) % per for s in range(S)]

    def make(vm):
        return [[vm.real("x%d_%d" % (r, f)) if r in free and f < 2 else 5 * f % (per + 1) if r in free else (7 * r + 5 * f + r * f) % (per + 1)
                 for f in range(nf)] for r in range(n)], list(ts)
    return feats, make


class Problem:
    """A tree problem with symbolic data: splits with symbolic thresholds, symbolic feature values."""

    def __init__(self, vm, n, depth, feats, cands, tag="", concrete=None, rows=None, sorted_thresholds=True):
        self.vm, self.n, self.depth, self.feats = vm, n, depth, feats
        nf = max(feats) + 1
        S = len(feats)
        if concrete is not None:
            self.xs, self.ts = concrete(vm) if callable(concrete) else concrete
        else:
            self.xs = [[vm.real("%sx%d_%d" % (tag, r, f)) for f in range(nf)] for r in range(n)]
            self.ts = [vm.real("%st%d" % (tag, s)) for s in range(S)]
            for s in range(S):
                for u in range(s):
                    if feats[s] == feats[u]:
                        vm.assume(NOT(EQ(self.ts[s], self.ts[u])))
        self.side = [[self.xs[r][feats[s]] <= self.ts[s] for s in range(S)] for r in range(n)]
        self.cands = {k: list(v) for k, v in cands.items()}
        self.n_nodes = 2 ** depth - 1
        self.leaves = [mk_leaf(vm, l, depth) for l in range(2 ** depth)]
        self.nodes = [mk_node(vm, k, depth, self.cands[k]) for k in range(self.n_nodes)]
        self.splits = []
        for s in range(S):
            sp = mk_split(vm, s, feats[s], self.ts[s])
            sp.left_rows = cond_set(vm, [(self.side[r][s], r) for r in range(n)])
            sp.right_rows = cond_set(vm, [(NOT(self.side[r][s]), r) for r in range(n)])
            self.splits.append(sp)
        self.X = vm.array(self.xs, dtype=float)

    def spec(self, leaf, choice):
        """[(split, goes left)] of the path to leaf using choice[node]"""
        return [(choice[k], left) for k, left in walk(leaf, self.depth)]

    def follows(self, r, leaf, choice):
        return AND([self.side[r][s] if left else NOT(self.side[r][s]) for s, left in self.spec(leaf, choice)])

    def path(self, leaf, choice, target=0, cost=0):
        # a path may list its nodes in any order; successive paths take different ones
        import itertools
        orders = list(itertools.permutations(range(self.depth)))
        self._paths = getattr(self, "_paths", -1) + 1
        return mk_path(self.vm, leaf, self.depth, choice, target, cost, order=orders[(self._paths * 5 // 2) % len(orders)])

    def check_unchanged(self, what=""):
        """the tree, the candidate lists and the splits are as they were set up"""
        vm = self.vm
        for l, leaf in enumerate(self.leaves):
            for left, ids in ((True, leaf.left_nodes), (False, leaf.right_nodes)):
                want = sorted(k for k, s in walk(l, self.depth) if s == left)
                vm.check(same_list(vm, ids, want, ordered=False), "the nodes of a leaf are left alone " + what)
        for k, node in enumerate(self.nodes):
            vm.check(same_list(vm, node.candidate_splits, self.cands[k]), "the candidate splits of a node are left alone " + what)
        for s, sp in enumerate(self.splits):
            for rows, sign in ((sp.left_rows, True), (sp.right_rows, False)):
                now = rows_of(vm, rows, self.n)
                vm.check(AND([IFF(now[r], self.side[r][s] if sign else NOT(self.side[r][s])) for r in range(self.n)]),
                         "the row sets of a split are left alone " + what)
            vm.check(AND(vm.eq(sp.id, s), vm.eq(sp.feature, self.feats[s]), vm.eq(sp.threshold, self.ts[s])),
                     "splits are left alone " + what)

    def choices(self, leaf):
        """every choice of candidate splits along the leaf's path"""
        import itertools
        ks = [k for k, _ in walk(leaf, self.depth)]
        return [dict(zip(ks, c)) for c in itertools.product(*[self.cands[k] for k in ks])]


def choice_of(path, vm):
    """node -> split of a path object"""
    return {vm.concrete(k): vm.concrete(s) for (_, k), (_, s) in zip(vm.items(path.node_ids), vm.items(path.splits))}


def same_list(vm, got, want, ordered=True):
    its = vm.items(got)
    vals = [vm.concrete(e) for _, e in its]
    if all(g is True for g, _ in its):
        return (vals if ordered else sorted(vals)) == list(want)
    # members under conditions: every member must be there exactly as wanted
    ok = True
    for v in set(vals) | set(want):
        ok = AND(ok, EQ(SUM([ITE(g, 1, 0) for g, (_, e) in zip([g for g, _ in its], its) if vm.concrete(e) == v] or [0]), list(want).count(v)))
    return ok
