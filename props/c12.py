"""C12 Set-based row and cut coverage equals routing row by row."""
from symvm.vals import *
from props.dtlib import *

LEVEL_NOTE = ("Decided for depth 1-3 trees, 2-3 rows, 2 features, 3 splits with arbitrary real values and thresholds, every "
              "leaf, every assignment of splits to nodes and every order of the nodes in the path; arbitrary contents of the "
              "cut sets of 2-3 cuts. "
              "Scenarios with many rows (named with their numbers in the evidence), a few of them with arbitrary values, as well.")
ASSUMES = ["feature values and thresholds are real numbers (no NaN)"]
BOUNDS = {"quick": "depth<=3, rows<=3, splits 3, cuts<=3; many rows with a few arbitrary ones", "thorough": "depth<=3, rows<=4, splits 4, cuts<=4; many rows with a few arbitrary ones"}


def route(x_row, splits, node_sides, sp_of):
    """The row follows the path: per node, left iff value <= threshold."""
    c = []
    for i, left in node_sides:
        alts = []
        for k, s in enumerate(splits):
            v = x_row[s.feature] <= s.threshold
            alts.append(AND(EQ(sp_of[i], k), v if left else NOT(v)))
        c.append(OR(alts))
    return AND(c)


def data(vm, R, S, free=None):
    """free: the arbitrary rows of a large data set, the others follow a pattern"""
    def value(r, f):
        if free is None or r in free:
            return vm.real("x%d_%d" % (r, f))
        return (5 * r + 3 * f + r * f + r // 7) % 8
    xs = [[value(r, f) for f in range(2)] for r in range(R)]
    X = vm.array(xs)
    splits = []
    for k in range(S):
        s = vm.dt.Split()
        s.id = k
        s.feature = (0, 0, 1, 1)[k]
        s.threshold = vm.real("t%d" % k) if free is None else (2, 5, 3, 1)[k]
        splits.append(s)
    return xs, X, splits


def the_path(vm, depth, S, leaf):
    w = walk(leaf, depth)
    n = len(w)
    sp = [vm.int_in("s%d" % i, 0, S - 1) for i in range(n)]
    order = list(range(n))
    if n > 1 and vm.bool("root first"):
        order = order[::-1]
    p = vm.dt.Path()
    p.leaf_id = leaf
    p.node_ids = [w[i][0] for i in order]
    p.splits = [sp[i] for i in order]
    l = mk_leaf(vm, leaf, depth)
    return p, l, [(i, w[i][1]) for i in range(n)], sp


def snap(vm, splits, n):
    return [[rows_of(vm, getattr(s, k), n) for k in ("left_rows", "right_rows", "left_cuts", "right_cuts")]
            for s in splits]


def same_sets(vm, splits, n, before, what):
    now = snap(vm, splits, n)
    vm.check(AND([IFF(a, b) for s, t in zip(now, before) for x, y in zip(s, t) for a, b in zip(x, y)]),
             "%s leaves the per-split sets unchanged" % what)


def rows(depth, leaf, R, S):
    def h(vm):
        xs, X, splits = data(vm, R, S)
        splits2 = vm.call(vm.exp.add_rows_to_splits, splits, X)
        vm.check(vm.length(splits2) == S, "all splits kept")
        for k, s in enumerate(splits2):
            lr, rr = rows_of(vm, s.left_rows, R), rows_of(vm, s.right_rows, R)
            for r in range(R):
                c = xs[r][(0, 0, 1, 1)[k]] <= s.threshold
                vm.check(IFF(lr[r], c), "left rows of a split are those with value <= threshold")
                vm.check(IFF(rr[r], NOT(c)), "right rows of a split are the others")
        p, l, sides, sp = the_path(vm, depth, S, leaf)
        before = snap(vm, splits, R)
        nodes_before, sp_before = list(p.node_ids), list(p.splits)
        for _ in range(2):
            got = vm.call(vm.dt.get_satisfied_rows, p, l, splits)
            g = rows_of(vm, got, R)
            for r in range(R):
                want = route(xs[r], splits, sides, sp)
                vm.check(IFF(g[r], want), "row set of the path = rows routed along it")
            for gg, e in vm.items(got):
                vm.check(IMPLIES(gg, AND(e >= 0, e < R)), "only rows of the data")
            same_sets(vm, splits, R, before, "looking up rows")
        for r in range(R):
            want = route(xs[r], splits, sides, sp)
            a = vm.call(vm.dt.row_satisfies_path, X[r], l, splits, p)
            vm.check(IFF(a, want), "row_satisfies_path = routing the row")
            b = vm.call(vm.exp.row_satisfies_path, splits, X, p, l, r)
            vm.check(IFF(b, want), "row_satisfies_path of the experiment = routing the row")
        vm.check(AND([EQ(a, b) for a, b in zip(p.splits, sp_before)]), "the path is unchanged")
        vm.check(list(p.node_ids) == nodes_before, "the path's nodes are unchanged")
        same_sets(vm, splits, R, before, "routing rows")
        # the same splits with other data
        ys = [[vm.real("y%d_%d" % (r, f)) for f in range(2)] for r in range(R)]
        for s in splits:
            s.left_rows = cond_set(vm, [(ys[r][s.feature] <= s.threshold, r) for r in range(R)])
            s.right_rows = cond_set(vm, [(NOT(ys[r][s.feature] <= s.threshold), r) for r in range(R)])
        g = rows_of(vm, vm.call(vm.dt.get_satisfied_rows, p, l, splits), R)
        for r in range(R):
            vm.check(IFF(g[r], route(ys[r], splits, sides, sp)), "row set of the path follows the data")
    return h


def many(depth, leaf, R, S, free):
    """Coverage in a large data set."""
    def h(vm):
        xs, X, splits = data(vm, R, S, free)
        splits = vm.call(vm.exp.add_rows_to_splits, splits, X)
        p, l, sides, sp = the_path(vm, depth, S, leaf)
        g = rows_of(vm, vm.call(vm.dt.get_satisfied_rows, p, l, splits), R)
        vm.check(AND([IFF(g[r], route(xs[r], splits, sides, sp)) for r in range(R)]), "row set of the path = rows routed along it")
    return h


def cuts(depth, leaf, C, S):
    def h(vm):
        xs, X, splits = data(vm, 1, S)
        mem = []
        for k, s in enumerate(splits):
            m = [vm.bool("cut%d goes left at %d" % (c, k)) for c in range(C)]
            mem.append(m)
            s.left_cuts = cond_set(vm, [(m[c], c) for c in range(C)])
            s.right_cuts = cond_set(vm, [(NOT(m[c]), c) for c in range(C)])
        p, l, sides, sp = the_path(vm, depth, S, leaf)
        before = snap(vm, splits, C)
        for _ in range(2):
            got = vm.call(vm.dt.get_satisfied_cuts, p, l, splits)
            g = rows_of(vm, got, C)
            for c in range(C):
                want = AND([OR([AND(EQ(sp[i], k), mem[k][c] if left else NOT(mem[k][c])) for k in range(S)])
                            for i, left in sides])
                vm.check(IFF(g[c], want), "cut set of the path = cuts that take its side everywhere")
            same_sets(vm, splits, C, before, "looking up cuts")
        # a cut generated since
        new = [vm.bool("new cut goes left at %d" % k) for k in range(S)]
        for k, s in enumerate(splits):
            s.left_cuts = cond_set(vm, [(mem[k][c], c) for c in range(C)] + [(new[k], C)])
            s.right_cuts = cond_set(vm, [(NOT(mem[k][c]), c) for c in range(C)] + [(NOT(new[k]), C)])
            mem[k].append(new[k])
        g = rows_of(vm, vm.call(vm.dt.get_satisfied_cuts, p, l, splits), C + 1)
        for c in range(C + 1):
            want = AND([OR([AND(EQ(sp[i], k), mem[k][c] if left else NOT(mem[k][c])) for k in range(S)])
                        for i, left in sides])
            vm.check(IFF(g[c], want), "cut set of the path follows the cuts")
    return h


def scenarios(tier):
    q = tier == "quick"
    out = []
    R = 2 if q else 4
    S = 3 if q else 4
    for d in (1, 2, 3):
        for leaf in range(2 ** d):
            if q and d == 3 and leaf not in (0, 2, 5, 7):
                continue
            out.append(("rows depth %d leaf %d" % (d, leaf), rows(d, leaf, 3 if q and d < 3 else R, S), {"cost": d}))
            out.append(("cuts depth %d leaf %d" % (d, leaf), cuts(d, leaf, 3 if q else 4, S), {"cost": d}))
    out.append(("300 rows depth 1", many(1, 1, 300, 3, (0, 200, 299)), {"cost": 20}))
    out.append(("90 rows depth 2", many(2, 2, 90, 3, (0, 50, 89)), {"cost": 20}))
    return out
