"""C11 Every sample follows one path of a consistent tree and gets its label."""
import itertools
import numpy as np
from symvm.vals import *
from props.dtlib import *

LEVEL_NOTE = ("Decided for every sample and every thresholds (arbitrary reals), every assignment of 3-4 splits on 2 features to the "
              "nodes of depth 1-3 trees (depth 3: a selection of assignments), every leaf targets and several label alphabets, "
              "with further unselected paths in the master; also trees over 300 labels. Long or large cases, with a few arbitrary values: 1100 samples.")
ASSUMES = ["feature values and thresholds are real numbers (no NaN)", "the selected paths are one per leaf with one split per node (C14)",
           "for training, splits on the same feature have different thresholds"]
BOUNDS = {"quick": "depth<=2 with all assignments of 3 splits, depth 3 with 6 assignments; 2 samples; 1100 samples",
          "thorough": "depth<=2 with 4 splits, depth 3 with 40 assignments; 3 samples"}

FEATS = (0, 0, 1, 1)


def sample(vm, tag):
    return [vm.real("%s_%d" % (tag, f)) for f in range(2)]


def side(x, s, ts):
    return x[FEATS[s]] <= ts[s]


def routed(x, leaf, depth, choice, ts):
    """Walking from the root, going left exactly when the value is at most the threshold, ends in leaf."""
    k, conds = 0, []
    for left in [left for _, left in reversed(walk(leaf, depth))]:
        c = side(x, choice[k], ts)
        conds.append(c if left else NOT(c))
        k = 2 * k + 1 if left else 2 * k + 2
    return AND(conds)


def splits_of(vm, ts):
    return [mk_split(vm, s, FEATS[s], t) for s, t in enumerate(ts)]


def follow(depth, S, orders):
    """row_satisfies_path against the walk, with a symbolic split at every node."""
    def h(vm):
        ts = [vm.real("t%d" % s) for s in range(S)]
        splits = splits_of(vm, ts)
        x = sample(vm, "x")
        X = vm.array([x])
        ch = [vm.int_in("s%d" % k, 0, S - 1) for k in range(2 ** depth - 1)]
        go = [OR([AND(EQ(c, s), side(x, s, ts)) for s in range(S)]) for c in ch]
        fol = []
        for l in range(2 ** depth):
            w = walk(l, depth)
            n = len(w)
            p = mk_path(vm, l, depth, ch, 0, order=[(i * orders + l) % n for i in range(n)] if orders and n > 1 and math_gcd(orders, n) == 1 else None)
            f = vm.call(vm.dt.row_satisfies_path, X[0], mk_leaf(vm, l, depth), splits, p)
            fol.append(f)
            vm.check(IFF(f, AND([go[k] if left else NOT(go[k]) for k, left in w])), "a path is followed iff every node sends the sample its way")
        vm.check(EQ(SUM([ITE(f, 1, 0) for f in fol]), 1), "exactly one path of a tree is followed")
    return h


def math_gcd(a, b):
    import math
    return math.gcd(a, b)


def fitted(vm, depth, ts, paths, nsel, labels, cands, old=False, ids=(0, 1)):
    """A classifier trained (time is up at once) so that exactly the first nsel paths are selected."""
    n = len(labels)
    xs = [[i, n - i] for i in range(n)]
    leaves = [mk_leaf(vm, l, depth) for l in range(2 ** depth)]
    nodes = [mk_node(vm, k, depth, cands) for k in range(2 ** depth - 1)]
    splits = splits_of(vm, ts)
    sides = [[side(x, s, ts) for s in range(len(ts))] for x in xs]
    for s, sp in enumerate(splits):
        sp.left_rows = cond_set(vm, [(sides[r][s], r) for r in range(n)])
        sp.right_rows = cond_set(vm, [(NOT(sides[r][s]), r) for r in range(n)])
    rows = []
    for r in range(n):
        row = vm.dt.Row()
        row.id = r
        rows.append(row)
    clf = vm.call(vm.dt.DTreeClassifier, paths, leaves, nodes, splits, depth, list(ids), time_limit=1, data_rows=rows,
                  use_old_sp=old)
    sel = {}

    def solve(s):
        v = [0.0] * len(s._vars)
        for p in paths[:nsel]:
            i = vm.concrete(p.id)
            if 0 <= i < len(v):
                v[i] = 1.0
        return 0, v, [0] * len(s._cons), 0
    vm.hooks["mp_solve"] = solve
    tick = {"k": 0}

    def clock():
        tick["k"] += 1
        return 100.0 * tick["k"]
    vm.hooks["clock"] = clock
    X = vm.array(xs) if vm.sym else np.array(xs, dtype=float)
    vm.call(clf.fit, X, np.array(list(labels), dtype=object if isinstance(labels[0], str) else int))
    return clf


def predict(depth, choice, S, n, labels, extra, order, old=False, ids=(0, 1)):
    def h(vm):
        ts = [vm.real("t%d" % s) for s in range(S)]
        for a in range(S):
            for b in range(a):
                if FEATS[a] == FEATS[b]:
                    vm.assume(NOT(EQ(ts[a], ts[b])))
        L = 2 ** depth
        targets = [vm.concrete(vm.bit("target%d" % l)) if extra == 0 and l < 2 else (l * 3 // 2 if len(ids) < 3 else 2 * l + l // 2) % len(ids) for l in range(L)]
        paths = [mk_path(vm, l, depth, choice, targets[l]) for l in order]
        sel = len(paths)
        # paths that are in the master but not selected
        for e in range(extra):
            l = e % L
            paths.append(mk_path(vm, l, depth, {k: (s + 1 + e) % S for k, s in choice.items()}, 1 - targets[l]))
        clf = fitted(vm, depth, ts, paths, sel, labels, list(range(S)), old, ids)
        vals = sorted(set(labels))
        xs = [sample(vm, "x%d" % i) for i in range(n)]
        got = vm.call(clf.predict, vm.array(xs))
        vm.check(len(got) == n, "one prediction per sample")
        for i in range(n):
            for l in range(L):
                vm.check(IMPLIES(routed(xs[i], l, depth, choice, ts), same(vm, got[i], vals[targets[l]])),
                         "the label encoded by the target of the followed path is predicted")
    return h


def many_samples(depth, n, free, choice):
    """A large batch, most of it given."""
    def h(vm):
        ts = [Fraction(3, 2), Fraction(5, 2), Fraction(1, 2), Fraction(7, 2)] if vm.sym else [1.5, 2.5, 0.5, 3.5]
        targets = [l * 3 // 2 % 2 for l in range(2 ** depth)]
        paths = [mk_path(vm, l, depth, choice, targets[l]) for l in range(2 ** depth)]
        clf = fitted(vm, depth, ts, paths, len(paths), (5, 2, 5), list(range(len(ts))))
        xs = [sample(vm, "x%d" % i) if i in free else [(i * 3 + i // 5) % 5, (i * 2 + i // 3) % 5] for i in range(n)]
        got = vm.call(clf.predict, vm.array(xs))
        vm.check(len(got) == n, "one prediction per sample")
        if len(got) != n:
            return
        for i in range(n):
            for l in range(2 ** depth):
                vm.check(IMPLIES(routed(xs[i], l, depth, choice, ts), same(vm, got[i], [2, 5][targets[l]])),
                         "the label encoded by the target of the followed path is predicted")
    return h


def many_labels(depth, n, targets):
    """As many labels as rows: the encoded labels do not fit a byte."""
    def h(vm):
        ts = [Fraction(3, 2), Fraction(5, 2), Fraction(1, 2), Fraction(7, 2)] if vm.sym else [1.5, 2.5, 0.5, 3.5]
        choice = dict(enumerate([0, 2, 3][:2 ** depth - 1]))
        paths = [mk_path(vm, l, depth, choice, targets[l]) for l in range(2 ** depth)]
        labels = [1000 - 3 * i for i in range(n)]
        clf = fitted(vm, depth, ts, paths, len(paths), labels, list(range(len(ts))), False, tuple(range(n)))
        vals = sorted(labels)
        x = sample(vm, "x")
        got = vm.call(clf.predict, vm.array([x]))
        for l in range(2 ** depth):
            vm.check(IMPLIES(routed(x, l, depth, choice, ts), same(vm, got[0], vals[targets[l]])),
                     "the label encoded by the target of the followed path is predicted")
    return h


def same(vm, a, b):
    a = resolve(a)
    if isinstance(b, str):
        return str(a) == b
    return vm.eq(a, b)


def scenarios(tier):
    q = tier == "quick"
    out = []
    for d in (1, 2, 3):
        S = 3 if q else 4
        for o in ((0, 2) if d > 1 else (0,)):
            out.append(("follow depth %d order %d" % (d, o), follow(d, S, o), {"cost": 2 ** d}))
    S = 3 if q else 4
    labs = [(5, 2, 5), ("no", "yes", "no"), (1, 0, 1), (-1, 1, 1)]
    i = 0
    for d in (1, 2):
        for c in itertools.product(range(S), repeat=2 ** d - 1):
            if q and d == 2 and i % 3 and len(set(c)) < 3:
                i += 1
                continue
            i += 1
            order = list(range(2 ** d))
            if i % 2:
                order = order[::-1]
            out.append(("predict depth %d splits %s" % (d, "".join(map(str, c))),
                        predict(d, dict(enumerate(c)), S, 2 if q else 3, labs[i % 4], i % 3 if d == 2 else 2 * (i % 2), order), {"cost": 4 ** d}))
    for i in range(6 if q else 40):
        c = {k: (i + k * (1 + i // 3) + k // 3) % S for k in range(7)}
        out.append(("predict depth 3 splits %s" % "".join(str(c[k]) for k in range(7)),
                    predict(3, c, S, 1 if q else 2, labs[i % 4], 3, sorted(range(8), key=lambda l: l * 5 % 8)), {"cost": 30}))
    for i, ids in enumerate([(1, 0), (2, 0, 1), (0, 1, 2)]):
        lab = (5, 2, 5) if len(ids) == 2 else (7, -1, 3)
        out.append(("predict depth 1 targets %s" % (ids,), predict(1, {0: i % S}, S, 2, lab, i % 2, [1, 0], False, ids), {"cost": 4}))
        out.append(("predict depth 2 targets %s" % (ids,), predict(2, {0: 0, 1: 2, 2: 1}, S, 2, lab, i % 2, [2, 0, 3, 1], False, ids), {"cost": 16}))
    out.append(("predict 300 labels depth 1", many_labels(1, 300, [299, 130]), {"cost": 20}))
    out.append(("predict 1100 samples", many_samples(2, 1100, (0, 600, 1099), {0: 1, 1: 2, 2: 0}), {"cost": 20}))
    if not q:
        out.append(("predict 300 labels depth 2", many_labels(2, 300, [0, 140, 256, 298]), {"cost": 40}))
    out.append(("predict with the older pricing", predict(2, {0: 0, 1: 2, 2: 1}, 3, 2, labs[0], 1, [0, 1, 2, 3], True), {"cost": 12}))
    return out
