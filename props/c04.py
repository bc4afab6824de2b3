"""C04 Rule prediction equals the DNF the classifier reports."""
from props.bdrlib import *

LEVEL_NOTE = ("Decided for every 0/1 matrix to predict, every subset of up to 4 clauses as explanation (every integer solution of "
              "the master), every pair of numeric or string labels in either training order, both rule classifiers. "
              "Large data (300 samples, 70 features, 30 clauses) with a few arbitrary bits among given ones as well. Long or large cases, with a few arbitrary values: 1100 samples.")
ASSUMES = ["data to predict is 0/1", "solver answers are scripted: the master's integer solution is arbitrary"]
BOUNDS = {"quick": "3 samples x 3 features, <=4 clauses including the empty one, 5 label pairs; 300x70 data and 30 clauses with a few arbitrary bits; 1100 samples", "thorough": "4 x 4, <=6 clauses; 300x70 data and 30 clauses with a few arbitrary bits"}

LABELS = [(0, 1), (1, 0), (-3, 7), (5, 2), ("no", "yes"), ("yes", "no")]


def run(cls, pair, m, k, seq, refit=False):
    def h(vm):
        if pair is None:
            a, b = vm.one_of("labels", LABELS)
        else:
            a, b = pair
        y = [a, b, b]
        lo, hi = min(a, b), max(a, b)
        clf = vm.call(getattr(vm.bdr, cls), C=vm.int_in("C", 1, 30), p=vm.real_in("p", 0))
        tr = [[(i + j) % 2 for j in range(m)] for i in range(len(y))]
        X = vm.array(tr, dtype=float)
        import numpy as np
        Y = np.array(y, dtype=object if isinstance(a, str) else int)
        zero = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
        vm.hooks["mp_solve"] = zero
        vm.call(clf.fit, X, Y)
        if refit:
            # an earlier training on other data, used for predicting the same samples
            vm.call(clf.fit, vm.array([[1, 0, 1], [0, 1, 1]], dtype=float), np.array(LABELS[2]))
            vm.call(clf.master_problem.add_column, [1, 2])
            was = [vm.bool("earlier w%d" % i) for i in range(2)]
            keys = [kk for g, kk, c in vm.dict_items(clf.master_problem.clause_dict_)]

            def ip0(s):
                vals = [0] * len(s._vars)
                for b_, kk in zip(was, keys):
                    vals[kk] = ITE(b_, 1, 0)
                return 0, vals, [0] * len(s._cons), 0
            vm.hooks["mp_solve"] = ip0
            vm.call(clf.master_problem.solve_ip, "")
            xs = [[vm.bit("q%d_%d" % (i, j)) for j in range(m)] for i in range(k)]
            vm.call(clf.predict, vm.array(xs, dtype=float))
            vm.hooks["mp_solve"] = zero
            vm.call(clf.fit, X, Y)
        mp = clf.master_problem
        for c in seq:
            vm.call(mp.add_column, list(c))
        sel = [vm.bool("w%d" % i) for i in range(len(seq) + 1)]
        keys = [kk for g, kk, c in vm.dict_items(mp.clause_dict_)]

        def ip(s):
            vals = [0] * len(s._vars)
            for b_, kk in zip(sel, keys):
                vals[kk] = ITE(b_, 1, 0)
            return 0, vals, [0] * len(s._cons), 0
        vm.hooks["mp_solve"] = ip
        vm.call(mp.solve_ip, "")
        xs = [[vm.bit("q%d_%d" % (i, j)) for j in range(m)] for i in range(k)]
        out = vm.call(clf.predict, vm.array(xs, dtype=float))
        expl = vm.items(mp.explanation)
        vm.check(len(out) == k, "one prediction per sample")
        for i in range(k):
            dnf = OR([AND(g, AND([EQ(xs[i][vm.concrete(j)], 1) for _, j in vm.items(c)])) for g, c in expl] or [False])
            # also from the selection itself
            direct = OR([AND(b_, AND([EQ(xs[i][j], 1) for j in c])) for b_, c in zip(sel, [[]] + [list(c) for c in seq])])
            got = out[i]
            if isinstance(a, str):
                g = vm.concrete(got)
                up = g == hi
                vm.check(g in (lo, hi), "a training label is predicted")
                if up:
                    vm.check(AND(dnf, direct), "the larger label needs a satisfied clause")
                else:
                    vm.check(AND(NOT(dnf), NOT(direct)), "the smaller label needs that no clause is satisfied")
            else:
                vm.check(vm.eq(got, ITE(dnf, hi, lo)), "the prediction is the explanation's DNF")
                vm.check(vm.eq(got, ITE(direct, hi, lo)), "the prediction is the DNF of the selected clauses")
        vm.check(True, "done")
    return h


def wide(cls, m, seq, k, free):
    """Many features, clauses and samples; the bits outside `free` follow a pattern."""
    def h(vm):
        import numpy as np
        clf = vm.call(getattr(vm.bdr, cls))
        _, X, _ = data(vm, 4, m, (0, 1, 1, 0), free=((), ()))
        zero = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
        vm.hooks["mp_solve"] = zero
        vm.call(clf.fit, X, np.array([7, 9, 9, 7]))
        mp = clf.master_problem
        for c in seq:
            vm.call(mp.add_column, list(c))
        sel = [vm.bool("w%d" % i) if i in (0, len(seq) // 2, len(seq) - 1) else False for i in range(len(seq))]
        keys = {tuple(vm.concrete(j) for _, j in vm.items(c)): kk for g, kk, c in vm.dict_items(mp.clause_dict_)}

        def ip(s):
            vals = [0] * len(s._vars)
            for b_, c in zip(sel, seq):
                vals[keys[tuple(c)]] = ITE(b_, 1, 0)
            return 0, vals, [0] * len(s._cons), 0
        vm.hooks["mp_solve"] = ip
        vm.call(mp.solve_ip, "")
        xs, Q, _ = data(vm, k, m, (0,) * k, "q", free)
        out = vm.call(clf.predict, Q)
        vm.check(len(out) == k, "one prediction per sample")
        for i in range(k):
            direct = OR([AND(b_, sat(xs[i], c)) for b_, c in zip(sel, seq)])
            vm.check(vm.eq(out[i], ITE(direct, 9, 7)), "the prediction is the DNF of the selected clauses")
    return h


def scenarios(tier):
    out = []
    A, B = "BooleanDecisionRuleClassifier", "BooleanDecisionRuleClassifierWithHeuristic"
    seq = [[1], [0, 2], [2, 1]]
    for cls in (A, B):
        for pair in LABELS:
            st = isinstance(pair[0], str)
            k = (1 if st else 3) if tier == "quick" else (2 if st else 4)
            out.append(("%s labels %s" % (cls[19:], pair), run(cls, pair, 3, k, seq[:2] if st and tier == "quick" else seq), {"cost": 3 + 6 * st}))
    out.append(("no added clause", run(A, (0, 1), 2, 2, []), {}))
    out.append(("refit", run(A, (4, 3), 3, 2, seq, True), {"cost": 3}))
    out.append(("70 features", wide(A, 70, [[69], [3, 65, 68], list(range(0, 70, 5)), [1, 33], [64, 2], [68, 69]], 3, (range(3), (3, 5, 64, 69))), {"cost": 9}))
    out.append(("30 clauses", wide(B, 6, clauses(6, 1, 4)[5:35], 3, (range(3), (1, 2, 5))), {"cost": 9}))
    out.append(("1100 samples", wide(A, 5, clauses(5, 2, 3), 1100, ((0, 140, 299, 1099), range(5))), {"cost": 9}))
    if tier != "quick":
        out.append(("4 features", run(A, (2, 9), 4, 4, [[3], [0, 1, 2, 3], [1, 3], [2], [0, 1]]), {"cost": 9}))
        out.append(("4 features heuristic", run(B, (2, -9), 4, 4, [[3, 2, 1], [0], [1, 3], [2, 0], [0, 1]]), {"cost": 9}))
    return out
