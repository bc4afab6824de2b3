"""C30 The trained model's training errors are what the solved integer program says."""
from props.bdrlib import *
from props.dtmaster import Problem, all_paths, data_rows, choice_of, walk
from props.dtpricing import Roles, Spec, Duals
from props import mplib

LEVEL_NOTE = ("Decided for complete trainings followed by predictions of the training samples and new ones: every integer feasible "
              "solution of the final program, every 0/1 data (rules, 3x2-3x3) or real data and thresholds (trees of depth 1-2, 2-3 rows), "
              "every C and p, with scripted pricing answers; labels and column histories are fixed per scenario.")
ASSUMES = ["the final program's solution is feasible and exactly integer", "at least two labels in the data", "p >= 0",
           "initial paths carry the number of rows that follow them with their label"]
BOUNDS = {"quick": "rules: 3x2 data, <=3 clauses; trees: depth 1-2, 2-3 rows, <=8 paths", "thorough": "rules: 4x3 data, 5 clauses; trees: 3 rows, all paths"}

CLS = ("BooleanDecisionRuleClassifier", "BooleanDecisionRuleClassifierWithHeuristic")


def point(vm, s, ids, tag, hi=2):
    """an arbitrary feasible point of the program, integer where it is"""
    v = [vm.int_in("%s.%d" % (tag, i), 0, hi) if x._integer else vm.real_in("%s.%d" % (tag, i), 0) for i, x in enumerate(s._vars)]
    vm.assume(feasible(s, v))
    return v


# ---- rules

def rules(cls, m, lab, found, limit=-1, again=None):
    """lab: labels of the samples; found: clauses the exact pricing finds, in order; again: (labels, clauses) of a second training"""
    def h(vm):
        C, p = vm.int_in("C", 1, 12), vm.real_in("p", 0)
        clf = vm.call(getattr(vm.bdr, cls), max_iterations=limit, C=C, p=p)
        trained(vm, clf, C, p, lab, found, "")
        if again:
            trained(vm, clf, C, p, again[0], again[1], "b")

    def trained(vm, clf, C, p, lab, found, u):
        import numpy as np
        vals = sorted(set(lab))
        y = [vals.index(v) for v in lab]
        xs = [[vm.bit("x%s%d_%d" % (u, i, j)) for j in range(m)] for i in range(len(lab))]
        X = vm.array(xs, dtype=float)
        got = {}

        def solve(s):
            zero, none = [0] * len(s._vars), [0] * len(s._cons)
            if s is clf.master_problem.solver_:
                return 0, zero, none, 0
            sps = [sp for level in clf.subproblems for sp in level if getattr(sp, "solver_", None) is s]
            if sps:
                k = vm.env.count("priced" + u)
                if k >= len(found):
                    return 0, zero, none, 0
                for j in found[k]:
                    zero[vm.concrete(sps[0].z_vars_[j])] = 1
                return 0, zero, none, -1
            # the final program
            got["v"] = v = point(vm, s, None, "ip" + u)
            got["objective"] = objective(s, v)
            return vm.one_of("status" + u, [0, 1]), v, none, got["objective"]
        vm.hooks["mp_solve"] = solve
        Y = np.array(list(lab))
        known = [()] + [tuple(c) for c in found[:len(found) if limit <= 0 else limit]]
        if len(set(known)) < len(known):
            # a clause is priced again, and that may be refused
            if vm.attempt(clf.fit, X, Y)[1] is not None:
                vm.check(True, "the clause is refused")
                return
        elif cls == CLS[0]:
            vm.call(clf.fit, X, Y)
        else:
            vm.split(clf.fit, X, Y)
        vm.check("v" in got, "the integer program is solved")
        if "v" not in got:
            return
        expl = [(g, tuple(sorted(vm.concrete(j) for _, j in vm.items(c)))) for g, c in vm.items(clf.master_problem.explanation)]
        vm.check(AND([IMPLIES(g, c in known) for g, c in expl]), "only known clauses are in the explanation")
        # distinct clauses within the complexity budget
        for c in known:
            vm.check(SUM([ITE(g, 1, 0) for g, k in expl if k == c] or [0]) <= 1, "every clause at most once")
        vm.check(SUM([ITE(g, 1 + len(c), 0) for g, c in expl] or [0]) <= C, "the total complexity is at most C")
        # errors on the training data, as predicted
        pred = vm.call(clf.predict, X)
        vm.check(len(pred) == len(lab), "one prediction per sample")
        pos = [OR([AND(g, sat(xs[i], c)) for g, c in expl] or [False]) for i in range(len(lab))]
        missed = []
        for i in range(len(lab)):
            vm.check(IFF(label_is(vm, pred[i], vals[1]), pos[i]), "the larger label is predicted iff a clause of the explanation holds")
            vm.check(OR(label_is(vm, pred[i], vals[1]), label_is(vm, pred[i], vals[0])), "a training label is predicted")
            if y[i]:
                missed.append(ITE(label_is(vm, pred[i], vals[1]), 0, 1))
        fired = [ITE(AND(g, sat(xs[i], c)), 1, 0) for i in range(len(lab)) if not y[i] for g, c in expl]
        wrong = [ITE(label_is(vm, pred[i], vals[1]), 1, 0) for i in range(len(lab)) if not y[i]]
        M, F, W = SUM(missed or [0]), SUM(fired or [0]), SUM(wrong or [0])
        pM = SUM([ITE(EQ(M, k), k * p, 0) for k in range(len(missed) + 1)])
        vm.check(vm.le(pM + F, got["objective"]), "the objective is at least p per missed positive plus the clauses each negative satisfies")
        vm.check(vm.le(pM + W, got["objective"]), "and so at least the weighted training errors")
    return h


def label_is(vm, got, want):
    got = resolve(got)
    if isinstance(want, str):
        return str(got) == want
    return EQ(got, want)


# ---- trees

def trees(depth, n, feats, cands, initial, lab, mode, priced=(), old=False, given=None):
    """initial: paths given (label by position); priced: (leaf, choice index, target) answers of the exact pricing after the first iteration"""
    def h(vm):
        import numpy as np
        vals = sorted(set(lab))
        y = [vals.index(v) for v in lab]
        P = Problem(vm, n, depth, feats, cands, concrete=given)
        allp = all_paths(P)
        rows = None if mode == "auto" else data_rows(vm, n)
        if mode == "merged":
            # the last row repeats the first one, which stands for both
            vm.assume(AND([EQ(P.xs[0][f], P.xs[n - 1][f]) for f in range(max(feats) + 1)]))
            rows[0].weight = 2
            rows[n - 1].removed_from_sp = rows[n - 1].removed_from_master = True

        def hits(l, c, t):
            return SUM([ITE(P.follows(r, l, c), 1, 0) for r in range(n) if y[r] == t] or [0])
        specs, targets = [], []
        for i in initial:
            sp = allp[i % len(allp)]
            targets.append((sp[0] + specs.count(sp)) % 2)
            specs.append(sp)
        paths = [P.path(l, c, t, hits(l, c, t)) for (l, c), t in zip(specs, targets)]
        clf = vm.call(vm.dt.DTreeClassifier, paths, P.leaves, P.nodes, P.splits, depth, list(range(len(vals))), time_limit=1,
                      master_beta_constraints_as_cuts=mode == "lazy", data_rows=rows, use_old_sp=old)
        tick = {"k": 0}

        def clock():
            if vm.E is not None:
                vm.E.touch(tick)
            tick["k"] = tick["k"] + 1
            return 100.0 * tick["k"]
        vm.hooks["clock"] = clock
        vm.hooks["draw_int"] = lambda k, a, b: a
        got = {}

        def final(s):
            if s is clf.master_problem.solver_:
                return 0, [0] * len(s._vars), [0] * len(s._cons), 0
            got["v"] = v = point(vm, s, None, "ip")
            got["objective"] = objective(s, v)
            return vm.one_of("status", [0, 1]), v, [0] * len(s._cons), got["objective"]

        def early(s):
            return 0, [0] * len(s._vars), [0] * len(s._cons), 0
        Y = np.array(list(lab))
        vm.hooks["mp_solve"] = early if priced else final
        vm.call(clf.fit, P.X, Y)
        master = clf.master_problem
        # the training goes on: columns of the exact pricing
        for k, (l, ci, t) in enumerate(priced):
            D = Duals(vm, P, "d%d" % k, 0, [])
            D.tup = ([-5] * 2 ** depth, [0] * n, {l2: {q: {a: 0 for a in g} for q, g in d.items()} for l2, d in D.gamma.items()}, [], [])
            for sp in [val_of(e) for e in resolve(clf.subproblems[-1])]:
                if vm.concrete(sp.leaf_id_) != l or (old and vm.concrete(sp.target_) != t):
                    continue
                vm.call(sp.update_subproblem, P.X, np.array(y), D.tup)
                spec = Spec(vm, P, l, y, list(range(len(vals))), D, [], list(range(n)), [1] * n, t if old else None)

                def chosen(m):
                    roles = Roles(vm, sp, [x._name for x in m._vars], P, l, len(vals), 0)
                    return spec.point(len(m._vars), roles, P.choices(l)[ci], t)

                def cp(solver, m, cb):
                    v = chosen(m)
                    return 4, [(v, 0, 0)], v, 0, 0, 0

                def mip(s):
                    v = chosen(s)
                    return 0, v, [0] * len(s._cons), mplib.objective(s, v)
                vm.hooks["cp_solve"] = cp
                vm.hooks["mp_solve"] = mip
                new = vm.items(vm.call(sp.generate_columns, P.X, np.array(y), D.tup, ""))
                vm.check(len(new) == 1, "an improving path is priced out")
                for _, p in new:
                    vm.call(master.add_column, p)
        if priced:
            vm.hooks["mp_solve"] = final
            vm.call(master.solve_ip, "")
            vm.check(len(master.path_vars_) == len(initial) + len(priced), "the priced paths are known")
        vm.check("v" in got, "the integer program is solved")
        if "v" not in got:
            return
        xs = list(P.xs) + [[vm.real("new%d_%d" % (q, f)) for f in range(max(feats) + 1)] for q in range(1)]
        pred = vm.call(clf.predict, vm.array(xs, dtype=float))
        vm.check(len(pred) == len(xs), "one prediction per sample")
        right = SUM([ITE(label_is(vm, pred[r], lab[r]), 1, 0) for r in range(n)])
        vm.check(vm.eq(right, got["objective"]), "the number of training rows predicted correctly is the objective")
        # the prediction is that of one tree: the same split at every node for all samples
        sel = vm.items(clf.master_problem.selected_paths)
        vm.check(EQ(SUM([ITE(g, 1, 0) for g, _ in sel] or [0]), 2 ** depth), "one selected path per leaf")
        for q in range(len(xs)):
            side = [xs[q][f] <= t for f, t in zip(P.feats, P.ts)]
            fol = []
            for g, p in sel:
                c, l = choice_of(p, vm), vm.concrete(p.leaf_id)
                f = AND(g, [side[a] if left else NOT(side[a]) for a, left in P.spec(l, c)])
                fol.append(ITE(f, 1, 0))
                vm.check(IMPLIES(f, OR([AND(EQ(p.target, t), label_is(vm, pred[q], vals[t])) for t in range(len(vals))])),
                         "a sample gets the label of the selected path it follows")
            vm.check(EQ(SUM(fol), 1), "every sample follows exactly one selected path")
    return h


def scenarios(tier):
    q = tier == "quick"
    out = []

    def add(name, hh, cost=4):
        out.append((name, hh, {"cost": cost}))
    add("rules two clauses", rules(CLS[0], 2, (0, 1, 1), [[1], [0, 1]]))
    add("rules three clauses", rules(CLS[0], 2, (7, 3, 3), [[0], [0, 1], [1]]))
    add("rules text labels", rules(CLS[0], 2, ("yes", "no"), [[0], [0, 1]]))
    add("rules limit", rules(CLS[0], 3, (5, 2, 5), [[0, 2], [1], [2]], 2))
    add("rules none found", rules(CLS[0], 2, (1, 0), []))
    add("rules with heuristic two clauses", rules(CLS[1], 2, (0, 1), [[1], [0, 1]]), 14)
    add("rules with heuristic limit", rules(CLS[1], 2, (5, 2), [[0], [1]], 1), 14)
    add("rules with heuristic none found", rules(CLS[1], 2, (1, 0), []))
    add("rules trained twice", rules(CLS[0], 2, (0, 1, 1), [[1]], again=((1, 0), [[0], [0, 1]])))
    add("rules trained twice with other labels", rules(CLS[0], 2, ("no", "yes"), [[0], [1]], again=((3, 9, 3), [[0, 1]])))
    add("rules with heuristic trained twice", rules(CLS[1], 1, (0, 1), [], again=((7, 5), [[0]])), 14)
    add("rules clause priced again", rules(CLS[0], 2, (0, 1, 1), [[1], [1]]))
    add("rules clause priced again later", rules(CLS[0], 2, (0, 1), [[0, 1], [0], [0, 1]]))
    if not q:
        add("rules five clauses", rules(CLS[0], 3, (0, 1, 1, 0), [[0], [1, 2], [0, 1, 2], [2], [0, 1]]), 20)
        add("rules more positives", rules(CLS[0], 3, (1, 1, 0, 1), [[0], [1, 2], [2]]), 20)
        add("rules with heuristic three rows", rules(CLS[1], 2, (0, 1, 1), [[1], [0, 1]]), 60)
        add("rules text labels three rows", rules(CLS[0], 2, ("yes", "no", "no"), [[0], [0, 1], [1]]), 60)
    F, C1 = (0, 0, 1), {0: [0, 1, 2]}
    C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
    for mode in ("auto", "all", "lazy"):
        add("tree depth 1 %s" % mode, trees(1, 3, F, C1, [0, 3, 1, 4, 0], (0, 1, 0), mode))
        add("tree depth 1 %s priced" % mode, trees(1, 2, F, C1, [0, 3], ("b", "a"), mode, priced=[(1, 1, 0), (0, 1, 1)]))
        add("tree depth 2 %s" % mode, trees(2, 2, F, C2, [0, 4, 8, 12, 3, 7, 11, 15], (5, 2), mode), 14)
        add("tree depth 2 %s priced" % mode, trees(2, 2, F, C2, [0, 4, 8, 12], (0, 1), mode, priced=[(1, 1, 1), (0, 1, 0)]), 14)
    for old in (False, True):
        add("tree depth 1 merged rows%s" % (" older pricing" if old else ""), trees(1, 3, F, C1, [0, 3], (1, 0, 1), "merged", priced=[(1, 1, 0), (0, 1, 1)], old=old), 10)
        add("tree depth 2 merged rows%s" % (" older pricing" if old else ""), trees(2, 3, F, C2, [0, 4, 8, 12], (0, 1, 0), "merged", priced=[(2, 1, 0)], old=old), 10)
    add("tree depth 1 older pricing", trees(1, 2, F, C1, [0, 3], (0, 1), "all", priced=[(1, 1, 0), (0, 1, 1)], old=True))
    add("tree depth 1 three labels", trees(1, 3, F, C1, [0, 3], ("x", "z", "y"), "all", priced=[(1, 2, 2)]))
    if not q:
        add("tree depth 2 three rows", trees(2, 3, F, C2, [0, 4, 8, 12, 1, 5, 9, 13], (5, 2, 2), "auto", priced=[(2, 3, 1), (3, 1, 0)]), 40)
        add("tree depth 2 older pricing", trees(2, 3, F, C2, [0, 4, 8, 12], (5, 2, 2), "lazy", priced=[(2, 3, 1), (3, 1, 0)], old=True), 40)
        add("tree depth 2 all paths", trees(2, 2, F, C2, list(range(16)), (0, 1), "lazy"), 40)
    return out
