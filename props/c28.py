"""C28 A tree training uses exactly the instance and parameters given, whatever was trained before."""
from props.dtmaster import *
from props.dtpricing import *
from props import mplib
from props.c13 import judge
from props.c15 import violated, judge_round, gdump, is_row, new_rows, lp
from props.c16 import price_cp, price_mip
from props.c18 import judge as judge_drawn
from props.c24 import cloned
from props.c25 import judge_cuts, judge_model, sides_of, roles_of, follows

LEVEL_NOTE = ("Decided over every data set of 1-2 rows (arbitrary values and thresholds), path costs, row weights and dropped rows, "
              "every LP solution while rows were added earlier and now, and every duals, for trainings that follow 1-2 earlier "
              "ones (with generated paths, lazily added rows, generated cuts) by another classifier, a clone or the same one.")
ASSUMES = ["splits on one feature have different thresholds", "earlier trainings are finished when the next one starts",
           "for pricing: the assumptions of C16"]
BOUNDS = {"quick": "depth 1-2, 1-2 rows, 1-2 earlier trainings", "thorough": "depth 1-2, 2-3 rows, 2 earlier trainings"}


def quiet(vm):
    """training ends before pricing: time is up after the first master solve, which returns a selection of no path"""
    vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
    tick = {"k": 0}

    def clock():
        if vm.E is not None:
            vm.E.touch(tick)
        tick["k"] = tick["k"] + 1
        return 100.0 * tick["k"]
    vm.hooks["clock"] = clock


def fit(vm, clf, P, labels):
    import numpy as np
    quiet(vm)
    vm.call(clf.fit, P.X, np.array(list(labels)))


class Inst:
    """the instance as the user holds it"""

    def __init__(self, vm, depth, n, feats, cands, initial, labels, rows, given=None, tag=""):
        self.vm, self.labels, self.tag = vm, labels, tag
        self.P = P = Problem(vm, n, depth, feats, cands, tag=tag, concrete=given)
        allp = all_paths(P)
        self.all = allp
        self.specs = [allp[i % len(allp)] for i in initial]
        self.costs = [vm.int_in("%scost%d" % (tag, i), 0, 20) for i in range(len(initial))]
        self.paths = [P.path(l, c, l % 2, k) for (l, c), k in zip(self.specs, self.costs)]
        self.given = list(self.paths)
        self.y = [sorted(set(labels)).index(v) for v in labels]
        self.rm = [False] * n
        self.weight = [1] * n
        self.rows = None
        if rows:
            self.rm = [vm.bool("%srow %d dropped" % (tag, r)) for r in range(n)]
            self.weight = [vm.int_in("%sweight%d" % (tag, r), 1, 1000) for r in range(n)]
            self.rows = data_rows(vm, n, self.rm, None, self.weight)

    def classifier(self, **kw):
        P = self.P
        kw = dict(dict(time_limit=1, data_rows=self.rows), **kw)
        return self.vm.call(self.vm.dt.DTreeClassifier, self.given, P.leaves, P.nodes, P.splits, P.depth, [0, 1], **kw)

    def new_path(self, i, tag):
        l, c = self.all[i % len(self.all)]
        k = self.vm.int_in(tag, 0, 20)
        return (l, c), k, self.P.path(l, c, l % 2, k)

    def check_kept(self, what):
        vm = self.vm
        vm.check(len(self.given) == len(self.paths) and all(resolve(a) is b for a, b in zip(self.given, self.paths)),
                 "the given list of initial paths is left as given " + what)
        for p, (l, c), k in zip(self.paths, self.specs, self.costs):
            vm.check(AND(vm.eq(p.leaf_id, l), choice_of(p, vm) == c, vm.eq(p.target, l % 2), vm.eq(p.cost, k)),
                     "the initial paths are left as given " + what)
        if self.rows is not None:
            vm.check(len(self.rows) == self.P.n, "no row record is added or dropped " + what)
            for r, row in enumerate(self.rows):
                vm.check(AND(IFF(truth(row.removed_from_master), self.rm[r]), vm.eq(row.weight, self.weight[r])), "row records keep flags and weights " + what)
        self.P.check_unchanged(what)


def truth(v):
    v = resolve(v)
    return v if isinstance(v, (bool, SymBool)) else bool(v)


# ---- earlier trainings

def some_columns(I, clf, t, which):
    for i in which:
        _, _, p = I.new_path(i, "h%d.cost%d" % (t, i))
        I.vm.call(clf.master_problem.add_column, p)


def earlier(I, t, kind, which):
    """kind: which of columns, rows, cuts the training produces"""
    vm, P = I.vm, I.P
    clf = I.classifier(master_beta_constraints_as_cuts="rows" in kind, master_generate_cuts="cuts" in kind,
                       num_master_cuts_round=1)
    fit(vm, clf, P, I.labels)
    mp = clf.master_problem
    if "rows" in kind:
        some_columns(I, clf, t, which[:1])
        vals, hook = lp(vm, "h%d.lp" % t, len(mp.solver_._vars))
        vm.hooks["mp_solve"] = hook
        vm.call(mp.solve_rmp, "")
        vm.call(mp.add_beta_cuts)
        some_columns(I, clf, t, which[1:])
    elif "cuts" in kind:
        some_columns(I, clf, t, which[:1])
        make_cut(I, clf, [s % 2 == 0 for s in range(len(P.feats))] if len(set(P.feats)) == len(P.feats) else [True] * len(P.feats))
        some_columns(I, clf, t, which[1:])
    else:
        some_columns(I, clf, t, which)
    I.check_kept("(after training %d)" % t)
    return clf


def ten(I, clf, tenth):
    """solves until the tenth one, which is answered by tenth"""
    vm = I.vm
    vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
    for k in range(8):
        vm.call(clf.master_problem.solve_rmp, "")
    vm.hooks["mp_solve"] = tenth
    D = vm.split(clf.master_problem.solve_rmp, "")
    return D


def make_cut(I, clf, side):
    """the search shows the sides given; their paths sum to two"""
    vm, P = I.vm, I.P

    def cp(solver, m, cb):
        _, sv, pv = roles_of(vm, clf.master_problem)
        v = [0] * len(m._vars)
        for i, s in zip(sv, side):
            v[i] = 1 if s else 0
        for p, i in zip([val_of(q) for q in resolve(clf.master_problem.paths_)], pv):
            c, l = choice_of(p, vm), vm.concrete(p.leaf_id)
            v[i] = 1 if all(side[a] == left for a, left in P.spec(l, c)) else 0
        return 4, [(v, 0, 0)], v, 0, 0, 0
    vm.hooks["cp_solve"] = cp
    n0 = len(clf.master_problem.solver_._cons)
    D = ten(I, clf, lambda s: (0, [2] * len(s._vars), [0] * len(s._cons), 0))
    vm.check(len(clf.master_problem.solver_._cons) == n0 + 1, "a violated cut is added by an earlier training")
    # the pricing problems learn of the cuts, as in the training loop
    for level in clf.subproblems:
        for sp in level:
            vm.call(sp.update_subproblem, P.X, np_array(I.y), D)


def np_array(y):
    import numpy as np
    return np.array(list(y))


# ---- the next training

def the_next(I, how, clf, **kw):
    """-> classifier, its initial path objects"""
    vm = I.vm
    if how == "other":
        return I.classifier(**kw), I.paths
    if how == "moved":
        P = I.P
        kw = dict(kw, initial_paths=I.given, leaves=P.leaves, nodes=P.nodes, splits=P.splits, tree_depth=P.depth, data_rows=I.rows)
    if how in ("same", "moved"):
        vm.call(clf.set_params, **kw)
        return clf, I.paths
    twin = cloned(vm, clf)
    vm.call(twin.set_params, **kw)
    return twin, [val_of(p) for p in resolve(twin.initial_paths)]


def judge_next(I, clf, paths, what, after, rows_mode):
    """the master over the given paths, then with columns"""
    vm, P = I.vm, I.P
    mp = clf.master_problem
    kept = {} if rows_mode == "lazy" else None if I.rows is None else {r: NOT(I.rm[r]) for r in range(P.n)}
    specs, costs, paths = list(I.specs), list(I.costs), list(paths)
    vm.check(len(mp.path_vars_) == len(paths), "training starts from exactly the given paths " + what)
    judge(vm, P, mp, paths, specs, costs, kept, what)
    for i in after:
        s, k, p = I.new_path(i, "cost of added %d" % i)
        vm.call(mp.add_column, p)
        paths.append(p)
        specs.append(s)
        costs.append(k)
    if after:
        judge(vm, P, mp, paths, specs, costs, kept, what + " after columns")
    return mp, paths, specs


def next_lazy(I, mp, paths, specs, what):
    vm, P = I.vm, I.P
    s = mp.solver_
    ids = path_ids(vm, mp, paths)
    if ids is None:
        return
    vals, hook = lp(vm, "now.lp", len(s._vars))
    vm.hooks["mp_solve"] = hook
    vm.call(mp.solve_rmp, "")
    before, m0 = gdump(s), len(s._cons)
    got = vm.call(mp.add_beta_cuts)
    kept = [NOT(g) for g in I.rm]
    judge_round(vm, P, s, before, m0, specs, ids, [vals[i] for i in ids], kept, [False] * P.n, got, what)


def next_cuts(I, clf, mp, paths, specs, per, later, what):
    vm, P = I.vm, I.P
    s = mp.solver_
    ids = path_ids(vm, mp, paths)
    if ids is None:
        return
    base = len(s._cons)
    log, x = [], []

    def tenth(s):
        x.append([vm.real_in("now.lp%d.%d" % (len(x), i), 0) for i in range(len(s._vars))])
        return 0, list(x[-1]), [0] * len(s._cons), 0

    def cp(solver, m, cb):
        v = [num01(vm.bool("now.s%d.%d" % (len(log), i))) for i in range(len(m._vars))]
        vm.assume(cp_feasible(m, v))
        log.append(v)
        return 4, [(v, 0, 0)], v, 0, 0, 0
    vm.hooks["cp_solve"] = cp
    D = ten(I, clf, tenth)
    _, sv, pv = roles_of(vm, mp)
    vm.check(len(pv) == len(specs), "one variable per path " + what)
    if len(pv) != len(specs):
        return
    cuts, k = [], 0
    for k, v in enumerate(log):
        bad = SUM([ITE(EQ(v[p], 1), x[k][i], 0) for p, i in zip(pv, ids)]) > 1 + 1e-6
        if vm.fork(bad):
            cuts.append(sides_of(v, sv))
        else:
            break
    vm.check(len(log) == min(per, len(cuts) + 1), "cuts are looked for until none is found, at most as often as given " + what)
    vm.check(len(s._cons) == base + len(cuts), "one constraint per cut " + what)
    if len(s._cons) != base + len(cuts):
        return
    judge_cuts(vm, P, s, base, cuts, specs, ids, what)
    for level in clf.subproblems:
        for sp in level:
            vm.call(sp.update_subproblem, P.X, np_array(I.y), D)
    for i in later:
        sp, k, p = I.new_path(i, "cost of late %d" % i)
        vm.call(mp.add_column, p)
        paths.append(p)
        specs.append(sp)
    ids = path_ids(vm, mp, paths)
    if ids is not None:
        judge_cuts(vm, P, s, base, cuts, specs, ids, "later " + what)


def next_pricing(I, clf, old, what, leaves=None):
    """the exact pricing problems value every path by its reduced cost"""
    vm, P = I.vm, I.P
    L = 2 ** P.depth
    sps = [val_of(sp) for sp in resolve(clf.subproblems[-1])]
    want = sorted((l, t) for l in range(L) for t in ((0, 1) if old else (None,)))
    at = [(vm.concrete(sp.leaf_id_), vm.concrete(sp.target_) if old else None) for sp in sps]
    vm.check(sorted(at) == want, "one exact pricing problem per leaf, or per leaf and target " + what)
    vm.check(len(clf.subproblems) == 2 and len(clf.subproblems[0]) == 1, "after one heuristic " + what)
    if sorted(at) != want:
        return
    kept = list(range(P.n))
    next_heuristic(I, clf, kept, what)
    for (l, t), sp in zip(at, sps):
        if leaves is not None and l not in leaves:
            continue
        D = Duals(vm, P, "d%d.%s" % (l, t), 0, [])
        vm.call(sp.update_subproblem, P.X, np_array(I.y), D.tup)
        spec = Spec(vm, P, l, I.y, [0, 1], D, [], kept, I.weight, t)
        (price_mip if old else price_cp)(vm, P, sp, np_array(I.y), D, spec, "old" if old else "cp", 2, "leaf %d %s" % (l, what), "s%d.%s" % (l, t))


def next_heuristic(I, clf, kept, what):
    """the paths drawn by the heuristic are valued by the given rows and weights; draws go through the choices in turn"""
    vm, P = I.vm, I.P
    st = {"k": 0}

    def draw(size):
        if vm.E is not None:
            vm.E.touch(st)
        st["k"] = st["k"] + 1
        return (st["k"] + st["k"] // 7) % size
    vm.hooks["pick"] = lambda seq: seq[draw(len(seq))]
    vm.hooks["draw_int"] = lambda k, a, b: a + draw(b - a + 1)
    sp = val_of(resolve(clf.subproblems[0])[0])
    D = Duals(vm, P, "drawn", 0, [])
    vm.call(sp.update_subproblem, P.X, np_array(I.y), D.tup)
    got = vm.items(vm.call(sp.generate_columns, P.X, np_array(I.y), D.tup, ""))
    judge_drawn(vm, P, D, [], kept, I.weight, I.y, [0, 1], got, what)


def next_rounds(I, mp, clf, specs, paths, per, what):
    """rows are looked for in as many rounds as given, as long as some are violated"""
    vm, P = I.vm, I.P
    s = mp.solver_
    ids = path_ids(vm, mp, paths)
    if ids is None:
        return
    base, x = len(s._cons), []

    def tenth(s):
        x.append([vm.real_in("round%d.v%d" % (len(x), i), 0) for i in range(len(s._vars))])
        return 0, list(x[-1]), [0] * len(s._cons), 0
    vm.hooks["mp_solve"] = lambda s: (0, [0] * len(s._vars), [0] * len(s._cons), 0)
    for k in range(8):
        vm.call(mp.solve_rmp, "")
    vm.hooks["mp_solve"] = tenth
    vm.split(mp.solve_rmp, "")
    have, rounds = [vm.fork(g) for g in I.rm], 0
    added = 0
    while rounds < per and rounds < len(x):
        new = [r for r in range(P.n) if not have[r] and vm.fork(violated(P, specs, [x[rounds][i] for i in ids], r))]
        if not new:
            break
        rounds += 1
        added += len(new)
        for r in new:
            have[r] = True
    vm.check(len(x) == 1 + rounds, "one more solve per round that added rows, at most as many as given " + what)
    vm.check(EQ(SUM([ITE(guard_of(c), 1, 0) for c in s._cons[base:]] or [0]), added), "the rows of each round are added " + what)


def run(depth, n, feats, cands, initial, labels, rows, history, how, mode, after=(), old=False, per=1, later=(), given=None, leaves=None, before=None):
    """before: the instance of the earlier trainings, when it is another; history: (kind, columns) of the earlier trainings; mode: what the next training is asked for"""
    def h(vm):
        I = Inst(vm, depth, n, feats, cands, initial, labels, rows, given)
        clf = None
        if how == "moved":
            I, J = Inst(vm, *before), I
        for t, (kind, which) in enumerate(history):
            clf = earlier(I, t, kind, which)
        if how == "moved":
            I, J = J, I
        kw = dict(master_beta_constraints_as_cuts=mode == "lazy", master_generate_cuts=mode == "cuts", num_master_cuts_round=per,
                  use_old_sp=old)
        if clf is None:
            clf, paths = I.classifier(**kw), I.paths
        else:
            clf, paths = the_next(I, how, clf, **kw)
        what = "(by %s)" % {"other": "another classifier", "same": "the same classifier", "clone": "a clone", "moved": "the same classifier on another instance"}[how]
        fit(vm, clf, I.P, labels)
        mp, paths, specs = judge_next(I, clf, paths, what, after, mode)
        if mode == "lazy" and per != 1:
            next_rounds(I, mp, clf, specs, paths, per, what)
        elif mode == "lazy":
            next_lazy(I, mp, paths, specs, what)
        if mode == "cuts":
            next_cuts(I, clf, mp, paths, specs, per, later, what)
        if mode == "pricing":
            next_pricing(I, clf, old, what, leaves)
        I.check_kept("(at the end)")
        if how == "moved":
            J.check_kept("(the earlier instance)")
    return h


def scenarios(tier):
    q = tier == "quick"
    F, C1 = (0, 0, 1), {0: [0, 1, 2]}
    C2 = {0: [0, 1], 1: [2, 0], 2: [1, 2]}
    TREE2 = [0, 4, 8, 12]
    out = []

    def add(name, *a, cost=4, **kw):
        out.append((name, run(*a, **kw), {"cost": cost}))
    for how in ("other", "same", "clone"):
        add("columns then master, %s" % how, 1, 2, F, C1, [0, 3], (5, 2), False, [("columns", [1, 4])], how, "master", after=[2])
        add("rows then lazy, %s" % how, 1, 2, F, C1, [0, 3], (2, 5), True, [("rows", [1, 4])], how, "lazy", after=[5])
        add("columns then lazy, %s" % how, 1, 2, F, C1, [0, 3, 1], (2, 5), True, [("columns", [4, 2, 5])], how, "lazy", after=[4])
        add("cuts then cuts, %s" % how, 1, 2, (0, 1), {0: [0, 1]}, [0, 3], (0, 1), False, [("cuts", [1])], how, "cuts", after=[2], later=[0, 1], given=([[1, 2], [3, 0]], [2, 1]))
        add("columns then pricing, %s" % how, 1, 2, F, C1, [0, 3], ("b", "a"), True, [("columns", [1])], how, "pricing")
        add("columns then older pricing, %s" % how, 1, 2, F, C1, [0, 3], (0, 1), True, [("columns", [1])], how, "pricing", old=True)
        add("depth 2 rows then lazy, %s" % how, 2, 2, F, C2, TREE2, (0, 1), True, [("rows", [1, 7])], how, "lazy", after=[5], cost=14)
        add("depth 2 cuts then master, %s" % how, 2, 2, F, C2, TREE2, (0, 1), True, [("cuts", [1, 7])], how, "master", after=[5, 10], cost=10)
    add("first training lazy", 1, 2, F, C1, [0, 3, 4], (0, 1), True, [], "other", "lazy", after=[2])
    add("first training cuts two searches", 1, 2, (0, 1), {0: [0, 1]}, [0, 3], (0, 1), False, [], "other", "cuts", per=2, after=[1], given=([[1, 2], [3, 0]], [2, 1]))
    add("depth 2 first training pricing", 2, 2, (0, 1, 0), {0: [0, 1], 1: [2, 0], 2: [1]}, [0, 1, 6, 7], (0, 1), True, [], "other", "pricing", cost=14)
    add("cuts then rows then lazy", 1, 2, F, C1, [0, 3], (0, 1), True, [("cuts", [1]), ("rows", [4, 2])], "other", "lazy", after=[5], cost=8)
    add("rows then cuts then cuts", 1, 2, (0, 1), {0: [0, 1]}, [0, 3], (0, 1), True, [("rows", [1]), ("cuts", [2])], "same", "cuts", later=[1], given=([[1, 2], [3, 0]], [2, 1]), cost=8)
    G = ([[1, 2], [3, 0]], [2, 1])
    B = (1, 2, (0, 1), {0: [0, 1]}, [0, 3], (4, 1), True, G, "before.")
    for mode in ("master", "lazy", "pricing"):
        add("another instance then %s" % mode, 1, 2, F, C1, [0, 3, 1], (2, 5), mode == "lazy", [("rows" if mode == "lazy" else "columns", [1, 2])], "moved", mode, after=[4], before=B)
    add("another depth then master", 2, 2, F, C2, TREE2, (0, 1), True, [("cuts", [1, 2])], "moved", "master", after=[5], before=B, cost=8)
    add("no cut rounds", 1, 2, (0, 1), {0: [0, 1]}, [0, 3], (0, 1), False, [("cuts", [1])], "same", "cuts", per=0, later=[0, 1], given=G)
    for per in (0, 2):
        add("%d row rounds" % per, 1, 2, F, C1, [0, 3, 1], (0, 1), True, [], "other", "lazy", per=per)
    if not q:
        for how in ("other", "same", "clone"):
            add("three rows: rows then lazy, %s" % how, 1, 3, F, C1, [0, 3], (2, 5, 5), True, [("rows", [1, 4])], how, "lazy", after=[5], cost=20)
            add("depth 2 rows then cuts then lazy, %s" % how, 2, 2, F, C2, TREE2, (0, 1), True, [("rows", [1, 7]), ("cuts", [10])], how, "lazy", after=[5], cost=40)
            add("cuts then cuts twice, %s" % how, 1, 2, (0, 1), {0: [0, 1]}, [0, 3], (0, 1), False, [("cuts", [1]), ("cuts", [2])], how, "cuts", per=2, later=[0, 1], given=G, cost=40)
            add("depth 2 columns then pricing, %s" % how, 2, 2, (0, 1, 0), {0: [0, 1], 1: [2, 0], 2: [1]}, [0, 1, 6, 7], (0, 1), True, [("columns", [2, 5])], how, "pricing", cost=20)
            add("depth 2 columns then older pricing, %s" % how, 2, 2, (0, 1, 0), {0: [0, 1], 1: [2, 0], 2: [1]}, [0, 1, 6, 7], (0, 1), True, [("columns", [2, 5])], how, "pricing", old=True, cost=20)
    return out
