"""C02 Levelled pricing protocol: cheap levels first, every column offered once."""
from props.cglib import *

LEVEL_NOTE = ("Decided for every history (columns offered, answers and improvement reports of the master) of 8 arrangements of 1-4 "
              "pricing problems with at most 2-3 master solves and 2-3 columns per call. Long or large cases, with a few arbitrary values: after 60 given iterations.")
ASSUMES = ["add_column answers True or False", "rmp_objective_improved has no side effect and is stable between solves"]
BOUNDS = {"quick": "<=2-3 master solves, <=1-3 columns per call; after 60 given iterations", "thorough": "<=3 master solves, <=2-3 columns per call"}


def judge(vm, clf, log, shape, X, y01, calm=0, calm_improves=False):
    order = [(l, s) for l, k in enumerate(shape) for s in range(k)]
    first = [e[0] for e in log.ev if e[0] in ("mp", "rmp", "update", "gen", "add", "ip")]
    vm.check(first[:1] == ["mp"] and first.count("mp") == 1, "the master is generated once, first")
    e = log.of("mp")[0]
    vm.check(AND(data_is(vm, e[1], X), labels_are(vm, e[2], y01)), "the master gets the data and encoded labels")
    its = iterations(log)
    vm.check(not [1 for e in log.ev[:log.ev.index(its[0][0])] if e[0] in ("gen", "add", "update")], "nothing is priced before the first solve")
    accepted = {o: 0 for o in order}
    for it in its:
        d = it[0][1]
        vm.check(it[0][2] == "R", "the master is solved with its parameters")
        vm.check(all(e[3] is d for e in it if e[0] in ("update", "gen")), "the duals of the latest solve are used")
        ups = [(e[1], e[2]) for e in it if e[0] == "update"]
        kinds = [e[0] for e in it if e[0] in ("update", "gen", "add")]
        nu = kinds.count("update")
        vm.check(sorted(ups) == sorted(order) and kinds[:nu] == ["update"] * nu, "every pricing problem is updated once, before pricing")
        gens = [(e[1], e[2]) for e in it if e[0] == "gen"]
        vm.check(gens == order[:len(gens)], "pricing problems are asked in their declared order, level by level")
        if not gens:
            vm.check(not order, "pricing problems are asked")
            continue
        cur, todo, done = None, [], False
        for e in it:
            if e[0] == "gen":
                vm.check(not todo, "every returned column is offered before the next pricing problem")
                vm.check(not done, "no pricing problem is asked after an accepted column")
                vm.check(e[4] == "p%d_%d" % (e[1], e[2]), "each pricing problem gets its own parameters")
                vm.check(AND(data_is(vm, e[6], X), labels_are(vm, e[7], y01)), "pricing gets the data and encoded labels")
                cur, todo = (e[1], e[2]), list(e[5])
            elif e[0] == "add":
                vm.check(bool(todo) and same_column(vm, todo[0], e[1]), "columns are offered once, in the order returned")
                todo = todo[1:]
                if e[2]:
                    done = True
                    accepted[cur] += 1
        vm.check(not todo, "every returned column is offered")
        vm.check(done or len(gens) == len(order), "the pass ends only with an accepted column or after all pricing problems")
    for l, s in order:
        vm.check(vm.eq(clf.num_col_added_sp_[l][s], accepted[(l, s)]), "accepted columns are counted per pricing problem")
    vm.check([len(r) for r in clf.num_col_added_sp_] == list(shape), "one counter per pricing problem")
    imp = SUM([(1 if calm_improves else 0) if k < calm else ITE(vm.bool("improved%d" % k), 1, 0) for k in range(len(its))])
    vm.check(vm.eq(clf.num_improving_iter_, imp), "improving iterations are counted")


def same_column(vm, a, b):
    if isinstance(a, str):
        return a == b
    return a is b or (len(a) == len(b) and AND([vm.eq(u, v) for u, v in zip(a, b)]))


def labels_are(vm, y, want):
    if len(y) != len(want):
        return False
    return AND([vm.eq(a, b) for a, b in zip(list(y), want)])


def data_is(vm, a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    return AND([vm.eq(u, v) for r, s in zip(a, b) for u, v in zip(list(r), list(s))])


def run(shape, cols, max_rmp, improve, labels=(3, 1, 3), fits=1, content=False, accepted=None, calm=0, calm_improves=False):
    """accepted: the columns (counted over the training) of which one or none is accepted; by default each may be"""
    def h(vm):
        log = Log()
        which = vm.one_of("accepted", list(accepted)) if accepted else None
        clf, st = build(vm, shape, log, cols, None, None, False, max_rmp=max_rmp, improve=True,
                        accept=(lambda k: k == which) if accepted else None, content=content, calm=calm, calm_improves=calm_improves)
        for f in range(fits):
            log.ev[:] = []
            st["rmp"] = 0
            X, y = training_data(vm, labels)
            vm.split(clf.fit, X, y)
            lo = min(labels)
            judge(vm, clf, log, shape, X, [0 if v == lo else 1 for v in labels], calm, calm_improves)
    return h


def scenarios(tier):
    out = []
    q = tier == "quick"
    for shape in SHAPES + [(2, 2)]:
        nm = "x".join(map(str, shape))
        k = sum(shape)
        out.append((nm + " columns", run(shape, 1 if k > 2 else 2, 2, True), {"cost": 6 * k}))
        if k == 1:
            out.append((nm + " three columns", run(shape, 3, 2 if q else 3, True), {"cost": 5}))
        if not q:
            out.append((nm + " long", run(shape, 1 if k > 1 else 2, 3, True), {"cost": 30}))
            if k == 3:
                out.append((nm + " two columns", run(shape, 2, 2, True), {"cost": 30}))
    out.append(("1x1 string labels", run((1, 1), 1, 2, True, ("b", "a", "b")), {}))
    out.append(("1 equal columns", run((1,), 3, 2, True, content=True), {"cost": 6}))
    out.append(("1x1 equal columns", run((1, 1), 2, 2, True, content=True), {"cost": 12}))
    out.append(("1x1 trained twice", run((1, 1), 1, 2, True, fits=2) if not q else run((1,), 1, 2, True, fits=2), {"cost": 6}))
    for shape, imp in (((1, 1), False), ((1, 1), True), ((2,), False), ((1, 1, 1), False), ((2, 1), False)):
        out.append(("%s after 60 iterations%s" % ("x".join(map(str, shape)), " of progress" if imp else ""),
                    run(shape, 1, 2 if sum(shape) < 3 else 1, True, calm=60, calm_improves=imp), {"cost": 8}))
    for shape, cols in (((1,), (0, 130)), ((1, 1), (0, 70)), ((2,), (1, 55))):
        out.append(("x".join(map(str, shape)) + " many columns", run(shape, cols, 2, True, accepted=(-1, 0, 9, 50, 69, 100, 129)), {"cost": 8}))
    return out
