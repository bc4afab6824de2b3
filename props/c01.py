"""C01 The optimality flag is set exactly when optimality was established."""
from props.cglib import *

LEVEL_NOTE = ("Decided for every history (columns offered, answers of the master, clock readings, positive or negative limits) of "
              "7 arrangements of 1-3 pricing problems with at most 3 master solves and 1-2 columns per call; "
              "longer histories are outside. Long or large cases, with a few arbitrary values: after 60 given iterations.")
ASSUMES = ["the clock is non-decreasing", "add_column answers True or False", "limits are positive, or negative for none"]
BOUNDS = {"quick": "<=3 master solves, <=1-2 columns per call, 7 arrangements, 1-2 trainings; after 60 given iterations", "thorough": "<=4 master solves, <=2 columns"}


def judge(vm, clf, log, shape, limit, when=""):
    its = iterations(log)
    vm.check(len(its) > 0, "the master was solved" + when)
    if not its:
        return
    last = its[-1]
    d = last[0][1]
    asked = [(e[1], e[2]) for e in last if e[0] == "gen" and e[3] is d]
    accepted = [e for e in last if e[0] == "add" and e[2]]
    full = all((l, s) in asked for l, k in enumerate(shape) for s in range(k))
    vm.check(vm.eq(clf.iter_, len(its)), "iterations are counted" + when)
    tl = clf.time_limit_reached_
    vm.check(isinstance(tl, (bool, SymBool)), "the time limit flag is a truth value" + when)
    want = AND(full, not accepted, NOT(tl))
    got = clf.mp_optimal_
    vm.check(OR(AND(got, want), AND(NOT(got), NOT(want))), "optimal iff a full pass with the latest duals had no accepted column and no time limit" + when)
    if limit is None:
        vm.check(NOT(tl), "no time limit is reported without one" + when)
    else:
        ticks = [e[1] for e in log.of("clock")]
        vm.check(IMPLIES(tl, AND(limit > 0, OR([t - ticks[0] > limit for t in ticks[1:]] or [False]))),
                 "the time limit is reported only when a positive limit was exceeded" + when)
    # ending in the middle of a pass without an accepted column is reported as the time limit
    ended_early = not full and not accepted
    vm.check(IMPLIES(ended_early, tl), "an interrupted pass is reported as time limit" + when)


def run(shape, cols, max_rmp, use_iter, use_time, ip, fits=1, calm=0):
    def h(vm):
        log = Log()
        mi = vm.int("max_iterations") if use_iter else None
        tl = vm.real("time_limit") if use_time else None
        if use_iter:
            vm.assume(mi > 0)
        if use_time:
            vm.assume(NOT(EQ(tl, 0)))
        clf, st = build(vm, shape, log, cols, mi, tl, ip, max_rmp=max_rmp, calm=calm)
        for f in range(fits):
            log.ev[:] = []
            st["rmp"] = 0
            X, y = training_data(vm, (0, 1) if f == 0 else (1, 0))
            vm.split(clf.fit, X, y)
            judge(vm, clf, log, shape, tl, " (training %d)" % f if fits > 1 else "")
            if fits > 1:
                vm.env.count("sep")
    return h


def one_class(n, labels):
    def h(vm):
        log = Log()
        clf, st = build(vm, (1,), log, 0, None, None, False)
        X, y = training_data(vm, labels)
        r, e = vm.attempt_split(clf.fit, X, y)
        vm.check(isinstance(e, ValueError), "a single class is refused with ValueError")
        vm.check(not log.of("mp") and not log.of("rmp"), "before the master is built")
        vm.check(not hasattr(clf, "is_fitted_"), "and nothing is fitted")
    return h


def scenarios(tier):
    out = []
    q = tier == "quick"
    for shape in SHAPES:
        nm = "x".join(map(str, shape))
        big = sum(shape) > 2
        out.append((nm + " no limits", run(shape, 1 if big and q else 2, 2 if q or big else 3, False, False, False), {"cost": 5}))
        out.append((nm + " iteration limit", run(shape, 1, (2 if big else 3) if q else 4, True, False, True), {"cost": 4}))
        out.append((nm + " time limit", run(shape, 1, (1 if big else 2) if q else (2 if big else 3), False, True, True), {"cost": 9}))
        if not big or not q:
            out.append((nm + " both limits", run(shape, 1, 2, True, True, False), {"cost": 6}))
    for shape, mi, tl in (((1, 1), False, False), ((2,), False, False), ((1,), False, True), ((1, 1, 1), True, False)):
        out.append(("%s after 60 iterations%s" % ("x".join(map(str, shape)), " time limit" if tl else " iteration limit" if mi else ""),
                    run(shape, 1, 2 if sum(shape) < 3 else 1, mi, tl, False, calm=60), {"cost": 8}))
    out.append(("1 trained twice", run((1,), 1, 2, False, True, False, 2), {"cost": 6}))
    out.append(("2 trained twice", run((2,), 1, 2, True, False, False, 2), {"cost": 6}))
    out.append(("one class", one_class(3, (1, 1, 1)), {}))
    out.append(("one class of strings", one_class(3, ("a", "a")), {}))
    return out
