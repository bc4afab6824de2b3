"""C03 Iteration and time limits bound training; the final IP is solved once."""
from props.cglib import *

LEVEL_NOTE = ("Decided for every history of 6 arrangements of 1-3 pricing problems, every positive or negative iteration and time "
              "limit, every non-decreasing clock and timer reset, with at most 2-3 master solves and 1 column per call. Long or large cases, with a few arbitrary values: after 60 given iterations.")
ASSUMES = ["the clock is non-decreasing", "limits are positive, or negative for none"]
BOUNDS = {"quick": "<=2-3 master solves, 1 column per call; after 60 given iterations", "thorough": "<=3-4 master solves"}


def judge(vm, clf, log, shape, mi, tl, is_ip, done=True):
    order = [(l, s) for l, k in enumerate(shape) for s in range(k)]
    its = iterations(log)
    n = len(its)
    if mi is not None:
        vm.check(OR(mi < 0, n <= mi), "the master is solved at most as often as the iteration limit")
    for i, it in enumerate(its):
        full = [(e[1], e[2]) for e in it if e[0] == "gen"] == order
        acc = any(e[0] == "add" and e[2] for e in it)
        if i < n - 1:
            vm.check(not (full and not acc), "training ends after a full pass without accepted column")
            vm.check(acc, "training goes on only after an accepted column")
        else:
            reasons = [full and not acc]
            if mi is not None:
                reasons.append(AND(mi > 0, n >= mi))
            if tl is not None:
                ticks = [e[1] for e in log.ev if e[0] == "clock"]
                reasons.append(AND(tl > 0, OR([b - ticks[0] > tl for b in ticks[1:]] or [False])))
            vm.check(OR(reasons), "training ends only by a full pass without accepted column or a positive limit")
    if tl is not None:
        # each asked pricing problem: some reading since the previous event is within the limit, counted from the start or last reset
        starts, window, prev = [], [], "begin"
        fresh = True
        for e in log.ev:
            if e[0] == "clock":
                window.append(e[1])
                if fresh:
                    starts.append(e[1])
            elif e[0] == "gen":
                ok = [b - a <= tl for a in starts for b in window if True]
                vm.check(OR(tl < 0, OR(ok or [False])), "no pricing problem is asked once the time limit is exceeded")
                window, fresh = [], False
            elif e[0] == "reset":
                starts, fresh = [], True
                window = []
            elif e[0] in ("add",):
                window = []
            elif e[0] == "rmp":
                window = []
            elif e[0] in ("mp", "update"):
                fresh = False if e[0] == "mp" else fresh
    ips = [i for i, e in enumerate(log.ev) if e[0] == "ip"]
    last = max([i for i, e in enumerate(log.ev) if e[0] in ("rmp", "gen", "add", "update")] or [-1])
    if is_ip:
        vm.check(len(ips) == 1, "the integer master is solved exactly once")
        vm.check(all(i > last for i in ips), "after the last column")
        vm.check(all(log.ev[i][1] == "I" for i in ips), "with its parameters")
    else:
        vm.check(not ips, "no integer solve without an integer master")


def run(shape, cols, max_rmp, use_iter, use_time, is_ip, reset=False, fits=1, calm=0):
    def h(vm):
        log = Log()
        mi = vm.int("max_iterations") if use_iter else None
        tl = vm.real("time_limit") if use_time else None
        if use_iter:
            vm.assume(NOT(EQ(mi, 0)))
        if use_time:
            vm.assume(NOT(EQ(tl, 0)))
        clf, st = build(vm, shape, log, cols, mi, tl, is_ip, max_rmp=max_rmp, reset=reset, calm=calm)
        for f in range(fits):
            log.ev[:] = []
            st["rmp"] = 0
            X, y = training_data(vm, (0, 1))
            r = vm.split(clf.fit, X, y)
            vm.check(r is clf, "fit returns the classifier")
            vm.check(hasattr(clf, "is_fitted_") and truth(clf.is_fitted_), "the classifier is fitted")
            judge(vm, clf, log, shape, mi, tl, is_ip)
    return h


def truth(x):
    return x if isinstance(x, SymBool) else bool(x)


def failing_ip(shape, ok):
    def h(vm):
        log = Log()
        clf, st = build(vm, shape, log, 1, None, None, True, max_rmp=2, ip_ok=ok)
        X, y = training_data(vm, (0, 1))
        r, e = vm.attempt_split(clf.fit, X, y)
        vm.check(e is not None, "a failed integer solve is an error")
        vm.check(not hasattr(clf, "is_fitted_"), "and the classifier is not fitted")
        vm.check(len(log.of("ip")) == 1, "the integer master is solved once")
    return h


def scenarios(tier):
    out = []
    q = tier == "quick"
    for shape in [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)]:
        nm = "x".join(map(str, shape))
        big = sum(shape) > 2
        out.append((nm + " iteration limit, ip", run(shape, 1, (2 if big else 3) if q else (3 if big else 4), True, False, True), {"cost": 4}))
        out.append((nm + " no limits, lp", run(shape, 1, 2 if q else 3, False, False, False), {"cost": 4}))
        out.append((nm + " time limit", run(shape, 1, (1 if big else 2) if q else (2 if big else 3), False, True, True), {"cost": 9}))
        if not big or not q:
            out.append((nm + " both limits, lp", run(shape, 1, 2, True, True, False), {"cost": 7}))
        if not big:
            out.append((nm + " timer reset", run(shape, 1, 2 if q else 3, False, True, False, True), {"cost": 9}))
    for ok in (False, None, 0):
        if ok is None:
            continue
        out.append(("failing ip %r" % (ok,), failing_ip((1,), ok), {}))
    out.append(("failing ip two levels", failing_ip((1, 1), False), {}))
    for shape, mi, tl, rs in (((1, 1), False, False, False), ((1,), False, True, False), ((1,), False, True, True), ((1, 1), True, False, False)):
        out.append(("%s after 60 iterations%s" % ("x".join(map(str, shape)), " timer reset" if rs else " time limit" if tl else " iteration limit" if mi else ""),
                    run(shape, 1, 2, mi, tl, True, rs, calm=60), {"cost": 8}))
    out.append(("1 trained twice", run((1,), 1, 2, True, False, True, False, 2), {"cost": 6}))
    return out
