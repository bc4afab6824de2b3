from symvm.vals import *


def stat_history(n, clear_at):
    def h(vm):
        st = vm.call(vm.tuner.RunningStat)
        xs = []
        for i in range(n):
            if i in clear_at:
                vm.call(st.clear)
                xs = []
                judge(vm, st, xs, "after clear")
            x = vm.real("x%d" % i)
            vm.call(st.push, x)
            xs.append(x)
            judge(vm, st, xs, "after push %d" % i)
    return h


def judge(vm, st, xs, when):
    k = len(xs)
    vm.check(vm.eq(vm.call(st.num_data_values), k), "count " + when)
    mean = SUM(xs) / k if k else 0
    vm.check(vm.eq(vm.call(st.mean), mean), "mean " + when)
    var = SUM([(x - mean) * (x - mean) for x in xs]) / (k - 1) if k > 1 else 0
    v = vm.call(st.variance)
    vm.check(vm.eq(v, var), "variance " + when)
    sd = vm.call(st.standard_deviation)
    vm.check(AND(sd >= 0, vm.eq(sd * sd, var)), "standard deviation " + when)


def long_history(n, free, clear_at):
    """Many values; those outside `free` are given numbers."""
    def h(vm):
        st = vm.call(vm.tuner.RunningStat)
        xs = []
        for i in range(n):
            if i in clear_at:
                vm.call(st.clear)
                xs = []
            x = vm.real("x%d" % i) if i in free else Fraction((i * 37) % 101 - 50, 4) if vm.sym else ((i * 37) % 101 - 50) / 4
            vm.call(st.push, x)
            xs.append(x)
            if i in (n // 2, n - 1):
                judge(vm, st, xs, "after push %d" % i)
    return h


def any_clears(n):
    """Clears wherever they may be."""
    def h(vm):
        st = vm.call(vm.tuner.RunningStat)
        xs = []
        for i in range(n):
            if vm.fork(vm.bool("clear%d" % i)):
                vm.call(st.clear)
                xs = []
                judge(vm, st, xs, "after clear")
            x = vm.real("x%d" % i)
            vm.call(st.push, x)
            xs.append(x)
        judge(vm, st, xs, "at the end")
    return h


def scenarios(tier):
    out = []
    n = 4
    q = tier == "quick"
    out.append(("any clears", any_clears(4 if q else 6), {"cost": 4}))
    out.append(("300 values", long_history(300, (0, 130, 299), ()), {"cost": 4}))
    out.append(("300 values, clear", long_history(300, (39, 41, 299), (40,)), {"cost": 4}))
    if not q:
        for c in [(), (3,), (2, 5)]:
            out.append(("history n=%d clear before %s" % (7, c), stat_history(7, c), {"cost": 9}))
    for c in [(), (0,), (1,), (2,), (1, 2), (3,)]:
        out.append(("history n=%d clear before %s" % (n, c), stat_history(n, c), {}))
    return out

LEVEL_NOTE = ("Every history of up to 4 pushes (7 thorough) with real values and clears anywhere, and histories of 300 pushes in which "
              "three values are arbitrary; reals stand for floats.")
ASSUMES = ["pushed values are real numbers; float rounding is not modelled"]
BOUNDS = {"quick": "histories of 4 pushes, every clear pattern; 300 pushes", "thorough": "histories of 7 pushes; 300 pushes"}
