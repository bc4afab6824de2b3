"""C21 The parameter tuner explores, then exploits the best-scoring values."""
from symvm.vals import *
from symvm.engine import Infeasible

LEVEL_NOTE = ("Decided for 1-4 registered values, histories of up to 6 scored choices with arbitrary real scores and bonus, "
              "values registered after the first scores, every outcome of the random draws, every switch flag in 0..15 and exploration counts 0..10; the exploitation "
              "rule for two and three values whose score samples are arbitrary in mean and deviation. Long or large cases, with a few arbitrary values: 24-70 scores per value and 12 values.")
ASSUMES = ["random.Random().randrange(n)/choice return any value of their range", "scores are real numbers"]
BOUNDS = {"quick": "values<=3, history<=5 choices; 24-70 scores per value and 12 values", "thorough": "values<=4, history<=6 choices"}


class Model:
    """Specification state: the scores each value received."""

    def __init__(self, m, c):
        self.m = m
        self.c = c
        self.got = [[] for _ in range(m)]

    def mean(self, i):
        return SUM(self.got[i]) / len(self.got[i])

    def final(self, i):
        return self.mean(i) + self.c / len(self.got[i])

    def var(self, i):
        mu = self.mean(i)
        return SUM([(x - mu) * (x - mu) for x in self.got[i]]) / (len(self.got[i]) - 1)


def judge(vm, p, mod):
    tot = 0
    for i in range(mod.m):
        n = len(mod.got[i])
        tot += n
        vm.check(vm.eq(p.counts_[i], n), "count of value %d" % i)
        vm.check(vm.eq(vm.call(p.scores_[i].num_data_values), n), "number of scores of value %d" % i)
        if n:
            vm.check(vm.eq(vm.call(p.scores_[i].mean), mod.mean(i)), "mean score of value %d" % i)
            vm.check(vm.eq(p.final_scores_[i], mod.final(i)), "final score is the mean plus bonus divided by the count")
    vm.check(vm.eq(p.total_counts_, tot), "total count is the sum of the counts")


def make(vm, m, explore, flag):
    c = vm.real("bonus")
    p = vm.call(vm.tuner.Parameter, c, "p", 7)
    vals_ = [100 + 7 * i for i in range(m)]
    for v in vals_:
        vm.call(p.add_value, v)
    if explore is not None:
        vm.call(p.set_explore_count, explore)
    if flag is not None:
        vm.call(p.set_switch_flag, flag)
    return p, vals_, Model(m, c)


def choose(vm, p, values, remaining, flag):
    """get_best_value; returns (index chosen, number of alternatives drawn from)."""
    drawn = []

    def draw(k, a, b):
        n = vm.env.count("mydraw")
        drawn.append(b - a + 1)
        return a if a == b else vm.concrete(vm.int_in("draw!%d" % n, a, b))

    def pick(seq):
        return seq[draw(0, 0, len(seq) - 1)]
    vm.hooks["draw_int"] = draw
    vm.hooks["pick"] = pick
    v = vm.concrete(vm.split(p.get_best_value))
    ok = v in values
    vm.check(ok, "only registered values are returned")
    if not ok:
        raise Infeasible
    return values.index(v), drawn


def step(vm, p, values, mod, remaining, flag, when):
    fs_ok = [len(g) > 0 for g in mod.got]
    i, drawn = choose(vm, p, values, remaining, flag)
    m = mod.m
    if remaining > 0:
        if m == 2:
            vm.check(i == (1 if flag & remaining else 0), "two-valued exploration follows the switch bits (%s)" % when)
        else:
            vm.check(max(drawn or [1]) == m, "exploration draws among all values (%s)" % when)
    else:
        few = [k for k in range(m) if len(mod.got[k]) < 4]
        if few:
            vm.check(i in few, "values tried fewer than four times come first (%s)" % when)
        else:
            best_reached = AND([OR([reach(vm, mod, i, k)]) for k in range(m)])
            vm.check(best_reached, "only values whose score plus a tenth of its deviation reaches the best (%s)" % when)
    return i


def reach(vm, mod, i, k):
    """final_i + std_i/10 >= final_k, without square roots."""
    d = mod.final(k) - mod.final(i)
    v = mod.var(i)
    if not vm.sym:
        return d <= (float(v) ** 0.5) / 10 + 1e-9
    return OR(d <= 0, d * d * 100 <= v)


def history(m, explore, k, pre=()):
    def h(vm):
        flag = vm.concrete(vm.int_in("flag", 0, 15)) if m == 2 else None
        p, values, mod = make(vm, m, explore, flag)
        n = 0
        for i in pre:
            s = vm.real("pre%d" % n)
            n += 1
            vm.call(p.adjust_score, s, i)
            mod.got[i].append(s)
        judge(vm, p, mod)
        left = explore
        for t in range(k):
            i = step(vm, p, values, mod, left, flag, "choice %d" % t)
            left = max(0, left - 1)
            s = vm.real("s%d" % t)
            if m > 1 and t % 2 and vm.bool("named%d" % t):
                j = vm.concrete(vm.int_in("index%d" % t, 0, m - 1))
                vm.call(p.adjust_score, s, j)
                mod.got[j].append(s)
            else:
                vm.call(p.adjust_score, s)
                mod.got[i].append(s)
            judge(vm, p, mod)
    return h


def late_value(m, explore, k):
    """A value registered after scores came in: it starts without scores, the others keep theirs."""
    def h(vm):
        p, values, mod = make(vm, m, explore, None)
        n = 0
        for i in range(m):
            for j in range(4):
                s = vm.real("pre%d" % n) if j == 0 else n
                n += 1
                vm.call(p.adjust_score, s, i)
                mod.got[i].append(s)
        left = explore
        for t in range(k):
            if t == 1:
                vm.call(p.add_value, 55)
                values = values + [55]
                mod.m += 1
                mod.got.append([])
                judge(vm, p, mod)
            i = step(vm, p, values, mod, left, 1, "choice %d" % t)
            left = max(0, left - 1)
            s = vm.real("s%d" % t)
            vm.call(p.adjust_score, s)
            mod.got[i].append(s)
            judge(vm, p, mod)
    return h


def default_pattern(k):
    def h(vm):
        p, values, mod = make(vm, 2, None, None)
        flag = 1
        for t in range(k):
            left = max(0, 10 - t)
            i = step(vm, p, values, mod, left, flag, "default call %d" % t)
            s = vm.real("s%d" % t) if t in (2, 5) else (t * 7) % 5
            vm.call(p.adjust_score, s)
            mod.got[i].append(s)
        judge(vm, p, mod)
    return h


def switch_bits(explore):
    def h(vm):
        flag = vm.concrete(vm.int_in("flag", 0, 15))
        p, values, mod = make(vm, 2, explore, flag)
        for t in range(explore):
            step(vm, p, values, mod, explore - t, flag, "call %d" % t)
    return h


def exploit(m, counts, rounds=1):
    def h(vm):
        p, values, mod = make(vm, m, 0, None)
        for i in range(m):
            s, d = vm.real("s%d" % i), vm.real("d%d" % i)
            if counts[i] == 5:      # mean s, deviation |d|
                xs = [s + d, s - d, s + d, s - d, s]
            else:                   # mean s, deviation 2|d|
                xs = [s + 3 * d, s - d, s - d, s - d]
            for x in xs:
                vm.call(p.adjust_score, x, i)
                mod.got[i].append(x)
        judge(vm, p, mod)
        for r in range(rounds):
            i = step(vm, p, values, mod, 0, None, "exploit %d" % r)
            s = vm.real("e%d" % r)
            vm.call(p.adjust_score, s)
            mod.got[i].append(s)
            judge(vm, p, mod)
    return h


def long_history(m, k, last, arb):
    """k scores for every value, one of them arbitrary for the first `arb` values, then arbitrary ones."""
    def h(vm):
        p, values, mod = make(vm, m, 0, None)
        for j in range(k):
            for i in range(m):
                s = vm.real("given%d" % i) if j == k // 2 and i < arb else i - 3
                vm.call(p.adjust_score, s, i)
                mod.got[i].append(s)
        judge(vm, p, mod)
        for t in range(last):
            i = step(vm, p, values, mod, 0, None, "choice %d" % t)
            s = vm.real("s%d" % t)
            vm.call(p.adjust_score, s)
            mod.got[i].append(s)
            judge(vm, p, mod)
    return h


def scenarios(tier):
    q = tier == "quick"
    out = []
    for m in (1, 2, 3) if q else (1, 2, 3, 4):
        for e in (0, 2):
            out.append(("history m=%d explore=%d" % (m, e), history(m, e, 3 if m > 1 else 5), {"cost": m}))
        out.append(("history m=%d few tries" % m, history(m, 1, 3, pre=[0, 0, 0] + [m - 1] * 2), {"cost": m}))
    out.append(("default exploration", default_pattern(12), {}))
    out.append(("switch bits 10", switch_bits(10), {}))
    out.append(("switch bits 15", switch_bits(15), {}))
    for m in (1, 2, 3):
        out.append(("value added late m=%d" % m, late_value(m, 0 if m > 1 else 2, 3 if m > 1 else 4), {"cost": 5}))
    out.append(("exploit 2", exploit(2, (5, 4)), {"cost": 5}))
    out.append(("exploit 2b", exploit(2, (4, 4)), {"cost": 5}))
    out.append(("exploit 3", exploit(3, (5, 4, 5)), {"cost": 9}))
    for m in (2, 3):
        out.append(("after %d scores m=%d" % (70 * m, m), long_history(m, 70, 1, m - 1), {"cost": 9}))
    out.append(("after 280 scores m=12", long_history(12, 24, 1, 0), {"cost": 9}))
    if not q:
        out.append(("exploit 2 twice", exploit(2, (5, 5), 2), {"cost": 9}))
        out.append(("exploit 4", exploit(4, (5, 4, 5, 4)), {"cost": 9}))
        out.append(("history m=2 long", history(2, 1, 5), {"cost": 9}))
        out.append(("history m=3 long", history(3, 1, 4), {"cost": 9}))
    return out
