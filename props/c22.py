"""C22 Solving a pricing model applies the tuned parameters and scores them once."""
from symvm.vals import *
from symvm.engine import Infeasible

LEVEL_NOTE = ("Decided for 1-3 consecutive solves through the base class (2 in quick) with arbitrary status, objective, bound, "
              "wall time, time limit and random draws, from the initial tuner state and from states with earlier scores, and for 3-4 solves that "
              "alternate between two pricing models. Long or large cases, with a few arbitrary values: 70 given solves before the arbitrary one.")
ASSUMES = ["CpSolver.Solve reports one of the five documented statuses, a wall time >= 0, any objective and bound",
           "when only feasible, objective and bound are not both zero (the relative gap is undefined there)",
           "time limit is positive"]
BOUNDS = {"quick": "2 solves, initial tuner state or 4 earlier scores per value; 70 given solves before the arbitrary one", "thorough": "3 solves"}

STATUS = {"UNKNOWN": 0, "MODEL_INVALID": 1, "FEASIBLE": 2, "INFEASIBLE": 3, "OPTIMAL": 4}


def absv(v):
    return ITE(v >= 0, v, -v) if isinstance(v, SYM) else abs(v)


def run(k, seasoned, cb, first=0):
    """first: earlier solves with given outcomes"""
    def h(vm):
        sp = vm.call(vm.cg.BaseSubproblem)
        names = sorted(sp.tunable_params_)
        vm.check(len(names) > 0, "there are tuned parameters")
        if seasoned:
            for nm in names:
                p = sp.tunable_params_[nm]
                vm.call(p.set_explore_count, 0)
                for i in range(len(p.values_)):
                    for j in range(4):
                        vm.call(p.adjust_score, -(i + 1) - (4 if j == 3 else 0), i)
        for t in range(first):
            vm.hooks["cp_solve"] = lambda solver, m, c: (STATUS["OPTIMAL"], [], {}, 1, 1, 4)
            vm.hooks["draw_int"] = lambda key, a, b: a + (t * 3 + 1) % (b - a + 1)
            vm.hooks["pick"] = lambda seq: seq[(t * 3 + 1) % len(seq)]
            vm.call(sp.solve_model, vm.cp_model.CpModel(), 8)
            vm.check(len(sp.solve_times_) == t + 1 and len(sp.gaps_) == t + 1, "one solve time and gap is recorded per solve")
        for hk in ("draw_int", "pick"):
            vm.hooks.pop(hk, None)
        for t in range(first, first + k):
            model = vm.cp_model.CpModel()
            callback = vm.cp_model.CpSolverSolutionCallback() if cb else None
            status = vm.one_of("status%d" % t, ["OPTIMAL", "FEASIBLE", "INFEASIBLE", "UNKNOWN", "MODEL_INVALID"])
            obj, bound = vm.real("objective%d" % t), vm.real("bound%d" % t)
            wall = vm.real_in("wall%d" % t, 0)
            limit = vm.real_in("limit%d" % t, Fraction(1, 16) if vm.sym else None)
            if status == "FEASIBLE":
                vm.assume(OR(NOT(EQ(obj, 0)), NOT(EQ(bound, 0))))
            calls = []

            def solve(solver, m, c):
                calls.append((m, c, getattr(solver.parameters, "max_time_in_seconds", None),
                              {nm: getattr(solver.parameters, nm, None) for nm in names}))
                return STATUS[status], [], {}, obj, bound, wall
            vm.hooks["cp_solve"] = solve
            before = {nm: [(c, SUM_of(vm, s, c)) for c, s in zip(sp.tunable_params_[nm].counts_,
                                                                 sp.tunable_params_[nm].scores_)] for nm in names}
            if callback is None:
                vm.split(sp.solve_model, model, limit)
            else:
                vm.split(sp.solve_model, model, limit, callback)
            vm.check(len(calls) == 1, "the model is solved once")
            if len(calls) != 1:
                raise Infeasible
            m, c, lim, applied = calls[0]
            vm.check(m is model, "the given model is solved")
            vm.check(c is callback, "the given callback is used")
            vm.check(vm.eq(lim, limit), "the given time limit is used")
            if status == "OPTIMAL":
                ts, gs = wall / limit, 0
            elif status == "FEASIBLE":
                a, b = absv(obj), absv(bound)
                big = ITE(a >= b, a, b)
                ts = 1
                gs = ITE(obj * bound >= 0, absv(obj - bound) / big, 1)
            else:
                ts, gs = 1, 1
            score = -(ts + gs)
            vm.check(len(sp.solve_times_) == t + 1, "one solve time is recorded per solve")
            vm.check(vm.eq(sp.solve_times_[-1], wall), "the measured time is recorded")
            vm.check(len(sp.gaps_) == t + 1, "one gap is recorded per solve")
            vm.check(vm.eq(sp.gaps_[-1], gs), "the gap is recorded")
            for nm in names:
                p = sp.tunable_params_[nm]
                used = vm.concrete(applied[nm]) if applied[nm] is not None else None
                vm.check(used in p.values_, "a registered value of %s is applied" % nm)
                for i, v in enumerate(p.values_):
                    c0, s0 = before[nm][i]
                    c1 = p.counts_[i]
                    if v == used:
                        vm.check(vm.eq(c1, c0 + 1), "the applied value of %s is scored once" % nm)
                        vm.check(vm.eq(SUM_of(vm, p.scores_[i], c0 + 1), s0 + score), "the score of %s" % nm)
                    else:
                        vm.check(vm.eq(c1, c0), "other values of %s are not scored" % nm)
                        vm.check(vm.eq(SUM_of(vm, p.scores_[i], c0), s0), "scores of other values of %s are kept" % nm)
    return h


def two_models(k):
    """Solves through two pricing models in turn: the tuner of one sees only its own solves."""
    def h(vm):
        sps = [vm.call(vm.cg.BaseSubproblem) for _ in range(2)]
        names = sorted(sps[0].tunable_params_)
        wrong = {nm: [0, 0] for nm in names}
        for t in range(k):
            w = t % 2
            before = [tuner_state(vm, sp, names) for sp in sps]
            wall = vm.real_in("wall%d" % t, 0)
            vm.hooks["cp_solve"] = lambda solver, m, c: (STATUS["OPTIMAL"], [], {}, 1, 1, wall)
            vm.split(sps[w].solve_model, vm.cp_model.CpModel(), 8)
            for nm in names:
                own = [c1 - c0 for (c1, _), (c0, _) in zip(tuner_state(vm, sps[w], [nm])[nm], before[w][nm])]
                vm.check(EQ(SUM(own), 1), "one value of %s is scored by a solve" % nm)
                for (c1, n1), (c0, n0) in zip(tuner_state(vm, sps[1 - w], [nm])[nm], before[1 - w][nm]):
                    vm.check(AND(vm.eq(c1, c0), vm.eq(n1, n0)), "a solve of one pricing model scores nothing for another (%s)" % nm)
            vm.check(len(sps[w].solve_times_) == t // 2 + 1 and len(sps[1 - w].solve_times_) == (t + 1) // 2,
                     "times are recorded for the model that was solved")
    return h


def tuner_state(vm, sp, names):
    return {nm: list(zip(sp.tunable_params_[nm].counts_, [vm.call(s.num_data_values) for s in sp.tunable_params_[nm].scores_]))
            for nm in names}


def SUM_of(vm, stat, n):
    return vm.call(stat.mean) * n


def scenarios(tier):
    k = 2 if tier == "quick" else 3
    out = []
    for cb in (False, True):
        out.append(("solve %d callback %s" % (1, cb), run(1, False, cb), {}))
        out.append(("solve after 70 callback %s" % cb, run(1, False, cb, 70), {"cost": 10}))
        out.append(("solve seasoned callback %s" % cb, run(1, True, cb), {}))
    out.append(("solve %d" % k, run(k, False, True), {"cost": 9}))
    out.append(("solve seasoned 2", run(2, True, False), {"cost": 5}))
    out.append(("two pricing models", two_models(3 if tier == "quick" else 4), {"cost": 6}))
    return out
