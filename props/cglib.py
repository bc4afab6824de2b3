"""Training loop harness: master and pricing problems with arbitrary behaviour, an arbitrary clock, and the record of what happened."""
from symvm.vals import *
from symvm.engine import Infeasible


class Duals(tuple):
    pass


class Log:
    def __init__(self):
        self.ev = []

    def add(self, *e):
        self.ev.append(e)

    def of(self, kind):
        return [e for e in self.ev if e[0] == kind]


def build(vm, shape, log, cols, max_iter, limit, is_ip, accept=None, reset=False, params=None, max_rmp=3, ip_ok=None, improve=False, content=False, calm=0, calm_improves=False):
    """shape: pricing problems per level; cols: most columns per call (a tuple: the possible numbers); calm: number of first iterations in
    which only the last pricing problem finds a column, which is accepted, and the objective improves always or never"""
    last = [(l, s) for l, k in enumerate(shape) for s in range(k)][-1]
    st = {"col": 0, "rmp": 0, "gen": 0, "ip": 0, "add": 0}

    class Master(vm.cg.BaseMasterProblem):
        def __init__(self):
            if reset:
                self.reset_timer_ = False

        def generate_mp(self, X, y):
            log.add("mp", X, y)

        def solve_rmp(self, solver_params=''):
            k = st["rmp"]
            st["rmp"] += 1
            if k >= max_rmp + calm:
                raise Infeasible
            self.d = Duals((k,))
            if reset and k >= calm and vm.bool("reset%d" % k):
                self.reset_timer_ = True
                log.add("reset", k)
            log.add("rmp", self.d, solver_params)
            return self.d

        def rmp_objective_improved(self):
            # a query: stays the same until the next solve
            k = st["rmp"] - 1
            b = calm_improves if k < calm else bool(vm.bool("improved%d" % k)) if improve else st["rmp"] % 2 == 1
            log.add("improved", b)
            return b

        def add_column(self, column):
            k = st["add"]
            st["add"] += 1
            a = True if st["rmp"] <= calm else bool(vm.bool("accept%d" % k)) if accept is None else accept(k) if callable(accept) else accept
            log.add("add", column, a)
            return a

        def solve_ip(self, solver_params=''):
            ok = True if ip_ok is None else ip_ok
            log.add("ip", solver_params, ok)
            return ok

    class Sub(vm.cg.BaseSubproblem):
        def __init__(self, l, s):
            self.l, self.s = l, s

        def update_subproblem(self, X, y, dual_costs):
            log.add("update", self.l, self.s, dual_costs, X, y)

        def generate_columns(self, X, y, dual_costs, params):
            k = st["gen"]
            st["gen"] += 1
            if st["rmp"] <= calm:
                n = int((self.l, self.s) == last)
            else:
                n = vm.one_of("ncols%d" % k, list(cols) if isinstance(cols, tuple) else list(range(cols + 1))) if cols else 0
            out = []
            for _ in range(n):
                # columns are values: different ones of an answer may be equal
                out.append([vm.bit("entry%d" % st["col"]), 7] if content else "col%d" % st["col"])
                st["col"] += 1
            log.add("gen", self.l, self.s, dual_costs, params, tuple(out), X, y)
            return out

    def clock():
        k = vm.env.count("clock")
        t = vm.hooks.get("now", 0) + (0 if st["rmp"] <= calm and calm and k else vm.real_in("dt%d" % k, 0) if limit is not None else 1)
        vm.hooks["now"] = t
        log.add("clock", t)
        return t
    vm.hooks["clock"] = clock
    vm.hooks["now"] = 0
    subs = [[Sub(l, s) for s in range(k)] for l, k in enumerate(shape)]
    if params is None:
        params = [["p%d_%d" % (l, s) for s in range(k)] for l, k in enumerate(shape)]
    kw = dict(master_problem=Master(), subproblems=subs, rmp_is_ip=is_ip, rmp_solver_params="R",
              master_ip_solver_params="I", subproblem_params=params)
    if max_iter is not None:
        kw["max_iterations"] = max_iter
    if limit is not None:
        kw["time_limit"] = limit
    clf = vm.call(vm.cg.ColGenClassifier, **kw)
    return clf, st


def iterations(log):
    """[(rmp event index, [events of the iteration])]"""
    out, cur = [], None
    for e in log.ev:
        if e[0] == "rmp":
            cur = [e]
            out.append(cur)
        elif cur is not None and e[0] != "ip":
            cur.append(e)
    return out


def training_data(vm, labels):
    import numpy as np
    n = len(labels)
    return vm.array([[vm.real("x%d" % i)] for i in range(n)], dtype=float), np.array(list(labels), dtype=object if isinstance(labels[0], str) else int)


SHAPES = [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (1, 0, 1)]
