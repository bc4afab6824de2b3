"""Shared parts of the boolean decision rule harnesses."""
import itertools
from symvm.vals import *
from symvm.engine import Infeasible
from props.mplib import *


def data(vm, n, m, y, tag="x", free=None):
    """free: (rows, columns) that are symbolic in a large data set, the others follow a pattern"""
    def bit(i, j):
        if free is None or i in free[0] and j in free[1]:
            return vm.bit("%s%d_%d" % (tag, i, j))
        return int((7 * i + 3 * j + i * j + i // 5) % 11 < 8)
    xs = [[bit(i, j) for j in range(m)] for i in range(n)]
    return xs, vm.array(xs, dtype=float), vm.array(list(y), dtype=int) if not vm.sym else labels(vm, y)


def labels(vm, y):
    import numpy as np
    return np.array(list(y))


def sat(x_row, clause):
    """The sample satisfies the clause."""
    return AND([EQ(x_row[j], 1) for j in clause])


def clauses(m, lo, hi):
    return [list(c) for k in range(lo, hi + 1) for c in itertools.combinations(range(m), k)]


def reduced_cost(xs, y, cc, mus, clause):
    """Published reduced cost: lambda*c_k + negatives satisfied - duals of positives satisfied."""
    t = [cc * (1 + len(clause))]
    k = 0
    for i, t_i in enumerate(y):
        s = sat(xs[i], clause)
        if t_i == 1:
            t.append(ITE(s, -mus[k], 0))
            k += 1
        else:
            t.append(ITE(s, 1, 0))
    return SUM(t)


def duals(vm, y, tag):
    cc = vm.real_in(tag + ".lambda", 0)
    mus = [vm.real_in("%s.mu%d" % (tag, i), 0) for i in range(sum(y))]
    return cc, mus


def ys(n, need_both=True):
    out = []
    for y in itertools.product((0, 1), repeat=n):
        if need_both and len(set(y)) < 2:
            continue
        out.append(y)
    return out

# the documented threshold, as the number the code's literal denotes
EPS = -1e-6
