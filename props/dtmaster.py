"""The published tree master over a set of paths, and reading the built one."""
from symvm.vals import *
from props.mplib import *
from props.dtlib import *


def pick_paths(P, which):
    """Paths by (leaf, index of choice), with split ids; which: list of (leaf, k)"""
    out = []
    for l, k in which:
        cs = P.choices(l)
        out.append((l, cs[k % len(cs)]))
    return out


def all_paths(P):
    return [(l, c) for l in range(2 ** P.depth) for c in P.choices(l)]


def alpha(P, specs, x):
    """Exactly one path per leaf."""
    return AND([EQ(SUM([v for (l, c), v in zip(specs, x) if l == leaf] or [0]), 1) for leaf in range(2 ** P.depth)])


def gamma(P, specs, x):
    """Every leaf below a node uses the node's splits equally."""
    out = []
    for k in range(P.n_nodes):
        ls = [l for l in range(2 ** P.depth) if k in dict(walk(l, P.depth))]
        for a in P.cands[k]:
            sums = [SUM([v for (l, c), v in zip(specs, x) if l == leaf and c[k] == a] or [0]) for leaf in ls]
            out += [EQ(sums[0], s) for s in sums[1:]]
    return AND(out)


def row_sum(P, specs, x, r):
    return SUM([ITE(P.follows(r, l, c), v, 0) for (l, c), v in zip(specs, x)] or [0])


def beta(P, specs, x, rows):
    """rows: row -> condition under which its constraint is there"""
    return AND([IMPLIES(g, row_sum(P, specs, x, r) <= 1) for r, g in rows.items()])


def nonneg(x):
    return AND([v >= 0 for v in x])


def complete(s, known):
    """Values of all variables from those of the path variables: every other
    variable is solved for from an equality row in which it is the only unknown."""
    vals = dict(known)
    n = len(s._vars)
    progress = True
    while progress and len(vals) < n:
        progress = False
        for g, con in rows(s):
            if g is not True or isinf(con._lb) or isinf(con._ub) or con._lb != con._ub:
                continue
            cs = resolve(con._coefs)
            open_ = [i for i in cs if i not in vals]
            if len(open_) != 1:
                continue
            i = open_[0]
            ci = coef(cs, i)
            if isinstance(ci, SYM) or ci == 0:
                continue
            rest = SUM([coef(cs, j) * vals[j] for j in cs if j != i] or [0])
            num = con._lb - rest
            vals[i] = -num if ci == -1 else num if ci == 1 else num * (1 / ci)
            progress = True
    return [vals.get(i, 0) for i in range(n)]


def reach_leaves(P, r):
    """leaf -> condition: the row reaches the leaf with some choice of candidate splits"""
    out = {}
    for leaf in range(2 ** P.depth):
        out[leaf] = AND([OR([P.side[r][a] if left else NOT(P.side[r][a]) for a in P.cands[k]] or [False])
                         for k, left in walk(leaf, P.depth)])
    return out


def few_leaves(P, r):
    return SUM([ITE(g, 1, 0) for g in reach_leaves(P, r).values()]) <= 2


def build(vm, P, specs, costs, targets, y, rows=None, lazy=False, cuts=False, rounds=0):
    paths = [P.path(l, c, t, k) for (l, c), t, k in zip(specs, targets, costs)]
    mp = vm.call(vm.dt.DTreeMasterProblem, list(paths), P.leaves, P.nodes, P.splits, beta_constraints_as_cuts=lazy,
                 generate_cuts=cuts, num_cuts_round=rounds, data_rows=rows)
    import numpy as np
    Y = np.array(list(y))
    vm.call(mp.generate_mp, P.X, Y)
    return mp, paths, Y


def data_rows(vm, n, removed=None, sp=None, weight=None):
    out = []
    for r in range(n):
        row = vm.dt.Row()
        row.id = r
        row.removed_from_master = removed[r] if removed else False
        row.removed_from_sp = sp[r] if sp else False
        row.weight = weight[r] if weight else 1
        out.append(row)
    return out


def path_ids(vm, mp, paths):
    ids = [vm.concrete(p.id) for p in paths]
    ok = len(set(ids)) == len(ids) and all(isinstance(i, int) and 0 <= i < len(mp.solver_._vars) for i in ids)
    vm.check(ok, "every path has its own variable")
    return ids if ok else None
