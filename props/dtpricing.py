"""Pricing models of trees: duals, the reduced cost of a path, and reading the built models."""
from symvm.vals import *
from props.mplib import coef, isinf, num01, within
from props import mplib
from props.dtlib import *


class Duals:
    """Arbitrary duals of the tree master, in the form solve_rmp reports them."""

    def __init__(self, vm, P, tag, ncuts, new_cuts, zero_rows=(), given=None):
        if given is not None:       # given leaf duals, nothing else
            self.alpha = [given] * 2 ** P.depth
            self.beta = [0] * P.n
            self.gamma = {l: {k: {a: 0 for a in P.cands[k]} for k, _ in walk(l, P.depth)} for l in range(2 ** P.depth)}
            self.delta = [0] * ncuts
            self.tup = (list(self.alpha), list(self.beta), {l: {k: dict(g) for k, g in d.items()} for l, d in self.gamma.items()},
                        list(self.delta), [list(c) for c in new_cuts])
            return
        self.alpha = [vm.real("%s.alpha%d" % (tag, l)) for l in range(2 ** P.depth)]
        self.beta = [0 if r in zero_rows else vm.real("%s.beta%d" % (tag, r)) for r in range(P.n)]
        self.gamma = {l: {k: {a: vm.real("%s.gamma%d_%d_%d" % (tag, l, k, a)) for a in P.cands[k]} for k, _ in walk(l, P.depth)}
                      for l in range(2 ** P.depth)}
        self.delta = [vm.real("%s.delta%d" % (tag, c)) for c in range(ncuts)]
        self.tup = (list(self.alpha), list(self.beta), {l: {k: dict(g) for k, g in d.items()} for l, d in self.gamma.items()},
                    list(self.delta), [list(c) for c in new_cuts])


def cut_sides(vm, tag, k, S):
    return [[vm.bool("%s%d_%d" % (tag, c, s)) for s in range(S)] for c in range(k)]


def seq_len(items):
    return SUM([ITE(g, 1, 0) for g, _ in items] or [0])


def nth_is(items, j, pred):
    """the j-th present entry of a guarded list satisfies pred"""
    out, pos = [], 0
    for g, e in items:
        out.append(AND(g, EQ(pos, j), pred(e)))
        pos = pos + ITE(g, 1, 0)
    return OR(out or [False])


class Roles:
    """Variables of a pricing model by meaning: u[node][split], w[target], z[row], y[row], yc[cut]."""

    def __init__(self, vm, sp, names, P, leaf, ntargets, ncuts):
        byname = {}
        for i, nm in enumerate(names):
            byname.setdefault(nm, i)
        idx = lambda v: vm.concrete(v if isinstance(resolve(v), (int, SymNum)) else resolve(v)._index)
        def kept(attr, *keys):
            """where the pricing problem keeps the variable, if it does"""
            try:
                v = resolve(getattr(sp, attr))
                for k in keys:
                    v = resolve(vm.items(v)[k][1] if isinstance(k, int) and not hasattr(v, "keys") else v[k])
                return idx(v)
            except Exception:
                return None

        def role(name, attr, *keys):
            return byname[name] if name in byname else kept(attr, *keys)
        self.u = {k: {a: role("u_%d_%d" % (k, a), "u_vars_", k, a) for a in P.cands[k]} for k, _ in walk(leaf, P.depth)}
        self.w = [role("w_%d" % t, "w_vars_", t) for t in range(ntargets)]
        self.y, self.z = ({r: i for r in range(P.n) for i in [role("%s_%d" % (c, r), c + "_vars_", r)] if i is not None} for c in "yz")
        self.yc = [role("yc_%d" % c, "yc_vars_", c) for c in range(ncuts)]
        self.ok = all(v is not None for d in self.u.values() for v in d.values()) and all(v is not None for v in self.yc)


def cp_lin(cs, values):
    return SUM([v * values[i] if not isinstance(values[i], SymBool) else ITE(values[i], v, 0) for i, v in cs.items()] or [0])


def lit(l, values):
    """condition of a literal"""
    l = resolve(l)
    if hasattr(l, "_var"):
        return EQ(values[l._var._index], 0)
    return NOT(EQ(values[l._index], 0))


def cp_con_ok(con, values):
    if con.kind == "linear":
        c = within(cp_lin(resolve(con.coefs), values), con.lb, con.ub)
    else:
        ls = [lit(l, values) for l in con.lits]
        if con.kind == "and":
            c = AND(ls)
        elif con.kind == "or":
            c = OR(ls or [False])
        else:
            n = SUM([ITE(l, 1, 0) for l in ls] or [0])
            c = EQ(n, 1) if con.kind == "exactly_one" else n <= 1 if con.kind == "at_most_one" else EQ(n % 2, 1)
    for e in con.enforce:
        c = OR(NOT(lit(e, values)), c)
    return c


def cp_feasible(m, values):
    out = []
    for g, con in [(guard_of(c), val_of(c)) for c in m._cons]:
        ok = cp_con_ok(con, values)
        out.append(ok if g is True else IMPLIES(g, ok))
    for i, v in enumerate(m._vars):
        out.append(within(num(values[i]), v._lb, v._ub))
    return AND(out)


def cp_objective(m, values):
    return cp_lin(resolve(m._obj), values) + m._obj_const


class Spec:
    """Value of every path of one leaf."""

    def __init__(self, vm, P, leaf, y, targets, duals, cuts, kept, weight, fixed_target=None):
        self.vm, self.P, self.leaf, self.y, self.targets = vm, P, leaf, y, targets
        self.d, self.cuts, self.kept, self.weight, self.fixed = duals, cuts, kept, weight, fixed_target

    def follows(self, r, choice):
        return self.P.follows(r, self.leaf, choice)

    def cut_follows(self, c, choice):
        return AND([self.cuts[c][a] if left else NOT(self.cuts[c][a]) for a, left in self.P.spec(self.leaf, choice)])

    def cost(self, choice, t):
        return SUM([ITE(self.follows(r, choice), self.weight[r], 0) for r in self.kept if self.y[r] == t] or [0])

    def parts(self, choice):
        """reduced cost without the path cost and the leaf dual"""
        p = [-self.d.gamma[self.leaf][k][a] for k, a in choice.items()]
        p += [ITE(self.follows(r, choice), -self.d.beta[r], 0) for r in self.kept]
        p += [ITE(self.cut_follows(c, choice), -self.d.delta[c], 0) for c in range(len(self.cuts))]
        return SUM(p)

    def rc(self, choice, t):
        return self.cost(choice, t) + self.parts(choice) - self.d.alpha[self.leaf]

    def point(self, n, roles, choice, t):
        """the completion of a choice: every other variable has its meaning"""
        v = [0] * n
        for k, a in choice.items():
            v[roles.u[k][a]] = 1
        if self.fixed is None:
            v[roles.w[t]] = 1
        for r in self.kept:
            f = self.follows(r, choice)
            if r in roles.y:
                v[roles.y[r]] = num01(f)
            if r in roles.z:
                v[roles.z[r]] = num01(f) if self.y[r] == t else 0
        for c in range(len(self.cuts)):
            v[roles.yc[c]] = num01(self.cut_follows(c, choice))
        return v
