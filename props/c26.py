"""C26 Path equality is an equivalence that ignores node order only."""
from symvm.vals import *
from props.dtlib import *

LEVEL_NOTE = ("Decided for every pair/triple of paths with 1 to 3 nodes (4 in thorough), all fields symbolic integers "
              "(cost a real); longer paths are outside.")
ASSUMES = ["node ids within one path are pairwise different (a path lists each node of its walk once)",
           "node_ids and splits have the same length, as the class documents"]
BOUNDS = {"quick": "paths with 1..3 nodes, pairs and triples, all integers", "thorough": "1..4 nodes"}


def sym_path(vm, tag, n):
    p = vm.dt.Path()
    p.leaf_id = vm.int(tag + ".leaf")
    p.target = vm.int(tag + ".target")
    p.cost = vm.real(tag + ".cost")
    p.id = vm.int(tag + ".id")
    p.initial = vm.bool(tag + ".initial")
    p.node_ids = [vm.int("%s.node%d" % (tag, i)) for i in range(n)]
    p.splits = [vm.int("%s.split%d" % (tag, i)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            vm.assume(NOT(EQ(p.node_ids[i], p.node_ids[j])))
    return p


def spec(vm, p, q):
    c = [EQ(p.leaf_id, q.leaf_id), EQ(p.target, q.target), EQ(p.cost, q.cost)]
    if len(p.node_ids) != len(q.node_ids):
        return False
    for i in range(len(p.node_ids)):
        c.append(OR([AND(EQ(p.node_ids[i], q.node_ids[j]), EQ(p.splits[i], q.splits[j]))
                     for j in range(len(q.node_ids))]))
    return AND(c)


FIELDS = ("leaf_id", "target", "cost", "id", "initial")


def snap(p):
    return [getattr(p, f) for f in FIELDS] + list(p.node_ids) + list(p.splits)


def same(vm, p, s, what):
    t = [getattr(p, f) for f in FIELDS] + list(p.node_ids) + list(p.splits)
    vm.check(len(t) == len(s), "comparing changes the number of nodes of %s" % what)
    if len(t) == len(s):
        vm.check(AND([EQ(a, b) for a, b in zip(t, s)]), "comparing changes %s" % what)


def truth(r):
    return r if isinstance(r, (bool, SymBool)) else bool(r)


def pair(n, m):
    def h(vm):
        p, q = sym_path(vm, "p", n), sym_path(vm, "q", m)
        sp, sq = snap(p), snap(q)
        r = truth(vm.call(p.is_same_as, q))
        vm.check(IFF(r, spec(vm, p, q)), "is_same_as is equality of leaf, target, cost and node->split map")
        r2 = truth(vm.call(q.is_same_as, p))
        vm.check(IFF(r, r2), "symmetric")
        r3 = truth(vm.call(p.is_same_as, p))
        vm.check(r3, "reflexive")
        same(vm, p, sp, "the path")
        same(vm, q, sq, "the other path")
    return h


def triple(n):
    def h(vm):
        p, q, s = (sym_path(vm, t, n) for t in "pqs")
        a = truth(vm.call(p.is_same_as, q))
        b = truth(vm.call(q.is_same_as, s))
        c = truth(vm.call(p.is_same_as, s))
        vm.check(IMPLIES(AND(a, b), c), "transitive")
    return h


def scenarios(tier):
    N = 3 if tier == "quick" else 4
    out = [("pair %d %d" % (n, m), pair(n, m), {}) for n in range(1, N + 1) for m in range(1, N + 1)]
    out += [("triple %d" % n, triple(n), {}) for n in range(1, 4)]
    return out
