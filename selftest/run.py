import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import symvm.boot
import z3
from symvm import vm as V, loader as L, engine as eng, interp as itp, vals
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
import types, builtins
import numpy
from symvm import npstub


def main():
    src = L.source(os.path.join(HERE, "progs.py"))
    bad = 0
    nprog = 0
    for mode in ("interp",):
        ns = {"__builtins__": dict(vars(builtins)), "__name__": "progs"}
        exec(src.code, ns)
        ld = L.Loader()
        ld.node_for0 = ld.node_for
        cache = {}

        def node_for(code):
            if code.co_filename == src.path:
                n = src.index.get((code.co_name, code.co_firstlineno))
                return n if not isinstance(n, list) else None
            return ld.node_for0(code)
        ld.node_for = node_for
        for name, fn in list(ns.items()):
            if not name.startswith("p_"):
                continue
            ns["np"] = numpy
            if len(sys.argv) > 1 and sys.argv[1] not in name:
                continue
            nprog += 1
            want = {}
            for a, b, c in itertools.product((False, True), repeat=3):
                for i in range(4):
                    for j in range(4):
                        try:
                            r = ("ok", fn(a, b, c, i, j))
                        except Exception as e:
                            r = ("exc", type(e).__name__)
                        want[(a, b, c, i, j)] = V.digest(r, None)
            ns["np"] = npstub.numpy_proxy()
            got = {}
            leaves = []
            E = eng.Engine()

            def scen(vm):
                a, b, c = (vm.bool(x) for x in "abc")
                i, j = vm.int_in("i", 0, 3), vm.int_in("j", 0, 3)
                r, e = vm.attempt(fn, a, b, c, i, j)
                vm.result = ("exc", type(e).__name__) if e is not None else ("ok", r)
            prefix = []
            n = 0
            try:
                while prefix is not None:
                    vm, f, st, pay = V.run_path(scen, ld, E, "interp", prefix)
                    prefix = V.next_prefix(f.trail)
                    n += 1
                    if st == "infeasible":
                        continue
                    pcs = f.pc
                    for k in want:
                        sub = [(E.boolean(x).z, z3.BoolVal(v)) for x, v in zip("abc", k[:3])] + \
                              [(E.int(x).z, z3.IntVal(v)) for x, v in zip("ij", k[3:])]

                        def ev(s):
                            z = z3.simplify(z3.substitute(s.z, *sub))
                            if z3.is_bool(z):
                                assert z3.is_true(z) or z3.is_false(z), z
                                return z3.is_true(z)
                            if z3.is_int_value(z):
                                return z.as_long()
                            return Fraction(z.numerator_as_long(), z.denominator_as_long())
                        if all(ev(vals.SymBool(p)) for p in pcs):
                            got.setdefault(k, []).append(V.digest(vm.result, ev))
            except Exception as e:
                import traceback
                traceback.print_exc()
                print("FAIL", name, repr(e)); bad += 1
                continue
            except eng.Control as e:
                import traceback
                traceback.print_exc()
                print("FAIL", name, repr(e)); bad += 1
                continue
            nb = 0
            for k, w in want.items():
                g = got.get(k, [])
                if len(g) != 1 or not V.close(g[0], w):
                    nb += 1
                    if nb < 3:
                        print("DIFF", name, k, "want", w, "got", g)
            bad += nb > 0
            print("%-12s %s root paths %d region paths %d queries %d" % (name, "BAD" if nb else "ok", n, E.stats.region_paths, E.stats.queries))
    print("programs", nprog, "bad", bad)
    return bad


sys.exit(1 if main() else 0)
