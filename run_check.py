#!/usr/bin/env python3
"""Decide one property: run_check.py ID [--tier quick|thorough] [--replay FILE]

Exit 0  every obligation of every scenario was discharged by the solver
        (or is a listed known finding)
Exit 1  a VIOLATION line: a solver counterexample that the real code reproduces
Exit 2  no verdict (budget, unsupported construct, unconfirmed counterexample)
"""
import argparse
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

LEVEL = "model_checking"


def run_one(h, name, opts, tier, conn, deadline):
    from symvm import vm
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    budget = min(opts.get("budget", 240 if tier == "quick" else 3000), max(5.0, deadline - time.time()))
    kw = dict(max_witness=opts.get("witness", 4 if tier == "quick" else 12),
              query_timeout=opts.get("query_timeout", 60000 if tier == "quick" else 600000))
    first = None
    try:
        mode = opts.get("mode", "interp")
        r = vm.explore(h, name, budget=budget, mode=mode, **kw)
        if mode == "interp" and r.error and not r.error.startswith("budget") and not r.violations \
                and not opts.get("nofork"):
            first = r.error
            left = min(budget, deadline - time.time())
            r2 = vm.explore(h, name, budget=max(5.0, left), mode="fork", **kw)
            if r2.complete or r2.violations:
                r = r2
            else:
                r.error = "%s; path-by-path: %s" % (r.error, r2.error)
        d = dict(vars(r))
        d["interp_error"] = first
        d["reach"] = opts.get("reach")
        conn.send(d)
    except MemoryError:
        conn.send({"name": name, "error": "budget: memory", "complete": False})
    except BaseException as e:
        conn.send({"name": name, "error": "driver: %s: %s" % (type(e).__name__, e), "complete": False,
                   "traceback": traceback.format_exc()})
    conn.close()
    os._exit(0)


def run_all(scs, tier, total, jobs=8, stop_on_violation=True):
    ctx = multiprocessing.get_context("fork")
    deadline = time.time() + total
    todo = sorted(range(len(scs)), key=lambda i: -scs[i][2].get("cost", 1))
    running = {}
    results = {}
    violated = None
    again = set()
    while todo or running:
        while todo and len(running) < jobs and not violated:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_one, args=(scs[i][1], scs[i][0], scs[i][2], tier, b, deadline))
            p.start()
            b.close()
            running[i] = (p, a)
        if violated and todo:
            todo = []
        for i, (p, a) in list(running.items()):
            d = None
            ended = not p.is_alive()        # looked at first: it may send and end in between
            if a.poll(0):
                try:
                    d = a.recv()
                except EOFError:
                    d = {"name": scs[i][0], "error": "worker died", "complete": False}
            elif ended:
                d = {"name": scs[i][0], "error": "worker died", "complete": False}
            elif time.time() > deadline + 15 or (violated and time.time() > violated + 5):
                p.kill()
                d = {"name": scs[i][0], "error": "budget: overall time", "complete": False}
            if d is not None:
                results[i] = d
                p.join(2)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[i]
                if d.get("error") == "worker died" and i not in again:
                    again.add(i)
                    todo.insert(0, i)
                    continue
                if d.get("violations") and stop_on_violation and not violated:
                    violated = time.time()
        time.sleep(0.01)
    return [results[i] for i in sorted(results)]


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def do_replay(mod, path):
    from symvm import vm, loader
    from fractions import Fraction
    d = json.load(open(path))
    for tier in ("quick", "thorough"):
        for name, h, opts in mod.scenarios(tier):
            if name == d["scenario"]:
                asg = {}
                for k, v in d["assignment"].items():
                    asg[k] = v == "True" if v in ("True", "False") else (
                        Fraction(v) if "/" in v or d.get("kinds", {}).get(k) == "real" else int(v))
                for exact in (d.get("exact", False), True):
                    fails, _ = vm.replay(h, loader.Loader(), asg, exact)
                    if fails:
                        print("replayed on the real code, scenario %s:" % name)
                        for f in fails:
                            print("  broken:", f)
                        print("VIOLATION property=%s replay=%s" % (d["property"], path))
                        return 1
                print("not reproduced")
                return 0
    print("scenario not found")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id.upper()
    import symvm.boot  # noqa
    from symvm import loader
    import sklearn.base, sklearn.utils.validation, sklearn.utils.multiclass, sklearn.preprocessing  # noqa
    import sklearn.tree, sklearn.model_selection  # noqa
    try:
        mod = importlib.import_module("props." + pid.lower())
    except Exception:
        traceback.print_exc()
        return 2
    if a.replay:
        return do_replay(mod, a.replay)
    scs = [s if len(s) == 3 else (s[0], s[1], {}) for s in mod.scenarios(a.tier)]
    if a.only:
        scs = [s for s in scs if a.only in s[0]]
    total = 780 if a.tier == "quick" else 10000
    try:
        loader.Loader().fresh(None, False)
        for f in ("_bdr_classifier", "_col_gen_classifier", "_dtree_classifier", "_parameter_tuner"):
            loader.source(os.path.join(loader.REPO, "col_gen_estimator", f + ".py"))
    except SyntaxError as e:
        print("the code under test does not parse:", e)
        return 2
    res = run_all(scs, a.tier, total, a.jobs)
    viol = [v for r in res for v in r.get("violations", [])]
    unconf = [v for r in res for v in r.get("unconfirmed", [])]
    unknown = [(r["name"], u) for r in res for u in r.get("unknown", [])]
    undecided = [(r["name"], r.get("error")) for r in res if not r.get("complete") and not r.get("violations")]
    mism = [(r["name"], m) for r in res for m in r.get("mismatches", [])]
    vacuous = [r["name"] for r in res if r.get("complete") and r.get("checks", 0) == 0]
    if a.v:
        for r in res:
            st = r.get("stats") or {}
            print("%-50s %s paths %s rp %s q %s st %.2f t %.2f wit %s checks %s err %s %s" % (
                r["name"], r.get("mode"), r.get("paths"), st.get("region_paths"), st.get("queries"),
                st.get("solver_time", 0), r.get("time", 0), r.get("witnesses"), r.get("checks"), r.get("error"),
                r.get("interp_error") or ""))
            if r.get("traceback"):
                print(r["traceback"])
    known = known_findings(pid)
    shown = set()
    new = []
    for v in viol:
        for key, text in known:
            if key in v["scenario"] + " | " + v["obligation"] + " | " + "; ".join(v["observed"]):
                if key not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (pid, text or key))
                    shown.add(key)
                break
        else:
            new.append(v)
    functions = {}
    for r in res:
        for k, n in (r.get("functions") or {}).items():
            functions[k] = functions.get(k, 0) + n
    st = [r.get("stats") or {} for r in res]

    def tot(k):
        return sum(s.get(k, 0) for s in st)
    code = 0
    if new:
        code = 1
    elif unconf or unknown or undecided or vacuous or not res:
        code = 2
    samples = []
    for r in res:
        if r.get("sample") is not None and len(samples) < 5:
            samples.append({"scenario": r["name"], "witness_inputs": r["sample"]})
    for v in viol[:5]:
        samples.insert(0, {"counterexample": v})
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": LEVEL,
        "coverage": {
            "technique": "symbolic execution of the source of /repo, obligations decided by Z3",
            "states": sum(r.get("paths", 0) for r in res),
            "transitions": int(tot("region_paths") + tot("decisions")),
            "traces_validated_against_impl": sum(r.get("witnesses", 0) for r in res)
            - len(mism) + len(viol),
            "states_are": "feasible root paths; every decision inside a region is merged into symbolic values",
            "transitions_are": "region paths executed plus branch decisions taken",
            "obligations": sum(r.get("checks", 0) for r in res),
            "scenarios": [{"name": r["name"], "complete": bool(r.get("complete")), "mode": r.get("mode"),
                           "paths": r.get("paths", 0), "obligations": r.get("checks", 0),
                           "queries": (r.get("stats") or {}).get("queries", 0),
                           "solver_s": round((r.get("stats") or {}).get("solver_time", 0), 3),
                           "wall_s": round(r.get("time", 0) or 0, 2), "error": r.get("error"),
                           "interpreter_fallback": r.get("interp_error")} for r in res],
            "functions_encoded": functions,
            "queries": tot("queries"),
            "solver_time_s": round(tot("solver_time"), 3),
            "solver_unknown": tot("unknown"),
            "merges": tot("merges"),
            "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, getattr(mod, "BOUNDS", {})),
            "outside": getattr(mod, "OUTSIDE", ""),
            "witness_mismatches": [list(m) for m in mism][:10],
            "undecided": [list(u) for u in undecided][:20],
            "exhaustive": code == 0,
            "samples": samples or ["none"],
        },
        "assumptions": list(getattr(mod, "ASSUMES", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n, m in mism[:5]:
        print("note: witness mismatch in %s: %s" % (n, m))
    for u in undecided[:10]:
        print("undecided: %s: %s" % u)
    for u in unknown[:10]:
        print("solver gave up: %s: %s" % u)
    for u in unconf[:5]:
        print("counterexample not reproduced: %s" % u)
    for u in vacuous:
        print("no obligation reached: %s" % u)
    if new:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for k, v in enumerate(new[:3]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, k))
            v = dict(v)
            v["property"] = pid
            v["how"] = "python run_check.py %s --replay %s" % (pid, path)
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("in scenario %s: %s" % (v["scenario"], v["obligation"]))
            for o in v["observed"]:
                print("   real code:", o)
            print("VIOLATION property=%s replay=%s" % (pid, path))
    n = sum(r.get("checks", 0) for r in res)
    print("%s %s: %d scenarios, %d paths, %d obligations, %d queries, solver %.1fs, wall %.1fs -> %s" % (
        pid, a.tier, len(res), ev["coverage"]["states"], n, ev["coverage"]["queries"],
        ev["coverage"]["solver_time_s"], ev["wall_s"], {0: "holds", 1: "VIOLATED", 2: "no verdict"}[code]))
    return code


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
