#!/opt/venv/bin/python
"""python vc/run.py <property> <out.json> <tier>: discharges every obligation of the property's proofs on /repo's current source"""
import importlib, json, multiprocessing, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
REPO = os.environ.get("REPO", "/repo")
MODULES = sorted(f[:-3] for f in os.listdir(HERE) if f.startswith("p_") and f.endswith(".py"))

TRUSTED = ["the extraction of vc/load.py and the stand-ins for numpy and the builtins in vc/arrays.py (checked against CPython/numpy by the runtime part)",
           "the sum calculus of vc/sums.py and the loop rules of vc/loops.py",
           "the polynomial normaliser of vc/terms.py, z3 and cvc5",
           "axioms of exp, log, powers and round (vc/core.py, vc/arrays.py)"]
ASSUMPTIONS = ["floating point numbers are treated as real numbers, C integers as mathematical integers",
               "scipy.integrate.quad is the integral of its integrand; brentq and fsolve return a root (continuum lifetimes only)",
               "Cython's translation of the .pyx files keeps their Python semantics; malloc succeeds"]


def worker(pid, todo, idle, pending, results, n, stop, deadline):
    """takes (proof, prefix) items; explores depth first, and gives open paths away while another worker is idle.
    Once an obligation of the property is refuted, no further path is started."""
    from vc import load, proof
    runs = {}
    err = {}
    L = None
    try:
        while True:
            with idle.get_lock():
                idle.value += 1
            item = todo.get()
            with idle.get_lock():
                idle.value -= 1
            if item is None:
                break
            idx, prefix = item
            try:
                if L is None:
                    L = load.Loaded(REPO)
                if idx not in runs:
                    runs[idx] = proof.Run(proof.PROOFS[pid][idx], L)
                r = runs[idx]
                work = [prefix]
                while work:
                    prefix = work.pop()
                    if stop.value or time.time() > deadline:
                        if not stop.value and "time limit" not in r.res.unsupported:
                            r.res.unsupported.append("time limit")
                        new = []
                    else:
                        new = r.path(prefix)
                        if r.refuted(pid):
                            stop.value = 1
                    with pending.get_lock():
                        pending.value += len(new)
                    work += new
                    if work and idle.value > 0:
                        todo.put((idx, work.pop(0)))
                    with pending.get_lock():
                        pending.value -= 1
                        last = pending.value == 0
                    if last:
                        for _ in range(n):
                            todo.put(None)
            except Exception:
                err.setdefault(idx, []).append(traceback.format_exc()[-600:])
                for _ in range(n):
                    todo.put(None)
                break
    finally:
        for r in runs.values():
            r.p = r.L = r.cache = None
        results.put((runs, err))


def main():
    pid, out, tier = sys.argv[1:4]
    t0 = time.time()
    sys.path.insert(0, os.path.dirname(HERE))
    for m in MODULES:
        importlib.import_module("vc." + m)
    from vc import proof
    ps = proof.PROOFS.get(pid, [])
    limit = 420 if tier == "quick" else 6000
    parts = [[] for _ in ps]
    lost = []
    if ps:
        mp = multiprocessing.get_context("fork")
        n = int(os.environ.get("VC_JOBS", "8"))
        todo, results = mp.Queue(), mp.Queue()
        idle, pending, stop = mp.Value("i", 0), mp.Value("i", len(ps)), mp.Value("i", 0)
        for i in range(len(ps)):
            todo.put((i, []))
        procs = [mp.Process(target=worker, args=(pid, todo, idle, pending, results, n, stop, t0 + limit), daemon=True) for _ in range(n)]
        for p in procs:
            p.start()
        import queue
        for _ in procs:
            while True:
                try:
                    runs, err = results.get(timeout=1)
                    for i, r in runs.items():
                        parts[i].append(r)
                    for i, e in err.items():
                        lost.append("not in the verifier's subset: " + e[0])
                    break
                except queue.Empty:
                    if time.time() - t0 > limit + 90:
                        lost.append("time limit")
                    elif any(p.exitcode not in (None, 0) for p in procs):
                        lost.append("a worker ended early")
                    else:
                        continue
                    break
            if lost:
                break
        for p in procs:
            p.kill()
    res = [proof.summary(p, pid, parts[i]) for i, p in enumerate(ps)]
    for r in res:
        r["undecided"] += lost[:1]
    d = {"obligations": sum(r["obligations"] for r in res), "discharged": sum(r["discharged"] for r in res), "failed": [],
         "undecided": [], "functions": sorted({f for r in res for f in r["functions"]}), "trusted_base": TRUSTED, "assumptions": ASSUMPTIONS,
         "solvers": {}, "solver_seconds": 0.0, "groups": {}, "vacuity": {}, "bounded": []}
    for r in res:
        d["failed"] += r["failed"]
        if not r["reached"] and not r["undecided"] and not r["failed"]:
            r["undecided"] = ["not explored: an obligation of another proof fails" if any(x["failed"] for x in res) else "no path reaches the end: vacuous"]
        d["undecided"] += ["%s: %s" % (r["name"], u) for u in r["undecided"][:3]]
        for k in ("z3", "cvc5", "normaliser"):
            d["solvers"][k] = d["solvers"].get(k, 0) + r["stats"].get(k, 0)
        d["solver_seconds"] += r["stats"].get("solver_seconds", 0)
        d["groups"][r["name"]] = {"contract": r["contract"], "obligations": r["obligations"], "discharged": r["discharged"], "paths": r["paths"],
                                  "seconds": r["seconds"], "undecided": len(r["undecided"])}
        d["vacuity"][r["name"]] = "%d of %d paths reach the end with satisfiable facts" % (r["reached"], r["paths"])
    d["solver_seconds"] = round(d["solver_seconds"], 2)
    d["seconds"] = round(time.time() - t0, 2)
    json.dump(d, open(out, "w"), indent=1)
    print("%s: %d/%d obligations, %d failed, %d undecided, %.1f s" % (pid, d["discharged"], d["obligations"], len(d["failed"]), len(d["undecided"]), d["seconds"]))


if __name__ == "__main__":
    main()
