#!/opt/venv/bin/python
"""Decides one property of /repo's current tree:  python check.py <id>

Deductive part (vc/): every obligation generated from the current source must be discharged.
Runtime part (rt/): the same contracts evaluated on the freshly built code; replays and stands in where no obligation reaches.
Exit 0: held.  Exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found]"""
import json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLBACKEND="Agg", PYTHONPATH=HERE)
ENV.pop("LD_PRELOAD", None)

# runtime part: (share of the cases, cases per shard quick, seconds per shard quick)
RT = {"C01": (1500, 20), "C02": (1500, 20), "C03": (1500, 20), "C04": (3000, 15), "C05": (1500, 20), "C06": (3000, 15),
      "C07": (3000, 15), "C08": (4000, 15), "C09": (2000, 15), "C10": (4000, 15), "C11": (1500, 15), "C12": (700, 20),
      "C13": (700, 20), "C14": (400, 20), "C15": (250, 20), "C16": (300, 20), "C17": (300, 20), "C18": (1500, 15),
      "C19": (1500, 20), "C20": (700, 20), "C21": (1500, 20), "C22": (1500, 20), "C23": (1000, 30), "C25": (700, 20)}
SHARDS = 6


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                out.append(line.split(" ", 2)[2].strip())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    viol = []            # (replay dict, has input)
    known = {}
    cov = {"runtime": {}, "deductive": {}}
    try:
        ded = None
        if os.path.exists(os.path.join(HERE, "vc", "run.py")):
            ded_out = os.path.join(scratch, "vc.json")
            ded = subprocess.Popen([PY, os.path.join(HERE, "vc", "run.py"), pid, ded_out, tier], env=ENV, cwd=HERE,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        sys.path.insert(0, HERE)
        from rt import build
        bld = os.path.join(scratch, "ext")
        try:
            subprocess.run([PY, "-W", "ignore", "-c",
                            "import sys; from rt import build; build.build(sys.argv[1], boundscheck=sys.argv[2] == '1')", bld,
                            "1" if pid == "C20" else "0"], env=ENV, cwd=HERE, check=True, timeout=600,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            built = True
        except subprocess.CalledProcessError as e:
            built = False
            viol.append(({"property": pid, "reason": "the compiled modules do not build",
                          "output": e.stdout.decode(errors="replace")[-4000:]}, False))
        if built:
            n, secs = RT[pid]
            if tier == "thorough":
                n, secs = n * 12, secs * 15
            runtime(pid, seed, n, secs, bld, scratch, viol, known, cov)
        if ded is not None:
            try:
                out, _ = ded.communicate(timeout=700 if tier == "quick" else 7200)
            except subprocess.TimeoutExpired:
                ded.kill()
                out, _ = ded.communicate()
            try:
                d = json.load(open(ded_out))
            except Exception:
                # undecided, never a violation: the runtime part stands in
                d = {"failed": [], "undecided": ["the verifier stopped: " + out.decode(errors="replace")[-3000:]],
                     "obligations": 0, "discharged": 0}
            cov["deductive"] = d
            has_input = any(i for _, i in viol)
            if d.get("failed") or d.get("undecided"):
                if not has_input and built:
                    # look longer for a failing input
                    n, secs = RT[pid]
                    runtime(pid, seed + 1000, n * 6, secs * 2, bld, scratch, viol, known, cov)
                    has_input = any(i for _, i in viol)
                if not has_input and d.get("failed"):
                    viol.append(({"property": pid, "failed_obligations": d["failed"]}, False))
                elif has_input:
                    for v, i in viol:
                        v["failed_obligations"] = [f.get("obligation") for f in d["failed"]][:20]
    except Exception:
        viol.append(({"property": pid, "reason": "check could not complete", "output": traceback.format_exc()[-4000:]}, False))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    listed = known_findings(pid)
    for k, v in list(known.items()):
        if k not in listed:
            viol.append(({"property": pid, "case": v["case"], "message": v["message"]}, True))
        else:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
    write_evidence(pid, tier, seed, cov, viol, known, time.time() - t0)
    if viol:
        viol.sort(key=lambda v: not v[1])
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s-%d.json" % (pid, seed))
        v, has = viol[0]
        json.dump(v, open(path, "w"), indent=1)
        if "message" in v:
            print("  " + str(v["message"])[:1000])
        for f in v.get("failed_obligations", [])[:5]:
            print("  obligation not discharged: %s" % (json.dumps(f)[:600]))
        if "reason" in v:
            print("  " + v["reason"] + "\n" + v.get("output", "")[-800:])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if has else " no-failing-input-found"))
        sys.exit(1)
    r, d = cov["runtime"], cov["deductive"]
    for u in d.get("undecided", [])[:5]:
        print("  undecided (the runtime part stands in): " + u[:300])
    print("%s held: %s obligations discharged, %d runtime cases, %.1f s" % (
        pid, "%d/%d" % (d.get("discharged", 0), d.get("obligations", 0)), r.get("evaluations", 0), time.time() - t0))
    sys.exit(0)


def runtime(pid, seed, n, secs, bld, scratch, viol, known, cov):
    procs = []
    for k in range(SHARDS):
        out = os.path.join(scratch, "rt-%d-%d.json" % (seed, k))
        procs.append((out, subprocess.Popen([PY, os.path.join(HERE, "rt", "run.py"), pid, str(seed * 100 + k), str(n), str(secs),
                                             bld, out], env=ENV, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    r = cov["runtime"]
    for out, p in procs:
        o, _ = p.communicate(timeout=secs * 3 + 120)
        try:
            d = json.load(open(out))
        except Exception:
            # the process died (e.g. a crash in the compiled code): a violation whose input is the last case started
            case = None
            try:
                case = json.load(open(out + ".case"))
            except Exception:
                pass
            viol.append(({"property": pid, "case": case, "message": "the run ended with code %s: %s" % (
                p.returncode, o.decode(errors="replace")[-1500:])}, p.returncode is not None and p.returncode < 0 and case is not None))
            continue
        r["evaluations"] = r.get("evaluations", 0) + d["evaluations"]
        r["distinct"] = r.get("distinct", 0) + d["distinct"]
        r.setdefault("samples", d["samples"])
        for f in d["fails"]:
            viol.append(({"property": pid, "case": f["case"], "message": f["message"],
                          "how": "python check.py --replay <this file>"}, True))
        known.update(d["known"])


def write_evidence(pid, tier, seed, cov, viol, known, wall):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = [c["level"] for c in man["checks"] if c["property"] == pid]
    r, d = cov["runtime"], cov["deductive"]
    c = {"evaluations": r.get("evaluations", 0), "distinct_nontrivial": r.get("distinct", 0),
         "rule": "bounded stand-in, never counted as proved: seeded random cases of rt/props_*.py run on the freshly built code "
                 "against independent oracles; counted as distinct by their full input",
         "samples": r.get("samples", [])[:2]}
    if d:
        c.update({"obligations": d.get("obligations", 0), "discharged": d.get("discharged", 0),
                  "checker_cmd": "/opt/venv/bin/python vc/run.py %s out.json %s" % (pid, tier),
                  "trusted_base": d.get("trusted_base", []), "functions_under_contract": d.get("functions", []),
                  "solvers": d.get("solvers", {}), "solver_seconds": d.get("solver_seconds", 0),
                  "groups": d.get("groups", {}), "vacuity": d.get("vacuity", {}), "bounded": d.get("bounded", []),
                  "undecided": d.get("undecided", [])})
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level[0] if level else "other", "coverage": c,
               "assumptions": d.get("assumptions", []) if d else [], "wall_s": round(wall, 2), "violations": len(viol),
               "known_findings": sorted(known)}, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    if d.get("case") is None:
        print(json.dumps(d, indent=1))
        sys.exit(1)
    with tempfile.TemporaryDirectory(prefix="verif-replay-") as s:
        bld = os.path.join(s, "ext")
        subprocess.run([PY, "-W", "ignore", "-c", "import sys; from rt import build; build.build(sys.argv[1], boundscheck=sys.argv[2]=='1')",
                        bld, "1" if d["property"] == "C20" else "0"], env=ENV, cwd=HERE, check=True)
        sys.exit(subprocess.run([PY, os.path.join(HERE, "rt", "run.py"), d["property"], "0", "0", "0", bld, "-", path], env=ENV,
                                cwd=HERE).returncode)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    main()
