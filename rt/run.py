"""Runs one property's runtime contracts: python run.py <id> <seed> <count> <seconds> <build folder> <out.json> [replay file]"""
import json, os, sys, time, traceback, warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def props():
    from rt import props_traps as a, props_readout as b
    out = {}
    for m in (a, b):
        for k in dir(m):
            if len(k) == 3 and k[0] == "C" and k[1:].isdigit():
                out[k] = getattr(m, k)
    return out


def judge(check, case):
    try:
        return check(case)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "/arcticpy/" in f.filename or f.filename.endswith(".pyx")]
        if isinstance(e, MemoryError):
            raise
        where = "%s:%d" % (os.path.basename(last[-1].filename), last[-1].lineno) if last else "outside arcticpy"
        return "raised %s: %s (%s)" % (type(e).__name__, e, where)


def shrink(check, case, msg, seconds=5):
    """drop updates / rows where the case still fails (best effort)"""
    end = time.time() + seconds
    for key in ("updates", "ops"):
        if key in case:
            k = len(case[key]) - 1
            while k >= 0 and time.time() < end:
                c = json.loads(json.dumps(case))
                del c[key][k]
                m = judge(check, c)
                if m and m.split(":")[0].startswith("raised") == msg.startswith("raised"):
                    case, msg = c, m
                k -= 1
    return case, msg


def main():
    pid, seed, count, seconds, folder, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5], sys.argv[6]
    warnings.filterwarnings("ignore")
    from rt import build
    build.activate(folder)
    import numpy as np
    np.seterr(all="ignore")
    g, check, *rest = props()[pid]
    knownf = rest[0] if rest else (lambda case: None)
    known = {}
    if len(sys.argv) > 7:
        case = json.load(open(sys.argv[7]))["case"]
        m = judge(check, case)
        print("REPLAY", "fails: " + m if m else "passes")
        sys.exit(1 if m else 0)
    t0, n, bad, seen, samples, fails = time.time(), 0, 0, set(), [], []
    for i in range(count):
        if time.time() - t0 > seconds:
            break
        rng = np.random.default_rng([seed, int(pid[1:]), i])
        case = json.loads(json.dumps(g(rng, i)))
        n += 1
        with open(out + ".case", "w") as f:
            json.dump(case, f)
        seen.add(hash(json.dumps(case, sort_keys=True)))
        m = judge(check, case)
        if len(samples) < 2:
            samples.append(case)
        k = m and knownf(case)
        if k:
            known[k] = known.get(k) or {"case": case, "message": m}
            continue
        if m:
            case, m = shrink(check, case, m)
            fails.append({"case": case, "message": m})
            if len(fails) >= 3:
                break
    json.dump({"evaluations": n, "distinct": len(seen), "fails": fails, "samples": samples, "seconds": time.time() - t0,
               "requested": count, "known": known}, open(out, "w"))


if __name__ == "__main__":
    main()
