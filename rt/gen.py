"""Seeded generators of cases (plain JSON values)."""
import math
from . import oracle


def loguni(rng, a, b):
    return float(math.exp(rng.uniform(math.log(a), math.log(b))))


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def species(rng, kind, n=None, scale=None, zero=False):
    """kind: slow | instant | track. list of [density, release time, capture time]"""
    n = n or pick(rng, [1, 1, 2, 2, 3, 4])
    scale = scale or pick(rng, ["low", "low", "mid", "high"])
    out = []
    for _ in range(n):
        d = {"low": loguni(rng, 0.05, 5), "mid": loguni(rng, 5, 100), "high": loguni(rng, 100, 5000)}[scale]
        if zero and rng.random() < 0.15:
            d = 0.0
        wide = rng.random() < 0.15
        tr = loguni(rng, 1e-3, 1e4) if wide else loguni(rng, 0.1, 20)
        tc = 0.0
        if kind == "slow":
            tc = pick(rng, [0.0, loguni(rng, 1e-5, 1e3) if wide else loguni(rng, 0.01, 5), loguni(rng, 0.01, 5)])
        out.append([d, tr, tc])
    return out


def ccd1(rng):
    full = float(pick(rng, [1000.0, 1e4, 84700.0, 1e4]))
    notch = float(pick(rng, [0.0, 0.0, 5.0, full * rng.uniform(0, 0.2)]))
    power = float(pick(rng, [1.0, 0.5, 0.478, 0.58, 2.0, rng.uniform(0.2, 1.5)]))
    return [full, notch, power]


def cloud(rng, full, notch):
    r = rng.random()
    if r < 0.15:
        return 0.0
    if r < 0.25:
        return float(rng.uniform(0, max(notch, 1.0)))
    if r < 0.5:
        return float(rng.uniform(0, 50))
    if r < 0.95:
        return float(notch + (full - notch) * rng.random() ** pick(rng, [1, 3]))
    return float(full * rng.uniform(1, 2))


def clouds(rng, full, notch, n):
    style = pick(rng, ["rand", "rand", "desc", "asc", "repeat", "saw"])
    if style == "rand":
        return [cloud(rng, full, notch) for _ in range(n)]
    if style == "repeat":
        vals = [cloud(rng, full, notch) for _ in range(3)]
        return [pick(rng, vals) for _ in range(n)]
    xs = sorted((float(notch + (full - notch) * rng.random()) for _ in range(n)), reverse=style != "asc")
    if style == "saw":
        k = n // 2
        xs = xs[:k] + [float(notch + (full - notch) * rng.random()) for _ in range(n - k)]
    return nearly(rng, xs)


def nearly(rng, xs):
    """sometimes some of the clouds are almost the same as an earlier one"""
    if rng.random() < 0.2:
        for i in range(1, len(xs)):
            if rng.random() < 0.3:
                xs[i] = float(xs[int(rng.integers(i))] * (1 + pick(rng, [-1, 1]) * loguni(rng, 1e-10, 1e-2)))
    return xs


def dwell(rng):
    if rng.random() < 0.08:
        return loguni(rng, 1e-7, 1e3)
    return float(pick(rng, [1.0, 1.0, 1 / 3, 0.1, 2.5, 20.0, loguni(rng, 0.01, 10)]))


def just_enough(rng, kind, sp, ccd, updates):
    """changes one update's electrons to almost exactly what the traps would take"""
    k = int(rng.integers(len(updates)))
    vol = lambda n: oracle.volume(n, *ccd)
    o = oracle.Depths([oracle.Species(*s) for s in sp])
    step = lambda d, n, t: (d.update_slow if kind == "slow" else d.update_instant)(n, vol, t)
    for n, t in updates[:k]:
        step(o, n, t)
    t = updates[k][1]

    def taken(n):
        d = o.copy()
        d._limit = lambda *a: None
        return -step(d, n, t)
    hi = max(1e-6, sum(s[0] for s in sp) * 1.01)
    lo = hi
    for _ in range(12):
        lo /= 5
        if taken(lo) > lo:
            break
    else:
        return
    for _ in range(60):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if taken(mid) > mid else (lo, mid)
    updates[k][0] = float(lo * (1 - pick(rng, [1, 1, -1]) * loguni(rng, 1e-9, 1e-2)))


def history(rng, kind=None, n=None, enough=None, zero=True):
    kind = kind or pick(rng, ["slow", "slow", "instant", "track"])
    c = ccd1(rng)
    n = n or int(rng.integers(1, 22))
    scale = "low" if enough else None
    sp = species(rng, kind, scale=scale, zero=zero)
    ns = clouds(rng, c[0], c[1], n)
    if enough:
        ns = [x if x == 0 or x > 60 else x + 60 for x in ns]
    same = dwell(rng)
    ts = [same if rng.random() < 0.7 else dwell(rng) for _ in range(n)]
    up = [[a, b] for a, b in zip(ns, ts)]
    if not enough and rng.random() < 0.2:
        just_enough(rng, kind, sp, c, up)
    return {"kind": kind, "species": sp, "ccd": c, "updates": up, "room": pick(rng, [n, n, 1, 2, 50])}


# ---------------------------------------------------------------- readout configurations

def image(rng, rows, cols, full, negative=False):
    style = pick(rng, ["rand", "rand", "sparse", "lines", "flat", "faint"])
    if style == "rand":
        im = [[float(full * rng.random()) for _ in range(cols)] for _ in range(rows)]
    elif style == "sparse":
        im = [[float(full * rng.random()) if rng.random() < 0.3 else 0.0 for _ in range(cols)] for _ in range(rows)]
    elif style == "lines":
        im = [[0.0] * cols for _ in range(rows)]
        v = float(full * rng.random())
        for r in range(int(rng.integers(rows)), rows, int(rng.integers(1, 4))):
            im[r] = [v] * cols
    elif style == "flat":
        v = float(pick(rng, [full * rng.random(), full * 1.2, 20.0]))
        im = [[v] * cols for _ in range(rows)]
    else:
        im = [[float(rng.uniform(0, 30)) if rng.random() < 0.7 else 0.0 for _ in range(cols)] for _ in range(rows)]
    if negative and rng.random() < 0.3:
        for _ in range(pick(rng, [1, 1, 3])):
            im[int(rng.integers(rows))][int(rng.integers(cols))] = -float(rng.uniform(0, 20) if rng.random() < 0.7 else loguni(rng, 1, 1e5))
    return im


def window(rng, n):
    if rng.random() < 0.5:
        return None
    a = int(rng.integers(0, n))
    b = int(rng.integers(a + 1, n + 1))
    return [a, b]


def direction(rng, rows, roes=("std", "std", "std", "inj", "pump"), groups=None, phases=None, kinds=None, scale=None,
              force=None, keep=None, first=None, express=None, offset=None):
    """the parameters of one clocking direction; rows: image size along it"""
    roe = pick(rng, list(roes))
    nph = phases or pick(rng, [1, 1, 2, 3, 3, 4])
    full = float(pick(rng, [1000.0, 1e4, 84700.0]))
    multi = nph > 1 and rng.random() < 0.5
    frac = [float(rng.uniform(0.1, 1)) for _ in range(nph)]
    for i in range(nph):
        if nph > 1 and rng.random() < 0.25:
            frac[i] = 0.0 if rng.random() < 0.7 else loguni(rng, 1e-4, 0.1)
    if not any(frac):
        frac[0] = 1.0
    if nph == 1 and rng.random() < 0.5:
        frac = [1.0]
    def per(f):
        return [f() for _ in range(nph)] if multi else f()
    ccd = {"frac": frac, "full": per(lambda: full * float(rng.uniform(0.5, 1.5))),
           "notch": per(lambda: float(pick(rng, [0.0, 0.0, 10.0, full * 0.02]))),
           "power": per(lambda: float(pick(rng, [1.0, 0.5, 0.58, 0.8, 1.4])))}
    ng = groups or pick(rng, [1, 1, 1, 2])
    gs = []
    for _ in range(ng):
        kind = pick(rng, list(kinds or ("slow", "instant", "instant")))
        sc = scale or pick(rng, ["low", "low", "mid"])
        gs.append({"kind": kind, "species": species(rng, kind, n=pick(rng, [1, 2, 3]), scale=sc)})
    steps = nph if roe != "pump" else 2 * nph
    dt = [float(pick(rng, [1.0, 0.5, 1 / 3, loguni(rng, 0.05, 5)])) for _ in range(steps)]
    if rng.random() < 0.5:
        dt = [dt[0]] * steps
    if steps > 1 and rng.random() < 0.2:
        dt[int(rng.integers(steps))] = 0.0
    if not any(dt):
        dt[0] = 1.0
    d = {"roe": roe, "dwell": dt, "dtype": pick(rng, ["float", "float", "int"]), "ccd": ccd, "groups": gs,
         "keep": bool(rng.random() < 0.25) if keep is None else keep,
         "first": bool(rng.random() < 0.65) if first is None else first,
         "force": bool(rng.random() < 0.75) if force is None else force,
         "express": pick(rng, [0, 0, 1, 2, 3, rows - 1, rows, rows + 3]) if express is None else express,
         "offset": pick(rng, [0, 0, 0, 1, 3, 7]) if offset is None else offset, "n": None, "full": full}
    if d["express"] < 0:
        d["express"] = 0
    if roe == "inj":
        d["n"] = pick(rng, [None, rows, rows + 4, 2])
        d["offset"] = d["offset"] if d["n"] is None else 0
    if roe == "pump":
        d["n"] = pick(rng, [1, 2, 5, 9])
    return d
