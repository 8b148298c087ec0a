"""Runtime contracts of the trap updates and trap species (C01-C07, C18, C19, C21, C22)."""
import math
import numpy as np
from . import gen, mk, oracle

TOL = 1e-8


def close(a, b, scale=0.0, tol=TOL):
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b) + abs(scale))


class State:
    """depth view of a manager's current occupancy"""

    def __init__(self, m, kind, sp):
        w = np.array(m.watermarks, dtype=float)
        self.raw = w
        vol = w[:, 0]
        n = 0
        while n < len(vol) and vol[n] != 0:
            n += 1
        self.n = n
        self.rest = w[n:]
        self.vol = vol[:n]
        f = w[:n, 1:].copy()
        if kind == "track":
            f = np.array([[math.exp(-x / s[1]) for x, s in zip(row, sp)] for row in f]).reshape(n, len(sp))
        self.fill = f
        self.sp = sp

    def held(self):
        return float(sum(v * sum(x * s[0] for x, s in zip(f, self.sp)) for v, f in zip(self.vol, self.fill)))

    def top(self):
        return float(np.sum(self.vol))

    def at(self, h):
        c = 0.0
        for v, f in zip(self.vol, self.fill):
            c += v
            if h <= c:
                return f
        return np.zeros(len(self.sp))

    def bounds(self):
        return [float(x) for x in np.cumsum(self.vol)]

    def physical(self):
        if len(self.rest) and np.any(self.rest != 0):
            return "an unused level is not empty: %r" % self.rest[np.any(self.rest != 0, axis=1)][0].tolist()
        if np.any(self.vol <= 0) or not np.all(np.isfinite(self.vol)):
            return "volumes not positive: %r" % self.vol.tolist()
        if self.top() > 1 + 1e-9:
            return "volumes add up to %r" % self.top()
        if self.fill.size and (not np.all(np.isfinite(self.fill)) or self.fill.min() < -1e-12 or self.fill.max() > 1 + 1e-12):
            return "fill fractions outside [0,1]: %r" % self.fill.tolist()
        return None


def rounded_away(s, top):
    """the uppermost level, made for a cloud that reaches the depth of the others up to rounding, has no volume but for rounding
    (how its volume is rounded is no part of the contracts): the history is not followed any further"""
    k = s.n if s.n < len(s.raw) and np.any(s.raw[s.n] != 0) else s.n - 1
    return k > 0 and abs(s.raw[k, 0]) < 1e-14 and not np.any(s.raw[k + 1:] != 0) and abs(s.top() - top) < 1e-12


def sliver(vols, eps=1e-12):
    return any(v < eps for v in vols)


def run_history(case, want, kind=None, species=None):
    """Runs the updates on the real manager, evaluating the contracts named in `want` after each.
    Returns (message or None, list of results)."""
    kind = kind or case["kind"]
    sp = species or case["species"]
    m = mk.manager(kind, sp, case["room"])
    ccd = mk.ccd1(case["ccd"])
    vol = ccd.well_filling_function()
    spec_vol = lambda n: oracle.volume(n, *case["ccd"])
    o = oracle.Depths([oracle.Species(*s) for s in sp])
    results, deepest = [], 0.0
    for k, (n, t) in enumerate(case["updates"]):
        before = State(m, kind, sp)
        r = m.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=t, ccd_filling_function=vol,
                                                express_multiplier=1)
        r = float(r)
        after = State(m, kind, sp)
        results.append(r)
        where = "update %d (n_free=%r, dwell=%r): " % (k, n, t)
        h0, h1 = before.held(), after.held()
        scale = sum(s[0] for s in sp)
        if "C01" in want:
            # both are sums of the same numbers, so that only rounding lies between them
            if not abs(r - (h0 - h1)) <= 1e-12 * (1e-6 + scale) + 1e-15 * abs(n):
                return where + "reported net release %r but held electrons fell from %r to %r" % (r, h0, h1), results
            hm = float(m.n_trapped_electrons_from_watermarks(m.watermarks))
            if not close(hm, h1, scale):
                return where + "number of held electrons %r instead of %r" % (hm, h1), results
        if "C02" in want:
            if r < -max(n, 0) - 1e-11 * (1e-6 + n + scale):
                return where + "captured %r electrons of %r available" % (-r, n), results
            if r > h0 + 1e-12 * (1e-6 + scale):
                return where + "released %r electrons of %r held" % (r, h0), results
        before_o = o.copy()
        ro = (o.update_slow if kind == "slow" else o.update_instant)(n, spec_vol, t)
        if rounded_away(after, o.top):
            return None, results
        if "C02" in want and not close(r, ro, scale):
            # exactly the available electrons are captured when the traps would take more
            free = oracle.Depths(o.s)
            free.b, free.f = list(before_o.b), [list(x) for x in before_o.f]
            free._limit = lambda *a: None
            would = -(free.update_slow if kind == "slow" else free.update_instant)(n, spec_vol, t)
            if would > n * (1 + 1e-9) + 1e-9 and not close(-r, max(n, 0), scale):
                return where + "traps would take %r of the %r available electrons but took %r" % (would, n, -r), results
        if "C03" in want:
            p = after.physical()
            if p:
                return where + p, results
            deepest = max(deepest, o.top)
            if not close(after.top(), deepest):
                return where + "levels reach depth %r, the deepest cloud %r" % (after.top(), deepest), results
            for j, s in enumerate(sp):
                h = float(sum(v * f[j] for v, f in zip(after.vol, after.fill)))
                if h < -1e-9 or h > 1 + 1e-9:
                    return where + "species %d holds fraction %r of its traps" % (j, h), results
        if "C05" in want:
            bs = sorted(set([0.0] + o.b + after.bounds() + [1.0]))
            for a, b in zip(bs, bs[1:]):
                if b - a < 1e-9:
                    continue
                h = (a + b) / 2
                fa, fo = after.at(h), o.at(h)
                for j in range(len(sp)):
                    if abs(fa[j] - fo[j]) > 1e-9:
                        return where + "at depth %r species %d has fill fraction %r instead of %r" % (
                            h, j, float(fa[j]), float(fo[j])), results
            if not close(r, ro, scale):
                return where + "net release %r instead of %r" % (r, ro), results
    if "C03" in want:
        m.empty_all_traps()
        if np.any(m.watermarks != 0):
            return "emptying left the traps occupied", results
    return None, results


def decay_over_lifetimes(mu, sigma):
    """the average of exp(-t/x) over log-normal lifetimes x"""
    z = np.linspace(-9, 9, 3001)
    w, x = np.exp(-z * z / 2) / math.sqrt(2 * math.pi) * (z[1] - z[0]), mu * np.exp(sigma * z)
    return lambda t: float(np.sum(w * np.exp(-t / x)))


def continuum(rng):
    """a short history of traps with a continuum of lifetimes"""
    sp = [[gen.loguni(rng, 1, 1000), gen.loguni(rng, 0.2, 30), gen.loguni(rng, 0.1, 1.5)] for _ in range(gen.pick(rng, [1, 1, 2]))]
    up = [[gen.pick(rng, [0.0, gen.loguni(rng, 1, 1000), gen.loguni(rng, 1, 1000), gen.loguni(rng, 0.01, 10)]), gen.loguni(rng, 0.05, 5)] for _ in range(int(rng.integers(1, 6)))]
    return {"kind": "continuum", "species": sp, "ccd": [1000.0, gen.pick(rng, [0.0, 0.0, 10.0]), gen.pick(rng, [1.0, 0.5])], "updates": up, "room": gen.pick(rng, [1, 5])}


def run_continuum(case, want):
    """the contracts of the updates that do not depend on the law, with traps of a continuum of lifetimes"""
    from arcticpy import trap_managers as tm
    sp = case["species"]
    m = tm.TrapManagerTrackTime(traps=[mk.ac().TrapLogNormalLifetimeContinuum(*s) for s in sp], max_n_transfers=case["room"])
    vol = mk.ccd1(case["ccd"]).well_filling_function()
    F = [decay_over_lifetimes(*s[1:]) for s in sp]
    scale, deepest = sum(s[0] for s in sp), 0.0

    def state():
        w = np.array(m.watermarks, dtype=float)
        n = 0
        while n < len(w) and w[n, 0] != 0:
            n += 1
        if np.any(w[n:] != 0) or np.any(w[:n, 0] < 0) or not np.all(np.isfinite(w)) or np.any(w[:n, 1:] < -1e-6) or w[:n, 0].sum() > 1 + 1e-9:
            return None, 0.0, w
        return float(sum(v * s[0] * f(t) for v, *ts in w[:n] for s, f, t in zip(sp, F, ts))), float(w[:n, 0].sum()), w
    for k, (n, t) in enumerate(case["updates"]):
        h0, _, w0 = state()
        if h0 is None:
            return "occupancy is not physical: %r" % w0.tolist() if "C03" in want else None
        r = float(m.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=t, ccd_filling_function=vol, express_multiplier=1))
        h1, top, w1 = state()
        where = "update %d of traps with a continuum of lifetimes (n_free=%r, dwell=%r): " % (k, n, t)
        # all release first, into the cloud
        left = float(sum(v * s[0] * f(x + t) for v, *ts in w0 for s, f, x in zip(sp, F, ts) if v > 0))
        deepest = max(deepest, oracle.volume(n + h0 - left, *case["ccd"]))
        if h1 is None:
            return where + "occupancy is not physical: %r" % w1.tolist() if "C03" in want else None
        if "C01" in want and not abs(r - h0 + h1) <= 1e-5 * (1 + scale):
            return where + "reported net release %r but held electrons fell from %r to %r" % (r, h0, h1)
        if "C02" in want and not -n - 1e-5 * (1 + n + scale) <= r <= h0 + 1e-5 * (1 + scale):
            return where + "net release %r of %r held, %r available" % (r, h0, n)
        if "C03" in want and not abs(top - deepest) <= 1e-5:
            return where + "levels reach depth %r, the deepest cloud %r" % (top, deepest)
    return None


def hist_prop(pid):
    def g(rng, i):
        if pid != "C05" and i % 25 == 7:
            return continuum(rng)
        return gen.history(rng)

    def check(case):
        if case["kind"] == "continuum":
            return run_continuum(case, {pid})
        return run_history(case, {pid})[0]
    return g, check


# C01: also a whole phase-resolved manager set is exercised through C19/C25
C01 = hist_prop("C01")
C02 = hist_prop("C02")
C03 = hist_prop("C03")
C05 = hist_prop("C05")


# ---------------------------------------------------------------- C04
def _g04(rng, i):
    kind = gen.pick(rng, ["slow", "slow", "instant"])
    sp = gen.species(rng, kind)
    if rng.random() < 0.3:
        # any timescales
        for x in sp:
            k = gen.loguni(rng, 1e-5, 1e7)
            x[1], x[2] = x[1] * k, x[2] * gen.pick(rng, [k, k, gen.loguni(rng, 1e-5, 1e7)])
    return {"kind": kind, "species": sp, "t": [gen.dwell(rng), gen.loguni(rng, 1e-3, 30) if rng.random() < 0.7 else gen.loguni(rng, 1e-8, 1e8)]}


def _c04(case):
    m = mk.manager(case["kind"], case["species"], 3)
    t1, t2 = case["t"]
    P = {}
    for t in (t1, t2, t1 + t2, 0.0):
        P[t] = [np.array(x, dtype=float) for x in m.fill_probabilities_from_dwell_time(dwell_time=t)]
        for x in P[t]:
            if x.shape != (len(case["species"]),):
                return "shape %r" % (x.shape,)
            if t > 0 and (not np.all(np.isfinite(x)) or x.min() < -1e-12 or x.max() > 1 + 1e-12):
                return "dwell %r: probabilities %r outside [0,1]" % (t, x.tolist())
    for j, s in enumerate(case["species"]):
        sp = oracle.Species(*s)
        for t in (t1, t2, t1 + t2):
            got = [float(x[j]) for x in P[t]]
            for a, b, name in zip(got, oracle.probabilities(sp, t), ("from empty", "from full", "from release")):
                if not abs(a - b) <= 1e-14 + 1e-9 * abs(b):
                    return "species %r dwell %r: probability %s is %r instead of %r" % (s, t, name, a, b)
        (e1, f1, r1), (e2, f2, r2), (e3, f3, r3) = [[float(x[j]) for x in P[t]] for t in (t1, t2, t1 + t2)]
        if abs((1 - e1) * e2 + e1 * f2 - e3) > 1e-9 or abs(f1 * f2 + (1 - f1) * e2 - f3) > 1e-9 or abs(r1 * r2 - r3) > 1e-9:
            return "species %r: dwell times %r do not compose" % (s, case["t"])
        z = [float(x[j]) for x in P[0.0]]
        want = (0.0, 1.0, 1.0) if s[2] > 0 else (1.0, None, 1.0)
        for a, b in zip(z, want):
            if b is not None and not abs(a - b) <= 1e-12:
                return "species %r: zero dwell time gives %r" % (s, z)
    for a, s in zip(mk.traps(case["kind"], case["species"]), case["species"]):
        if not close(a.emission_rate * s[1], 1) or (s[2] > 0 and not close(a.capture_rate * s[2], 1)) or (s[2] == 0 and a.capture_rate != np.inf):
            return "rates of %r: %r, %r" % (s, a.capture_rate, a.emission_rate)
    return None


C04 = (_g04, _c04)


# ---------------------------------------------------------------- C06
def _g06(rng, i):
    c = {"kind": gen.pick(rng, ["slow", "instant"]), "s": gen.species(rng, "slow", n=1)[0],
         "t": [gen.loguni(rng, 1e-3, 30), gen.loguni(rng, 1e-2, 30), gen.loguni(rng, 1e-2, 30)] if rng.random() < 0.7 else
              [gen.loguni(rng, 1e-6, 1e4) for _ in range(3)], "n": gen.loguni(rng, .1, 1e5) if rng.random() < 0.8 else gen.loguni(rng, 1e-6, 1e9),
         "f": [gen.loguni(rng, 1e-300, 1), 1 - gen.loguni(rng, 1e-12, 0.1)]}
    if rng.random() < 0.3:
        # any unit of time
        k = gen.loguni(rng, 1e-6, 1e8)
        c["s"][1], c["s"][2], c["t"] = c["s"][1] * k, c["s"][2] * k, [t * k for t in c["t"]]
    return c


def _c06(case):
    s = list(case["s"])
    if case["kind"] == "instant":
        s[2] = 0.0
    tr = mk.traps(case["kind"], [s])[0]
    tau = s[1]
    t0, t1, t2 = case["t"]
    for t in (0.0, t0, t1, t2):
        f = float(tr.fill_fraction_from_time_elapsed(t))
        if not close(f, math.exp(-t / tau), tol=1e-12):
            return "fill fraction after %r is %r" % (t, f)
        if f > 1e-12 and not close(float(tr.time_elapsed_from_fill_fraction(f)), t, tau, 1e-9 / f if f < 1e-3 else 1e-9):
            return "time elapsed for fill fraction %r is %r not %r" % (f, float(tr.time_elapsed_from_fill_fraction(f)), t)
    for f in [1.0, 0.5, 0.037] + case["f"]:
        t = float(tr.time_elapsed_from_fill_fraction(f))
        if not abs(t + tau * math.log(f)) <= 1e-9 * tau * (1e-6 - math.log(f)) or not abs(float(tr.fill_fraction_from_time_elapsed(t)) - f) <= 1e-10 * f:
            return "inverse fails for fill fraction %r: time %r, and back %r" % (f, t, float(tr.fill_fraction_from_time_elapsed(t)))
    n = case["n"]
    rel = float(tr.electrons_released_from_electrons_and_dwell_time(electrons=n, dwell_time=t1))
    if not close(rel + n * math.exp(-t1 / tau), n, tol=1e-11) or not abs(rel + n * math.expm1(-t1 / tau)) <= 1e-12 * n + 1e-10 * rel:
        return "released %r of %r in %r (release time %r)" % (rel, n, t1, tau)
    a = float(tr.electrons_released_from_time_elapsed_and_dwell_time(time_elapsed=t0, dwell_time=t1))
    b = float(tr.electrons_released_from_time_elapsed_and_dwell_time(time_elapsed=t0 + t1, dwell_time=t2))
    c = float(tr.electrons_released_from_time_elapsed_and_dwell_time(time_elapsed=t0, dwell_time=t1 + t2))
    if not abs(a + b - c) <= 1e-14 + 1e-9 * abs(c):
        return "releases over successive times %r + %r != %r" % (a, b, c)
    if not abs(a + math.exp(-t0 / tau) * math.expm1(-t1 / tau)) <= 1e-14 + 1e-9 * abs(a):
        return "release %r between times" % a
    if not close(float(tr.electrons_released_from_electrons_and_dwell_time(n)), -n * math.expm1(-1 / tau), n, 1e-11):
        return "default dwell time is not 1"
    if not close(tr.emission_rate, 1 / tau) or (s[2] == 0) != (tr.capture_rate == math.inf) or (
            s[2] > 0 and not close(tr.capture_rate, 1 / s[2])):
        return "rates %r %r for %r" % (tr.capture_rate, tr.emission_rate, s)
    if tr.density != s[0] or tr.release_timescale != tau or tr.capture_timescale != s[2]:
        return "parameters not kept"
    return None


C06 = (_g06, _c06)


# ---------------------------------------------------------------- C23
def _g23(rng, i):
    if i == 0:
        # far in the tail of a wide distribution
        return {"law": "lognormal", "mu": 1.0, "sigma": 2.9, "t": [9500.0, 2.0, 1.0, 0.5], "n": 10.0, "dens": 1.0, "f": [0.9]}
    mu = gen.loguni(rng, 0.05, 50) if rng.random() < 0.6 else gen.loguni(rng, 1e-4, 1e6)
    return {"law": gen.pick(rng, ["lognormal", "lognormal", "gamma"]), "mu": mu, "sigma": gen.loguni(rng, 0.02, 2.5) if rng.random() < 0.6 else gen.pick(rng, [0.01, 0.1, 0.5, 1.0, 2.0]),
            "t": [mu * gen.loguni(rng, 1e-3, 20) for _ in range(3)] + [min(gen.loguni(rng, 0.01, 10), 300 * mu)], "n": gen.loguni(rng, .1, 1e5),
            "dens": gen.loguni(rng, 0.1, 100), "f": [gen.loguni(rng, 1e-3, 1), 1 - gen.loguni(rng, 1e-6, 0.1)]}


def _c23(case):
    mu, sg, ac = case["mu"], case["sigma"], mk.ac()
    if case["law"] == "gamma":
        # mean mu, relative width at most 1
        k = max(1.0, 1 / sg ** 2) if sg > 0.05 else 400.0
        # (log of the density, scaled for accuracy)
        pdf = lambda x, m, s: 0.0 if x <= 0 else math.exp(k * math.log(k / m) + (k - 1) * math.log(x) - k * x / m - math.lgamma(k))
        tr = ac.TrapLifetimeContinuumAbstract(case["dens"], pdf, mu, sg)
        z = np.linspace(-34, 8, 30001) if k < 20 else np.linspace(-16, 9, 30001) / math.sqrt(k)
        w = np.exp(k * math.log(k) - math.lgamma(k) + k * (z - np.exp(z)))
        x = mu * np.exp(z)
    else:
        tr = ac.TrapLogNormalLifetimeContinuum(case["dens"], mu, sg)
        z = np.linspace(-12, 12, 20001)
        w = np.exp(-z * z / 2) / math.sqrt(2 * math.pi)
        x = mu * np.exp(sg * z)
    dz = z[1] - z[0]
    F = lambda t: float(np.sum(w * np.exp(-t / x)) * dz)
    T = 1e-6
    if tr.density != case["dens"] or tr.capture_timescale != 0:
        return "parameters not kept"
    if case["law"] == "lognormal":
        for q in (0.3 * mu, mu, 2.5 * mu):
            want = math.exp(-(math.log(q / mu) / sg) ** 2 / 2) / (q * sg * math.sqrt(2 * math.pi))
            if not close(float(tr.distribution_of_traps_with_lifetime(q, mu, sg)), want, tol=1e-9 if want > 1e-200 else 1):
                return "density at %r is %r not %r" % (q, tr.distribution_of_traps_with_lifetime(q, mu, sg), want)
    last = 1.0
    for t in [0.0] + sorted(case["t"]):
        f = float(tr.fill_fraction_from_time_elapsed(t))
        if not abs(f - F(t)) <= T:
            return "fill fraction after %r is %r and the average decay %r" % (t, f, F(t))
        if not -T <= f <= last + T:
            return "fill fraction rises to %r after %r" % (f, t)
        last = f
    t0, t1, t2, t3 = case["t"]
    for f in case["f"] + [0.5, F(t0)]:
        if not 1e-3 <= f < 1 - 1e-7:
            continue
        t = float(tr.time_elapsed_from_fill_fraction(f))
        if not t >= 0 or not abs(F(t) - f) <= T:
            return "the fill fraction %r gives the time %r, after which it is %r" % (f, t, F(t))
    r = lambda a, b: float(tr.electrons_released_from_time_elapsed_and_dwell_time(time_elapsed=a, dwell_time=b))
    for a, b in ((t0, t1), (0.0, t2), (t3, t0)):
        if not abs(r(a, b) - (F(a) - F(a + b))) <= T:
            return "released between %r and %r later: %r not %r" % (a, b, r(a, b), F(a) - F(a + b))
    if mu > 0.01 and not abs(float(tr.electrons_released_from_time_elapsed_and_dwell_time(t0)) - (F(t0) - F(t0 + 1))) <= T:
        return "default dwell time is not 1"
    n = case["n"]
    if not close(float(tr.electrons_released_from_electrons_and_dwell_time(n, t1)), n * (1 - F(t1)), n, T):
        return "released %r of %r in %r" % (tr.electrons_released_from_electrons_and_dwell_time(n, t1), n, t1)
    return None


def known23(case):
    """the quadrature misses what is left long after: times above a thousand medians"""
    return ("the fill fraction more than a thousand medians after filling comes out as zero for widths above 2"
            if max(case["t"]) > 1e3 * case["mu"] and case["sigma"] > 2 else None)


C23 = (_g23, _c23, known23)


# ---------------------------------------------------------------- C07
def _g07(rng, i):
    d = gen.direction(rng, 4, roes=("std",))["ccd"]
    full = max(d["full"]) if isinstance(d["full"], list) else d["full"]
    ns = [0.0, -5.0] + [gen.cloud(rng, full, 0.02 * full) for _ in range(6)]
    for x in (d["notch"] if isinstance(d["notch"], list) else [d["notch"]]):
        ns += [x, x * 1.01, x + 1e-3]
    for x in (d["full"] if isinstance(d["full"], list) else [d["full"]]):
        ns += [x, x * 1.01]
    mix = [k for k in ("full", "notch", "power") if rng.random() < 0.4]
    return {"ccd": d, "n": sorted(ns), "mix": mix, "scalar_frac": bool(len(d["frac"]) == 1 and rng.random() < 0.5)}


def _c07(case):
    a = mk.ac()
    d = dict(case["ccd"])
    nph = len(d["frac"])
    for k in case["mix"]:
        # scalar and list forms mixed
        d[k] = d[k][0] if isinstance(d[k], list) else [d[k] * (1 + 0.01 * i) for i in range(nph)]
    if case["scalar_frac"]:
        d["frac"] = d["frac"][0]
        ccd = a.CCD(fraction_of_traps_per_phase=d["frac"], full_well_depth=d["full"], well_notch_depth=d["notch"],
                    well_fill_power=d["power"])
        d["frac"] = [d["frac"]]
    else:
        ccd = mk.ccd(d)
    per = lambda v, i: v[i] if isinstance(v, list) else v
    if ccd.n_phases != nph:
        return "n_phases %r" % ccd.n_phases
    for ph in range(nph):
        full, notch, power = (per(d[k], ph) for k in ("full", "notch", "power"))
        f = ccd.well_filling_function(phase=ph)
        one = a.CCDPhase(ccd, ph)
        if (one.full_well_depth, one.well_notch_depth, one.well_fill_power, one.fraction_of_traps_per_phase) != (
                full, notch, power, d["frac"][ph]):
            return "phase %d: extracted parameters %r" % (ph, vars(one))
        last = -1.0
        for n in case["n"]:
            v = float(f(n))
            v2 = float(ccd.cloud_fractional_volume_from_n_electrons_and_phase(n_electrons=n, phase=ph))
            v3 = float(one.cloud_fractional_volume_from_n_electrons(n))
            want = oracle.volume(n, full, notch, power)
            if not close(v, want, tol=1e-11):
                return "phase %d: volume of %r electrons is %r not %r" % (ph, n, v, want)
            if v != v2 or v != v3:
                return "phase %d: volumes of %r electrons differ: %r %r %r" % (ph, n, v, v2, v3)
            if v < last - 1e-12 or v < 0 or v > 1:
                return "phase %d: volume %r of %r electrons after %r" % (ph, v, n, last)
            last = v
    if nph >= 2:
        for k, name in (("full", "full_well_depth"), ("notch", "well_notch_depth"), ("power", "well_fill_power")):
            try:
                a.CCD(fraction_of_traps_per_phase=d["frac"], **{name: [1000.0] * (nph + 1)})
                return "wrong number of phases in %s accepted" % name
            except ValueError:
                pass
    return None


C07 = (_g07, _c07)


# ---------------------------------------------------------------- C18
def _g18(rng, i):
    base = gen.pick(rng, [2452334.5, 2453920, 2454968, 2455000, 2459000])
    return {"date": float(base + gen.pick(rng, [0, 0.5, -0.5, 1, 1000 * rng.random(), 5000 * rng.random(), -300 * rng.random()])),
            "step": float(rng.uniform(0.1, 30))}


def _hst(date):
    traps, ccd, roe = mk.ac().model_for_HST_ACS(date=date)
    return traps, ccd, roe


def _epoch(d):
    return 0 if d < 2453920 else 1 if d < 2454968 else 2


def _c18(case):
    a = mk.ac()
    d = case["date"]
    if d < 2452334.5:
        try:
            _hst(d)
        except AssertionError:
            return None
        return "date %r before launch accepted" % d
    traps, ccd, roe = _hst(d)
    if len(traps) != 3 or any(type(t) is not a.TrapInstantCapture or t.capture_timescale != 0 for t in traps):
        return "date %r: not three instant-capture species" % d
    dens = [float(t.density) for t in traps]
    tot = sum(dens)
    if min(dens) <= 0:
        return "date %r: densities %r" % (d, dens)
    for x, w in zip(dens, (1.27, 3.38, 2.85)):
        if not close(x / tot, w / 7.5, tol=1e-10):
            return "date %r: density proportions %r" % (d, dens)
    rt = [float(t.release_timescale) for t in traps]
    if min(rt) <= 0:
        return "date %r: release times %r" % (d, rt)
    if d >= 2453920 and any(not close(x, y, tol=1e-10) for x, y in zip(rt, (0.74, 7.7, 37.0))):
        return "date %r: release times %r" % (d, rt)
    if d < 2453920:
        r0 = [float(t.release_timescale) for t in _hst(2452334.5)[0]]
        if r0 != rt:
            return "release times change within an epoch: %r %r" % (r0, rt)
        T, T0 = 273.15 - 77, 273.15 - 81
        for x, b, E in zip(rt, (0.74, 7.7, 37.0), (0.31, 0.34, 0.44)):
            if not close(x, b * T / T0 * math.exp(E / (8.617343e-5 * T0 * T) * (T - T0)), tol=1e-9):
                return "release times %r at the first operating temperature" % rt
    # linear growth within the density epoch
    e = lambda x: 0 if x < 2454968 else 1
    s = case["step"]
    ds = [d, d + s, d + 2 * s]
    if e(ds[0]) == e(ds[2]):
        t3 = [sum(float(t.density) for t in _hst(x)[0]) for x in ds]
        if t3[1] <= t3[0] or not close(t3[2] - t3[1], t3[1] - t3[0], tol=1e-9):
            return "density does not grow linearly: %r at %r" % (t3, ds)
        slope = 3.5488e-4 if e(d) == 0 else 0.000558980 * 1.011
        zero = 0.017845 if e(d) == 0 else -0.246591 * 1.011
        if not close(t3[0], zero + slope * (d - 2452334.5), tol=1e-9):
            return "total density %r at %r" % (t3[0], d)
    f = ccd.well_filling_function()
    for n in (10.0, 1000.0, 50000.0, 84700.0, 1e5):
        if not close(float(f(n)), oracle.volume(n, 84700.0, 0.0, 0.478), tol=1e-11):
            return "cloud volume of %r electrons" % n
    if list(roe.dwell_times) != [1] or type(roe) is not a.ROE or ccd.n_phases != 1:
        return "readout %r" % (roe.dwell_times,)
    return None


C18 = (_g18, _c18)


# ---------------------------------------------------------------- C19
def _g19(rng, i):
    d = gen.direction(rng, 4, roes=("std",), kinds=("slow", "instant"))
    if rng.random() < 0.15:
        d["groups"][0]["kind"] = "instant"
    nph, ng = len(d["ccd"]["frac"]), len(d["groups"])
    ops = []
    full = d["full"]
    for _ in range(int(rng.integers(2, 25))):
        r = rng.random()
        if r < 0.6:
            ops.append(["u", int(rng.integers(nph)), int(rng.integers(ng)), gen.cloud(rng, full, 0), gen.dwell(rng)])
        elif r < 0.75:
            ops.append(["s"])
        elif r < 0.93:
            ops.append(["r"])
        else:
            ops.append(["e"])
    return {"d": d, "ops": ops, "room": int(gen.pick(rng, [1, 3, 40]))}


def _c19(case):
    from arcticpy.trap_managers import AllTrapManager
    d = case["d"]
    ccd = mk.ccd(d["ccd"])
    gs = mk.groups(d)
    orig = [[(t.density, t.release_timescale, t.capture_timescale) for t in g] for g in (gs if isinstance(gs[0], list) else [gs])]
    am = AllTrapManager(traps=gs, max_n_transfers=case["room"], ccd=ccd)
    nph, ng = len(d["ccd"]["frac"]), len(d["groups"])
    spec = [[oracle.Depths([oracle.Species(s[0] * d["ccd"]["frac"][p], s[1], s[2] if g["kind"] == "slow" else 0.0)
                            for s in g["species"]]) for g in d["groups"]] for p in range(nph)]
    copy = lambda x: [[o.copy() for o in ph] for ph in x]
    empty = copy(spec)
    saved = None
    for k, op in enumerate(case["ops"]):
        where = "operation %d %r: " % (k, op)
        if op[0] == "u":
            _, p, g, n, t = op
            f = ccd.well_filling_function(phase=p)
            kind = d["groups"][g]["kind"]
            r = float(am[p][g].n_electrons_released_and_captured(n_free_electrons=n, dwell_time=t, ccd_filling_function=f,
                                                                 express_multiplier=1))
            o = spec[p][g]
            per = lambda v: v[p] if isinstance(v, list) else v
            sv = lambda x: oracle.volume(x, per(d["ccd"]["full"]), per(d["ccd"]["notch"]), per(d["ccd"]["power"]))
            ro = (o.update_slow if kind == "slow" else o.update_instant)(n, sv, t)
            if not close(r, ro, sum(s.density for s in o.s), 1e-7):
                return where + "net release %r instead of %r" % (r, ro)
        elif op[0] == "s":
            am.save()
            saved = copy(spec)
        elif op[0] == "r":
            am.restore()
            spec = copy(saved) if saved is not None else copy(empty)
        else:
            am.empty_all_traps()
            spec = copy(empty)
        if len(am) != nph or any(len(x) != ng for x in am):
            return where + "managers per phase changed"
        tot = 0.0
        for p in range(nph):
            for g in range(ng):
                m = am[p][g]
                sp = [[s.density, s.tau_r, s.tau_c] for s in spec[p][g].s]
                for x, s in zip(m.n_traps_per_pixel, sp):
                    if not close(float(x), s[0], tol=1e-12):
                        return where + "density %r in phase %d instead of %r" % (float(x), p, s[0])
                st = State(m, "fill", sp)
                h, want = st.held(), spec[p][g].held()
                tot += want
                if not close(h, want, sum(s[0] for s in sp), 1e-7):
                    return where + "phase %d group %d holds %r electrons instead of %r" % (p, g, h, want)
        if not close(float(am.n_electrons_trapped_currently), tot, 1.0, 1e-7):
            return where + "reported %r electrons held instead of %r" % (float(am.n_electrons_trapped_currently), tot)
    now = [[(t.density, t.release_timescale, t.capture_timescale) for t in g] for g in (gs if isinstance(gs[0], list) else [gs])]
    if now != orig:
        return "the supplied trap species were modified"
    return None


C19 = (_g19, _c19)


# ---------------------------------------------------------------- C21
def _g21(rng, i):
    c = gen.history(rng, kind="instant", n=int(rng.integers(1, 14)), zero=False)
    for u in c["updates"]:
        u[1] = min(u[1], 20 * min(s[1] for s in c["species"]))
    if i % 5 == 1:
        # a species that releases nothing in any dwell time, filled first, and clouds too small to fill the others again
        sp, full = c["species"], c["ccd"][0]
        sp[int(rng.integers(len(sp)))][1] = 10.0 ** int(rng.integers(18, 24))
        total = sum(s[0] for s in sp) / (full * float(rng.uniform(0.2, 0.8)))
        for s in sp:
            s[0] /= total
        c["ccd"][1:] = [0.0, float(rng.uniform(0.2, 0.9))]
        for u in c["updates"]:
            u[0] = float(gen.pick(rng, [0.0, u[0], full * rng.uniform(0, 0.1), full * rng.uniform(0, 0.5)]))
        empty = [[0.0, float(rng.uniform(0.1, 0.5)) * min(s[1] for s in sp)] for _ in range(int(rng.integers(1, 30)))]
        c["updates"] = [[full, 1.0]] + empty + c["updates"]
        c["room"] = len(c["updates"])
    return c


def _c21(case):
    a = mk.manager("instant", case["species"], case["room"])
    b = mk.manager("track", case["species"], case["room"])
    vol = mk.ccd1(case["ccd"]).well_filling_function()
    scale = sum(s[0] for s in case["species"])
    for k, (n, t) in enumerate(case["updates"]):
        ra, rb = (float(m.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=t, ccd_filling_function=vol))
                  for m in (a, b))
        if not close(ra, rb, scale, 1e-7):
            return "update %d (n_free=%r, dwell=%r): instant capture %r, time tracking %r" % (k, n, t, ra, rb)
        sa, sb = State(a, "instant", case["species"]), State(b, "track", case["species"])
        bs = sorted(set([0.0] + sa.bounds() + sb.bounds() + [1.0]))
        for x, y in zip(bs, bs[1:]):
            if y - x > 1e-9 and np.max(np.abs(sa.at((x + y) / 2) - sb.at((x + y) / 2))) > 1e-6:
                return "update %d: fill fractions at depth %r: %r and %r" % (
                    k, (x + y) / 2, sa.at((x + y) / 2).tolist(), sb.at((x + y) / 2).tolist())
        ha = float(a.n_trapped_electrons_from_watermarks(a.watermarks))
        hb = float(b.n_trapped_electrons_from_watermarks(b.watermarks))
        if not close(ha, hb, scale, 1e-6):
            return "update %d: held %r and %r" % (k, ha, hb)
    return None


C21 = (_g21, _c21)


# ---------------------------------------------------------------- C22
def _g22(rng, i):
    mode = gen.pick(rng, ["split", "perm", "zero", "splitperm"])
    c = gen.history(rng, kind=gen.pick(rng, ["slow", "instant", "track"]), enough=(mode == "zero"), zero=False)
    if mode == "zero":
        for s in c["species"]:
            s[0] = min(s[0], 1.0)
    sp = [list(s) for s in c["species"]]
    alt = [list(s) for s in sp]
    if mode.startswith("split"):
        j = int(rng.integers(len(sp)))
        w = float(rng.uniform(0.1, 0.9))
        s = alt[j]
        alt = alt[:j] + [[s[0] * w, s[1], s[2]], [s[0] * (1 - w), s[1], s[2]]] + alt[j + 1:]
    if mode.endswith("perm"):
        order = [int(x) for x in rng.permutation(len(alt))]
        alt = [alt[x] for x in order]
    if mode == "zero":
        z = gen.species(rng, c["kind"], n=1)[0]
        z[0] = 0.0
        alt.insert(int(rng.integers(len(alt) + 1)), z)
    c["alt"] = alt
    c["mode"] = mode
    return c


def _c22(case):
    a = mk.manager(case["kind"], case["species"], case["room"])
    b = mk.manager(case["kind"], case["alt"], case["room"])
    vol = mk.ccd1(case["ccd"]).well_filling_function()
    scale = sum(s[0] for s in case["species"])
    for k, (n, t) in enumerate(case["updates"]):
        ra, rb = (float(m.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=t, ccd_filling_function=vol))
                  for m in (a, b))
        if not close(ra, rb, scale, 1e-7):
            return "update %d (n_free=%r, dwell=%r): %r with species %r but %r with %r" % (
                k, n, t, ra, case["species"], rb, case["alt"])
    return None


C22 = (_g22, _c22)
