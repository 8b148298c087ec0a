"""Runtime contracts of the readout (C08-C17, C20, C25)."""
import copy
import numpy as np
from . import gen, mk, oracle

TOL = 1e-7


def same(a, b, tol=TOL):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shape %r instead of %r" % (a.shape, b.shape)
    if a.size == 0:
        return None
    bad = ~(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b)))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "at %r: %r instead of %r" % (i, float(a[i]), float(b[i]))
    return None


def matrices(roe, pixels, express, offset, tw=None):
    e, m = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
        pixels=pixels, express=express, offset=offset, time_window_range=tw)
    return np.asarray(e), np.asarray(m)


# ---------------------------------------------------------------- C08
def _g08(rng, i):
    n = int(rng.integers(1, 26))
    w = gen.pick(rng, ["int", "range", "range", "step"])
    a = int(rng.integers(0, n))
    b = int(rng.integers(a + 1, n + 1))
    off = int(gen.pick(rng, [0, 0, 1, 2, 5, 30]))
    tot = n + off
    return {"n": n, "window": {"int": n, "range": [a, b], "step": [a, b, 2]}[w], "offset": off,
            "express": int(gen.pick(rng, [0, 1, 2, 3, n - 1, n, n + 1, tot - 1, tot, tot + 3, int(rng.integers(1, tot + 1))])),
            "dtype": gen.pick(rng, ["int", "float"]), "first": bool(rng.random() < 0.5)}


def _roe(dtype, first=True):
    return mk.ac().ROE(empty_traps_for_first_transfers=first, express_matrix_dtype=int if dtype == "int" else float)


def _c08(case):
    roe = _roe(case["dtype"], case["first"])
    win = case["window"] if isinstance(case["window"], int) else range(*case["window"])
    px = list(range(win)) if isinstance(win, int) else list(win)
    ex, off = max(case["express"], 0), case["offset"]
    e, m = matrices(roe, win, ex, off)
    if e.dtype != np.float64 or m.dtype.itemsize != 1 or e.shape != m.shape or e.ndim != 2 or e.shape[1] != len(px):
        return "shapes %r %r for %d window pixels" % (e.shape, m.shape, len(px))
    if not (e >= 0).all():
        return "negative multiplier %r" % e.min()
    want = np.array([p + off + 1 for p in px], dtype=float)
    s = same(e.sum(axis=0), want, 1e-10)
    if s:
        return "sum of multipliers " + s
    if not np.array_equal(m != 0, e > 0):
        return "monitored where multiplier is 0 or the reverse"
    if case["dtype"] == "int" and not np.array_equal(e, np.round(e)):
        return "integer multipliers not whole"
    total = max(px) + 1 + off
    if ex == 0 or ex >= total:
        if not np.isin(e, (0.0, 1.0)).all():
            return "multipliers other than 0 and 1 with express %d" % ex
    if case["first"] and 0 < ex < max(px) + 1:
        first = [e[np.nonzero(e[:, c])[0][0], c] for c in range(e.shape[1])]
        if any(abs(f - 1) > 1e-9 for f in first):
            return "a first transfer is not computed on its own: multipliers %r" % first
    full, mf = matrices(roe, max(px) + 1, ex, off)
    if full.shape[0] != e.shape[0] or not np.array_equal(full[:, px], e) or not np.array_equal(mf[:, px] != 0, m != 0):
        return "window columns differ from those of the full image"
    return None


C08 = (_g08, _c08)


# ---------------------------------------------------------------- C09
def _g09(rng, i):
    n = int(rng.integers(1, 16))
    a = int(rng.integers(0, n))
    b = int(rng.integers(a + 1, n + 1))
    return {"mode": gen.pick(rng, ["inj", "inj", "pump", "apply"]), "window": gen.pick(rng, [n, [a, b]]),
            "n": gen.pick(rng, [None, 1, 2, n, n + 3, 17, 100]), "offset": int(gen.pick(rng, [0, 0, 2, 9])),
            "pumps": int(gen.pick(rng, [1, 2, 3, 7, 10, 33, 99])), "pixel": int(rng.integers(0, n)),
            "express": int(gen.pick(rng, [0, 1, 2, 3, 4, 5, 7, n, 50])), "dtype": gen.pick(rng, ["int", "float"]),
            "first": bool(rng.random() < 0.5), "rows": n, "seed": int(rng.integers(1 << 30)),
            "before": [int(x) for x in rng.integers(1, 30, size=int(rng.integers(0, 3)))]}


def _c09(case):
    a = mk.ac()
    ty = int if case["dtype"] == "int" else float
    ex, off = case["express"], case["offset"]
    if case["mode"] == "pump":
        N = case["pumps"]
        roe = a.ROETrapPumping(dwell_times=[0.5, 0.5], n_pumps=N, empty_traps_for_first_transfers=case["first"],
                               express_matrix_dtype=ty)
        e, m = matrices(roe, range(case["pixel"], case["pixel"] + 1), ex, off)
        if e.ndim != 2 or e.shape[1] != 1 or m.shape != e.shape:
            return "shape %r" % (e.shape,)
        if not (e >= 0).all():
            return "negative multiplier"
        if abs(e.sum() - N) > 1e-9 * N:
            return "multipliers add up to %r, not %d pumps" % (e.sum(), N)
        if ty is int and not np.array_equal(e, np.round(e)):
            return "integer multipliers not whole"
        if not np.array_equal(m != 0, e > 0):
            return "monitored where multiplier is 0 or the reverse"
        if (ex == 0 or ex >= N) and not (e == 1).all():
            return "express %d: multipliers not 1" % ex
        s = np.asarray(roe.save_trap_states_matrix_from_express_matrix(e))
        mon = [k for k in range(len(e)) if m[k, 0]]
        if s.shape != e.shape or any(not s[k, 0] for k in mon[:-1]):
            return "trap state not carried on between pumps"
        if s[-1, 0]:
            return "trap state saved after the last pump"
        return None
    roe = a.ROEChargeInjection(dwell_times=[1.0], n_pixel_transfers=case["n"], express_matrix_dtype=ty)
    for b in case["before"]:
        matrices(roe, b, 0, 1)
    win = case["window"] if isinstance(case["window"], int) else range(*case["window"])
    px = list(range(win)) if isinstance(win, int) else list(win)
    if case["mode"] == "apply":
        return _inj_applied(case, roe, ty)
    N = case["n"] if case["n"] is not None else max(px) + 1 + off
    e, m = matrices(roe, win, ex, off)
    if e.shape != m.shape or e.shape[1] != len(px):
        return "shapes %r %r for %d pixels" % (e.shape, m.shape, len(px))
    if not (e >= 0).all():
        return "negative multiplier"
    s = same(e.sum(axis=0), np.full(len(px), float(N)), 1e-10)
    if s:
        return "sum of multipliers " + s
    if ty is int and not np.array_equal(e, np.round(e)):
        return "integer multipliers not whole"
    if not np.array_equal(m != 0, e > 0):
        return "monitored where multiplier is 0 or the reverse"
    if ex == 0 or ex >= N:
        if not (e == 1).all():
            return "express %d: multipliers not 1" % ex
    if np.asarray(roe.save_trap_states_matrix_from_express_matrix(e)).any():
        return "trap states kept between transfers of charge injection"
    return None


def _inj_applied(case, roe, ty):
    """a readout without a time window applies all the transfers (as with a window that covers them all)"""
    rng = np.random.default_rng(case["seed"])
    rows, off = case["rows"], case["offset"]
    im = rng.uniform(0, 1000, size=(rows, 1))
    N = case["n"] if case["n"] is not None else rows + off
    kw = dict(parallel_ccd=mk.ac().CCD(full_well_depth=1e4, well_fill_power=0.8), parallel_roe=roe,
              parallel_traps=[mk.ac().TrapInstantCapture(density=2.0, release_timescale=1.5)],
              parallel_express=case["express"], parallel_offset=off)
    a = mk.ac().add_cti(image=im, **kw)
    b = mk.ac().add_cti(image=im, time_window_range=range(0, N), **kw)
    s = same(a, b, 1e-9)
    if s:
        return "n_pixel_transfers=%r rows=%d offset=%d: without time window the result differs from applying all %d transfers, %s" % (
            case["n"], rows, off, N, s)
    return None


def known09(case):
    """F4: add_cti's default time window is range(rows + offset), which cuts off further injection transfers"""
    if case["mode"] == "apply" and case["n"] is not None and case["n"] > case["rows"] + case["offset"]:
        return ("add_cti without time_window_range applies only the first rows+offset transfers of a "
                "ROEChargeInjection with n_pixel_transfers > rows+offset")
    return None


C09 = (_g09, _c09, known09)


# ---------------------------------------------------------------- C10
def _g10(rng, i):
    c = _g08(rng, i)
    if isinstance(c["window"], list) and len(c["window"]) == 3:
        c["window"] = c["window"][:2]
    c["inj"] = gen.pick(rng, [None, None, 5, 40])
    tot = c["n"] + c["offset"] if c["inj"] is None else c["inj"]
    k = int(rng.integers(0, 4))
    c["cuts"] = sorted(set(int(x) for x in rng.integers(1, max(tot, 2), size=k)) - {tot})
    c["cuts"] = [x for x in c["cuts"] if x < tot]
    if rng.random() < 0.15:
        rows, cols = int(rng.integers(1, 7)), int(rng.integers(1, 4))
        c["serial"] = {"rows": rows, "cols": cols, "image": gen.image(rng, rows, cols, 1e4), "rw": gen.window(rng, rows), "offset": c["offset"] % 6,
                       "cuts": sorted(set(int(x) for x in rng.integers(1, rows + 6, size=int(rng.integers(0, 4))))),
                       "d": gen.direction(rng, cols, roes=("std",), phases=1, groups=1, scale="low", keep=False)}
    return c


def _rows_once(c):
    """in every time window serial clocking changes the rows read out in it, as the undivided readout does, and no others"""
    im = mk.arr(c["image"])
    kw = dict(mk.kwargs(c["d"], "serial"), parallel_window_range=wr(c["rw"]), parallel_offset=c["offset"])
    whole = np.asarray(mk.ac().add_cti(image=im, **kw))
    cuts = [0] + [x for x in c["cuts"] if x < len(im) + c["offset"]] + [len(im) + c["offset"]]
    for a, b in zip(cuts, cuts[1:]):
        got = np.asarray(mk.ac().add_cti(image=im, time_window_range=range(a, b), **kw))
        want = np.array([whole[r] if a <= r + c["offset"] < b else im[r] for r in range(len(im))])
        s = same(got, want, 1e-9)
        if s:
            return "serial clocking in the time window %r (offset %d): rows read out in it are clocked, others not: %s" % ([a, b], c["offset"], s)
    return None


def _c10(case):
    if case.get("serial"):
        s = _rows_once(case["serial"])
        if s:
            return s
    ty = int if case["dtype"] == "int" else float
    if case["inj"] is None:
        roe = _roe(case["dtype"], case["first"])
    else:
        roe = mk.ac().ROEChargeInjection(n_pixel_transfers=case["inj"], express_matrix_dtype=ty)
    win = case["window"] if isinstance(case["window"], int) else range(*case["window"])
    px = list(range(win)) if isinstance(win, int) else list(win)
    ex, off = max(case["express"], 0), case["offset"]
    tot = max(px) + 1 + off if case["inj"] is None else case["inj"]
    cuts = [0] + [c for c in case["cuts"] if c < tot] + [tot]
    e, m = matrices(roe, win, ex, off)
    acc = np.zeros_like(e)
    for a, b in zip(cuts, cuts[1:]):
        ew, mw = matrices(roe, win, ex, off, range(a, b))
        if ew.shape != e.shape or not np.array_equal(mw, m):
            return "time window %r: monitoring depends on the time window" % ([a, b],)
        if not (ew >= 0).all():
            return "time window %r: negative multiplier %r" % ([a, b], ew.min())
        per = np.array([p + off + 1 if case["inj"] is None else tot for p in px], dtype=float)
        s = same(ew.sum(axis=0), np.clip(per, a, b) - a, 1e-9)
        if s:
            return "time window %r: transfers of a pixel in it, %s" % ([a, b], s)
        acc += ew
    s = same(acc, e, 1e-9)
    if s:
        return "windows %r do not add up to the undivided readout %s" % (cuts, s)
    return None


C10 = (_g10, _c10)


# ---------------------------------------------------------------- C11
def _g11(rng, i):
    return {"roe": gen.pick(rng, ["std", "std", "pump", "inj"]), "phases": int(rng.integers(1, 13)),
            "force": bool(rng.random() < 0.5)}


def _c11(case):
    a = mk.ac()
    n = case["phases"]
    if case["roe"] == "pump":
        roe = a.ROETrapPumping(dwell_times=[1.0] * (2 * n))
        steps = 2 * n
    else:
        cls = a.ROE if case["roe"] == "std" else a.ROEChargeInjection
        roe = cls(dwell_times=[1.0] * n, force_release_away_from_readout=case["force"])
        steps = n
    force = case["force"] and case["roe"] != "pump"
    cs = roe.clock_sequence
    if len(cs) != steps or any(len(x) != n for x in cs):
        return "%d steps of %r phases" % (len(cs), [len(x) for x in cs])
    acc = {0}
    for s, step in enumerate(cs):
        pos = s % (2 * n)
        pos = pos if pos <= n else 2 * n - pos          # position of the cloud, in phases
        high = [p for p in range(n) if step[p].is_high]
        if len(high) != 1:
            return "step %d: high phases %r" % (s, high)
        if high[0] != pos % n:
            return "step %d: phase %d high instead of %d" % (s, high[0], pos % n)
        for p, ph in enumerate(step):
            to = [int(x) for x in ph.release_to_which_pixels]
            fr = [float(x) for x in ph.release_fraction_to_pixel]
            if len(to) != len(fr) or min(fr) <= 0 or abs(sum(fr) - 1) > 1e-12:
                return "step %d phase %d: release fractions %r to %r" % (s, p, fr, to)
            cap = int(ph.capture_from_which_pixel)
            acc.update([cap] + to)
            if p == high[0]:
                if to != [cap]:
                    return "step %d: high phase captures from %d but releases to %r" % (s, cap, to)
                if cap != pos // n:
                    return "step %d: high phase captures from pixel %d instead of %d" % (s, cap, pos // n)
            else:
                # released charge goes to the nearest high phases: clouds are at positions pos + n*k
                d = [abs(pos + n * (k - pos // n) - (p)) for k in ()]
            want = _nearest(pos, p, n)
            if force and p > high[0]:
                want = [x + 1 for x in want]
            if sorted(to) != sorted(want):
                return "step %d phase %d: releases to %r, nearest high phases are in %r" % (s, p, to, want)
            if force and min(to) < 0:
                return "step %d phase %d: forced release but to %r" % (s, p, to)
    if [int(x) for x in roe.pixels_accessed_during_clocking] != sorted(acc):
        return "pixels accessed %r instead of %r" % ([int(x) for x in roe.pixels_accessed_during_clocking], sorted(acc))
    if case["roe"] == "pump":
        for s in range(1, n):
            a1, b1 = cs[s], cs[2 * n - s]
            for x, y in zip(a1, b1):
                if (x.is_high != y.is_high or x.capture_from_which_pixel != y.capture_from_which_pixel
                        or list(x.release_to_which_pixels) != list(y.release_to_which_pixels)
                        or list(x.release_fraction_to_pixel) != list(y.release_fraction_to_pixel)):
                    return "step %d does not retrace step %d" % (2 * n - s, s)
    return None


def _nearest(pos, p, n):
    """which clouds' high phases are nearest to phase p of pixel 0.  Cloud of pixel q is at phase-position pos - n*q
    (moving by n brings it one pixel nearer to readout), phases p of pixel 0 at position p."""
    best, out = None, []
    for q in range(-4, 6):
        d = abs((pos - n * q) - p)
        if best is None or d < best:
            best, out = d, [q]
        elif d == best:
            out.append(q)
    return out


C11 = (_g11, _c11)


# ---------------------------------------------------------------- whole readouts
def oracle_direction(im, d, row_window=None, col_window=None, tw=None, stats=None):
    """The documented readout, transfer by transfer, with depth-resolved traps. im: array (rows, columns)"""
    a = mk.ac()
    roe = mk.roe(d)
    rows, cols = im.shape
    rw = list(range(rows)) if row_window is None else list(row_window)
    cw = range(cols) if col_window is None else col_window
    nph = len(d["ccd"]["frac"])
    wr = range(rw[0], rw[-1] + 1)
    mult, mon = matrices(roe, wr, d["express"], d["offset"], tw)
    npass = mult.shape[0]
    seq = roe.clock_sequence
    per = lambda v, p: v[p] if isinstance(v, list) else v
    vols = [(lambda p: lambda n: oracle.volume(n, per(d["ccd"]["full"], p), per(d["ccd"]["notch"], p),
                                               per(d["ccd"]["power"], p)))(p) for p in range(nph)]

    def fresh():
        return [[(g["kind"], oracle.Depths([oracle.Species(s[0] * d["ccd"]["frac"][p], s[1],
                                                           s[2] if g["kind"] == "slow" else 0.0) for s in g["species"]]))
                 for g in d["groups"]] for p in range(nph)]

    def clone(t):
        return [[(k, o.copy()) for k, o in ph] for ph in t]

    out = {}
    cells = {(r, c): float(im[r, c]) for r in range(rows) for c in range(cols)}
    start = fresh()
    for c in cw:
        saved = clone(start)
        traps = clone(start)
        for e in range(npass):
            traps = clone(saved)
            save_at = None
            if d["roe"] == "pump":
                save_at = 0 if e < npass - 1 else None
            elif d["roe"] == "std" and not d["first"] and e < npass - 1:
                nxt = [k for k in range(len(rw)) if mult[e + 1, k] > 0 and k > 0]
                save_at = nxt[0] - 1 if nxt else max(len(rw) - 2, 0)
            for k, r in enumerate(rw):
                if not mon[e, k]:
                    continue
                w = float(mult[e, k])
                for s, t in enumerate(d["dwell"]):
                    if not t > 0:
                        continue
                    for p in range(nph):
                        if not d["ccd"]["frac"][p] > 0:
                            continue
                        ph = seq[s][p]
                        src = (r + int(ph.capture_from_which_pixel), c)
                        n = cells.get(src, 0.0) if ph.is_high else 0.0
                        net = 0.0
                        for kind, o in traps[p]:
                            net += (o.update_slow if kind == "slow" else o.update_instant)(n, vols[p], t)
                        if w == 0:
                            continue
                        for q, f in zip(ph.release_to_which_pixels, ph.release_fraction_to_pixel):
                            dst = (r + int(q), c)
                            cells[dst] = max(cells.get(dst, 0.0) + net * float(f) * w, 0.0)
                if save_at == k:
                    saved = clone(traps)
            if stats is not None:
                stats["left"] = stats.get("left", 0.0) + sum(o.held() for ph in traps for _, o in ph)
        start = fresh() if not d["keep"] or d["roe"] == "pump" else traps
    res = np.array([[cells[(r, c)] for c in range(cols)] for r in range(rows)])
    if stats is not None:
        stats["beyond"] = sum(v for (r, c), v in cells.items() if r < 0 or r >= rows)
    return res


def run_parallel(im, d, row_window=None, col_window=None, tw=None, **extra):
    kw = mk.kwargs(d, "parallel")
    kw.update(extra)
    if d["roe"] == "inj" and d["n"] is not None and tw is None and d["n"] > im.shape[0] + d["offset"]:
        tw = range(0, d["n"])                     # known finding of C09
    return np.asarray(mk.ac().add_cti(image=im, parallel_window_range=row_window, serial_window_range=col_window,
                                      time_window_range=tw, **kw))


def cost(d, rows, cols):
    """about how many updates of traps a readout takes"""
    steps = sum(1 for t in d["dwell"] if t > 0)
    phases = sum(1 for f in d["ccd"]["frac"] if f > 0)
    if d["roe"] == "pump":
        passes = d["n"] / rows
    else:
        passes = d["n"] or rows + d["offset"]
        if d["express"]:
            passes = min(passes, d["express"] + (1 if d["roe"] == "std" else 0))
    return rows * cols * passes * steps * phases * len(d["groups"])


def _case(rng, roes=("std", "std", "std", "inj", "pump"), rows=None, cols=None, negative=False, windows=True, **kw):
    limit = gen.loguni(rng, 30, 3000)
    for _ in range(40):
        n, k = rows or int(rng.integers(1, 8)), cols or int(rng.integers(1, 4))
        d = gen.direction(rng, n, roes=roes, **kw)
        if cost(d, n, k) <= limit:
            break
    rows, cols = n, k
    c = {"rows": rows, "cols": cols, "d": d, "image": gen.image(rng, rows, cols, d["full"], negative),
         "rw": gen.window(rng, rows) if windows else None, "cw": gen.window(rng, cols) if windows else None}
    if d["roe"] == "pump":
        p = int(rng.integers(rows))
        c["rw"] = [p, p + 1]
    return c


def wr(w):
    return None if w is None else range(*w)


# ---------------------------------------------------------------- C25
def _g25(rng, i):
    c = _case(rng, negative=True)
    c["tw"] = None
    if c["d"]["roe"] == "std" and rng.random() < 0.25:
        tot = c["rows"] + c["d"]["offset"]
        a = int(rng.integers(0, tot))
        c["tw"] = [a, int(rng.integers(a + 1, tot + 1))]
        c["d"]["first"] = True
    return c


def _c25(case):
    im = mk.arr(case["image"])
    d = case["d"]
    got = run_parallel(im, d, wr(case["rw"]), wr(case["cw"]), wr(case["tw"]))
    tw = wr(case["tw"])
    want = oracle_direction(im, d, wr(case["rw"]), wr(case["cw"]), tw)
    s = same(got, want)
    return s and "output pixel " + s


C25 = (_g25, _c25)


# ---------------------------------------------------------------- C12
def snapshot(o, depth=0):
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return [snapshot(x, depth + 1) for x in o]
    if callable(o) or o is None or isinstance(o, (int, float, str, bool, np.generic, type)):
        return repr(o) if not callable(o) else getattr(o, "__name__", "f")
    if hasattr(o, "__dict__") and depth < 8:
        return (type(o).__name__, [(k, snapshot(v, depth + 1)) for k, v in sorted(vars(o).items())])
    return repr(o)


def _g12(rng, i):
    c = _case(rng, rows=int(rng.integers(1, 7)), cols=int(rng.integers(1, 6)))
    c["op"] = gen.pick(rng, ["add", "add", "remove", "add2"])
    c["serial"] = gen.direction(rng, c["cols"], roes=("std",), scale="low") if c["op"] == "add2" else None
    c["iterations"] = int(rng.integers(0, 4))
    c["layout"] = gen.pick(rng, ["c", "c", "f", "view", "int" if c["op"] != "remove" else "c", "f32"])
    return c


def laid_out(im, layout):
    """the same image in other memory layouts and types"""
    if layout == "f":
        return np.asfortranarray(im)
    if layout == "view":
        big = np.full((2 * im.shape[0] + 1, im.shape[1] + 2), 7.0)
        big[1::2, 1:-1] = im
        return big[1::2, 1:-1]
    if layout == "int":
        return im.astype(int)
    return im.astype(np.float32) if layout == "f32" else im


def _c12(case):
    a = mk.ac()
    im = laid_out(mk.arr(case["image"]), case.get("layout", "c"))
    d = case["d"]
    kw = mk.kwargs(d, "parallel")
    if case["serial"]:
        kw.update(mk.kwargs(case["serial"], "serial"))
    before = {k: snapshot(v) for k, v in kw.items()}
    im0 = im.copy()
    kw2 = dict(kw, parallel_window_range=wr(case["rw"]), serial_window_range=wr(case["cw"]))
    if case["op"] == "remove":
        out = a.remove_cti(image=im, iterations=case.get("iterations", 2), **kw2)
    else:
        out = a.add_cti(image=im, **kw2)
    out = np.asarray(out)
    if out.shape != im.shape:
        return "image of shape %r became %r" % (im.shape, out.shape)
    if not np.array_equal(im, im0):
        return "the input image was modified"
    if out is im or np.shares_memory(out, im):
        return "the returned image shares memory with the input"
    for k, v in kw.items():
        if snapshot(v) != before[k]:
            return "the supplied %s was modified" % k
    rows, cols = im.shape
    cw = wr(case["cw"]) or range(cols)
    rw = wr(case["rw"]) or range(rows)
    exact = np.array_equal if case["op"] != "remove" else (lambda x, y: same(x, y, 1e-12) is None)
    if case["serial"] is None:
        outside = [c for c in range(cols) if c not in cw]
        if not exact(out[:, outside], im[:, outside]):
            return "columns outside the window %r changed" % (case["cw"],)
        if case["d"]["roe"] != "pump" and case["d"]["force"] and not exact(out[:rw[0]], im[:rw[0]]):
            return "rows before the window %r changed" % (case["rw"],)
        reach = 1
        if not exact(out[rw[-1] + 1 + reach:], im[rw[-1] + 1 + reach:]):
            return "rows well after the window %r changed" % (case["rw"],)
        if case["op"] == "add" and d["roe"] != "pump" and rw[-1] + 1 < rows:
            nxt = rw[-1] + 1
            if (out[nxt] < im[nxt] - 1e-9).any():
                return "row %d after the window lost charge" % nxt
            if len(d["ccd"]["frac"]) == 1 and not exact(out[nxt:], im[nxt:]):
                return "rows after the window changed in single-phase readout"
    else:
        sroe_reach = 1
        cset = set(cw)
        touched = set(cset) | {c + sroe_reach for c in cset} | {c - sroe_reach for c in cset}
        outside = [c for c in range(cols) if c not in touched]
        if not np.array_equal(out[:, outside], im[:, outside]):
            return "columns outside the window %r changed" % (case["cw"],)
    return None


C12 = (_g12, _c12)


# ---------------------------------------------------------------- C13
def _g13(rng, i):
    c = _case(rng, roes=("std", "std", "inj", "pump"), windows=True)
    c["total"] = bool(rng.random() < 0.6)
    if c["total"]:
        limit = gen.loguni(rng, 50, 3000)
        for _ in range(20):
            d = gen.direction(rng, c["rows"], roes=("std",), groups=1, keep=False, first=True, express=0)
            if cost(d, c["rows"], c["cols"]) <= limit:
                break
        c["d"] = d
        c["image"] = gen.image(rng, c["rows"], c["cols"], d["full"])
    return c


def _c13(case):
    im = mk.arr(case["image"])
    d = case["d"]
    out = run_parallel(im, d, wr(case["rw"]), wr(case["cw"]))
    if not (out >= 0).all():
        return "negative pixel %r" % out.min()
    if case["total"]:
        if out.sum() > im.sum() * (1 + 1e-10) + 1e-9:
            return "total charge grew from %r to %r" % (im.sum(), out.sum())
        st = {}
        oracle_direction(im, d, wr(case["rw"]), wr(case["cw"]), None, st)
        lost = im.sum() - out.sum()
        if abs(lost - st["left"] - st["beyond"]) > 1e-7 * (1 + im.sum()):
            return "%r electrons are missing but %r were left in traps and %r released beyond the image" % (
                lost, st["left"], st["beyond"])
    return None


C13 = (_g13, _c13)


# ---------------------------------------------------------------- C14
def _g14(rng, i):
    c = _case(rng, roes=("std", "std", "inj"), rows=int(rng.integers(2, 9)), windows=False, keep=False, force=True)
    c["row"] = int(rng.integers(0, c["rows"] - 1))
    c["other"] = gen.image(rng, c["rows"], c["cols"], c["d"]["full"], True)
    if rng.random() < 0.2:
        c["image"] = gen.image(rng, c["rows"], c["cols"], c["d"]["full"], True)
    c["crop"] = bool(rng.random() < 0.4)
    if c["crop"]:
        c["d"]["express"] = 0
        if c["d"]["roe"] == "inj":
            c["d"]["n"] = c["d"]["n"] or c["rows"]
            c["d"]["offset"] = 0
    c["serial"] = bool(rng.random() < 0.3)
    return c


def _c14(case):
    im = mk.arr(case["image"])
    d, r = case["d"], case["row"]

    def run(x):
        if case["serial"] and d["roe"] == "std":
            return np.asarray(mk.ac().add_cti(image=x.T.copy(), **mk.kwargs(d, "serial"))).T
        tw = range(0, d["n"]) if d["roe"] == "inj" and d["n"] is not None else None
        return run_parallel(x, d, tw=tw)

    a = run(im)
    if case["crop"]:
        b = run(im[: r + 1].copy())
        s = same(b, a[: r + 1], 1e-10)
        return s and "cropping after row %d changed the result %s" % (r, s)
    im2 = im.copy()
    im2[r + 1:] = mk.arr(case["other"])[r + 1:]
    b = run(im2)
    if same(b[: r + 1], a[: r + 1], 1e-12):
        return "changing pixels beyond row %d changed the output before, %s" % (r, same(b[: r + 1], a[: r + 1], 1e-12))
    return None


C14 = (_g14, _c14)


# ---------------------------------------------------------------- C15
def _g15(rng, i):
    c = _case(rng, cols=int(rng.integers(2, 5)), windows=False, keep=False, roes=("std", "std", "std", "inj", "pump"))
    c["perm"] = [int(x) for x in rng.permutation(c["cols"])]
    c["sub"] = [x for x in c["perm"] if rng.random() < 0.5] or [c["perm"][0]]
    c["calls"] = []
    for _ in range(int(rng.integers(1, 3))):
        r, k = max(1, c["rows"] + int(rng.integers(-3, 5))), int(rng.integers(1, 4))
        c["calls"].append([gen.image(rng, r, k, c["d"]["full"]), gen.pick(rng, [0, 0, 1, 2, 3, r]), gen.pick(rng, [0, 0, 1, 4]),
                           gen.pick(rng, [None, None, 1, 2]), gen.pick(rng, ["add", "add", "add", "remove"])])
    c["serial"] = bool(c["d"]["roe"] == "std" and rng.random() < 0.4)
    if not c["serial"] and c["d"]["roe"] == "std" and rng.random() < 0.2:
        c["tw"] = [0, int(rng.integers(1, c["rows"] + 1))]
    return c


def _c15(case):
    im = mk.arr(case["image"])
    d = case["d"]
    rw = wr(case["rw"])
    pre = "serial" if case["serial"] else "parallel"
    turn = (lambda x: x.T.copy()) if case["serial"] else (lambda x: x)
    tw = range(0, d["n"]) if d["roe"] == "inj" and d["n"] is not None else wr(case.get("tw"))

    def run(x, kw):
        return turn(np.asarray(mk.ac().add_cti(image=turn(x), time_window_range=tw, **{pre + "_window_range": rw}, **kw)))

    def others(kw):
        for x, express, offset, end, op in case["calls"]:
            k = dict(kw)
            k[pre + "_express"], k[pre + "_offset"] = express, offset
            if d["roe"] == "pump":
                k[pre + "_window_range"] = range(0, 1)
            t = None if end is None or case["serial"] or d["roe"] != "std" else range(0, end)
            f = mk.ac().add_cti if op == "add" else lambda **q: mk.ac().remove_cti(iterations=1, **q)
            f(image=turn(mk.arr(x)), time_window_range=t, **k)
            # the readout object asked directly
            if d["roe"] != "pump":
                k[pre + "_roe"].express_matrix_and_monitor_traps_matrix_from_pixels_and_express(len(x), express, offset)

    kw = mk.kwargs(d, pre)
    a = run(im, kw)
    if not np.array_equal(run(im, kw), a):
        return "a second call gives a different result"
    others(kw)
    if not np.array_equal(run(im, kw), a):
        return "after other calls the result differs " + str(same(run(im, kw), a, 0))
    used = mk.kwargs(d, pre)
    others(used)
    if not np.array_equal(run(im, used), a):
        return "with objects used in other calls before, the result differs " + str(same(run(im, used), a, 0))
    if d["roe"] != "pump":
        for express in (0, 1, 2):
            m, n = [k[pre + "_roe"].express_matrix_and_monitor_traps_matrix_from_pixels_and_express(len(im), express, 1)[0] for k in (used, mk.kwargs(d, pre))]
            if not np.array_equal(m, n):
                return "with a readout object used before, the multipliers for express %d differ" % express
    for layout in ("f", "view"):
        if not np.array_equal(run(laid_out(im, layout), kw), a):
            return "with the image laid out differently in memory (%s) the result differs" % layout
    b = run(im[:, case["perm"]].copy(), kw)
    if same(b, a[:, case["perm"]], 1e-10):
        return "with columns in order %r: %s" % (case["perm"], same(b, a[:, case["perm"]], 1e-10))
    b = run(im[:, case["sub"]].copy(), kw)
    if same(b, a[:, case["sub"]], 1e-10):
        return "with only columns %r: %s" % (case["sub"], same(b, a[:, case["sub"]], 1e-10))
    return None


C15 = (_g15, _c15)


# ---------------------------------------------------------------- C16
def _g16(rng, i):
    limit = gen.loguni(rng, 50, 3000)
    for _ in range(20):
        rows, cols = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        par, ser = gen.direction(rng, rows, roes=("std",), scale="low"), gen.direction(rng, cols, roes=("std",), scale="low")
        if cost(par, rows, cols) + cost(ser, cols, rows) <= limit:
            break
    c = {"rows": rows, "cols": cols, "p": par, "s": ser, "mode": gen.pick(rng, ["serial", "both", "both", "none", "default"])}
    c["image"] = gen.image(rng, rows, cols, c["p"]["full"], negative=True)
    if rng.random() < 0.4:
        c["rw"], c["cw"] = gen.window(rng, rows), gen.window(rng, cols)
    else:
        c["rw"] = c["cw"] = None
    return c


def _c16(case):
    add = mk.ac().add_cti
    im = mk.arr(case["image"])
    win = dict(parallel_window_range=wr(case["rw"]), serial_window_range=wr(case["cw"]))
    swap = dict(parallel_window_range=wr(case["cw"]), serial_window_range=wr(case["rw"]))
    P = lambda: mk.kwargs(case["p"], "parallel")
    S = lambda: mk.kwargs(case["s"], "serial")
    if case["mode"] == "none":
        kw = dict(P(), **S())
        kw["parallel_traps"] = kw["serial_traps"] = None
        out = np.asarray(add(image=im, **kw, **win))
        return None if np.array_equal(out, im) else "no traps but the image changed"
    if case["mode"] == "default":
        d = copy.deepcopy(case["p"])
        d["ccd"]["frac"] = [1.0]
        for k in ("full", "notch", "power"):
            v = d["ccd"][k]
            d["ccd"][k] = v[0] if isinstance(v, list) else v
        d.update(dwell=[1], dtype="float", keep=False, first=True, force=True)
        a = dict(mk.kwargs(d, "parallel"))
        b = dict(a, parallel_roe=None)
        if not np.array_equal(add(image=im, **a, **win), add(image=im, **b, **win)):
            return "an omitted parallel readout object is not single-phase standard readout"
        a = dict(mk.kwargs(d, "serial"))
        b = dict(a, serial_roe=None)
        if not np.array_equal(add(image=im, **a, **win), add(image=im, **b, **win)):
            return "an omitted serial readout object is not single-phase standard readout"
        # with another direction that is not
        for one, other, q in (("serial", "parallel", case["p"]), ("parallel", "serial", case["s"])):
            a = dict(mk.kwargs(d, one), **mk.kwargs(q, other))
            b = dict(a, **{one + "_roe": None})
            if not np.array_equal(add(image=im, **a, **win), add(image=im, **b, **win)):
                return "an omitted %s readout object is not single-phase standard readout, with a %s one given" % (one, other)
        return None
    serial = np.asarray(add(image=im, **S(), **win))
    want = np.asarray(add(image=im.T.copy(), **mk.kwargs(case["s"], "parallel"), **swap)).T
    # (not bit for bit: the default parallel time window re-derives the multipliers by differences)
    if same(serial, want, 1e-9):
        return "serial clocking is not transposed parallel clocking: " + str(same(serial, want, 1e-9))
    if case["mode"] == "both":
        both = np.asarray(add(image=im, **P(), **S(), **win))
        first = np.asarray(add(image=im, **P(), **win))
        want = np.asarray(add(image=first, **S(), **win))
        if not np.array_equal(both, want):
            return "both directions together differ from parallel followed by serial: " + str(same(both, want, 0))
    return None


C16 = (_g16, _c16)


# ---------------------------------------------------------------- C17
def _g17(rng, i):
    c = _g16(rng, i)
    c["mode"] = gen.pick(rng, ["both", "parallel", "serial", "none"])
    c["iterations"] = int(gen.pick(rng, [0, 1, 2, 3]))
    c["tw"] = None
    if c["mode"] == "parallel" and rng.random() < 0.3:
        tot = c["rows"] + c["p"]["offset"]
        a = int(rng.integers(0, tot))
        c["tw"] = [a, int(rng.integers(a + 1, tot + 1))]
    return c


def _c17(case):
    ac = mk.ac()
    im = mk.arr(case["image"])
    kw = dict(parallel_window_range=wr(case["rw"]), serial_window_range=wr(case["cw"]), time_window_range=wr(case["tw"]))
    if case["mode"] in ("both", "parallel"):
        kw.update(mk.kwargs(case["p"], "parallel"))
    if case["mode"] in ("both", "serial"):
        kw.update(mk.kwargs(case["s"], "serial"))
    out = np.asarray(ac.remove_cti(image=im, iterations=case["iterations"], **kw))
    est = im.copy()
    for _ in range(case["iterations"]):
        est = est + (im - np.asarray(ac.add_cti(image=est, **kw)))
    if (case["iterations"] == 0 or case["mode"] == "none") and not np.array_equal(out, im):
        return "nothing to do but the image changed"
    s = same(out, est, 1e-12)
    return s and "after %d iterations %s" % (case["iterations"], s)


C17 = (_g17, _c17)


# ---------------------------------------------------------------- C20
def _g20(rng, i):
    c = _case(rng, negative=True)
    if i % 3 == 0:
        c["history"] = gen.history(rng)
        c["history"]["room"] = 1
    return c


def _c20(case):
    """run in the build with bounds checks: any access outside raises"""
    if "history" in case:
        h = case["history"]
        m = mk.manager(h["kind"], h["species"], h["room"])
        vol = mk.ccd1(h["ccd"]).well_filling_function()
        for n, t in h["updates"]:
            m.n_electrons_released_and_captured(n_free_electrons=n, dwell_time=t, ccd_filling_function=vol,
                                                express_multiplier=1)
            used = int(np.sum(np.asarray(m.watermarks)[:, 0] != 0))
            if used >= len(m.watermarks) + 1 or m.watermarks.shape[1] != 1 + len(h["species"]):
                return "no room left in the occupancy storage"
    im = mk.arr(case["image"])
    run_parallel(im, case["d"], wr(case["rw"]), wr(case["cw"]))
    return None


C20 = (_g20, _c20)
