"""Contracts of the trap managers (trap_managers.py)"""
from .proof import *
from . import wm, stubs
from .p_traps import managed

TM = "trap_managers.TrapManager."


def manager(L, cls="TrapManager", finite=True):
    """a manager made by its real constructor for S >= 1 arbitrary species; then an arbitrary occupancy with K levels"""
    c = ctx()
    S = I("S")
    fact(le(C(1), S))
    c.forall("tau", lambda i: lt(ZERO, T.app("tau", i)), "tau")
    c.forall("tauc", lambda i: lt(ZERO, T.app("tauc", i)), "tauc")
    c.forall("dens", lambda i: le(ZERO, T.app("dens", i)), "dens")

    def args(i):
        d = {"density": N(T.app("dens", i)), "release_timescale": N(T.app("tau", i))}
        if finite:
            d["capture_timescale"] = N(T.app("tauc", i))
        return d
    l = objects.make(L.pkg.Trap if finite else L.pkg.TrapInstantCapture, S, args)
    m = getattr(L.pkg, cls)(traps=l, max_n_transfers=1)
    return m, S


def state(S, spare=0, name="W", fills=True):
    Rn, K = I("rows"), I("K")
    fact(le(ZERO, K))
    fact(le(add(K, C(1 + spare)), Rn))
    ctx().seed(K, ZERO)
    M = add(S, C(1))
    W = wm.arr(name, Rn, M)
    wm.physical(W, K, name, fills)
    return W, Rn, M, K


CLASSES = ("TrapManager", "TrapManagerInstantCapture", "TrapManagerTrackTime")


@proof("C01", "C02", "C03", "C05", "C20", functions=[TM + "__init__", TM + "empty_all_traps", TM + "n_traps_per_pixel", TM + "n_trap_species"])
def initial(L):
    """a new manager, and one that has been emptied, is in a physical state: no levels, at least one row, one column per species"""
    for cls in CLASSES:
        with sums.case():
            m, S = manager(L, cls, cls == "TrapManager")
            W = m.watermarks
            i, j = I("i"), I("j")
            prove("one column per species", eq(W._shape[1], add(S, C(1))))
            prove("a row", le(C(1), W._shape[0]))
            prove("empty", eq(W.at(i, j), ZERO))
            with sums.case():
                q = sums.arbitrary(ZERO, S, "species")
                prove("densities", eq(m.n_traps_per_pixel.at(q), wm.dens(q)))
            A, Rn, M, K = state(S)
            m.watermarks = A.copy()
            m.empty_all_traps()
            V = m.watermarks
            prove("emptied", T.conj(eq(V._shape[0], Rn), eq(V._shape[1], M), eq(V.at(i, j), ZERO)))
            fact(le(ZERO, I("transfers")))
            big = getattr(L.pkg, cls)(traps=m.traps, max_n_transfers=N(I("transfers")))
            prove("a row, for any number of transfers", le(C(1), big.watermarks._shape[0]))
            prove("empty, for any number of transfers", eq(big.watermarks.at(i, j), ZERO))


def law(k):
    return arrays.Arr.make([I("S")], lambda j: T.app(k, j))


@proof("C01", "C02", "C03", "C05", "C20", functions=[TM + "n_electrons_released_and_captured", TM + "_n_electrons_released_and_captured__first_capture",
       TM + "_n_electrons_released_and_captured__cloud_below_watermarks", TM + "fraction_of_traps_exposed_from_n_electrons",
       TM + "watermark_index_above_cloud_from_cloud_fractional_volume", TM + "update_watermark_volumes_for_cloud_below_highest"])
def slow_update(L):
    """from every physical state, for every cloud n >= 0, well-filling function into [0, 1] and probabilities in [0, 1]:
    the result is the decrease of the electrons held; at most n are captured, exactly n where the traps would take more; the
    levels stay physical and reach the deepest volume exposed; at every depth the fills follow the capture and release law"""
    slow(L)


def slow(L):
    m, S = manager(L)
    c = ctx()
    g = stubs.Ghost(L, m, S, 2)
    n, t = R("n"), R("t")
    nonneg(n)
    pos(t)
    c.forall("fv", lambda x: T.conj(le(ZERO, T.app("fv", x)), le(T.app("fv", x), C(1))), "fv")
    for k in ("pe", "pf", "pr"):
        c.forall(k, (lambda k: lambda j: T.conj(le(ZERO, T.app(k, j)), le(T.app(k, j), C(1))))(k), k)
    vs, at, xs = [], [], []
    W0, g0 = stubs.frozen(g.W), g.g0

    def fp(dwell_time):
        prove("[C05] probabilities for the dwell time", eq(dwell_time, t))
        return law("pe"), law("pf"), law("pr")

    def before(j):
        return W0.at(g0, j)

    def released(j):
        return T.ite(lt(vs[0], g.x), mul(before(j), T.app("pr", sub(j, C(1)))), before(j))

    def filling(x):
        x = num(x)
        v = T.app("fv", x)
        if not vs:
            prove("[C05] the cloud's volume is that of the free electrons", eq(x, n))
        else:
            # some charge was released from above the cloud
            g.levels(m.watermarks)
            h = num(g.n_trapped(m.watermarks, law("dens")))
            prove("[C05] released charge joins the cloud", eq(x, add(n, sub(g.H0, h))))
            prove("[C05] traps deeper than the cloud release, others do not change", eq(m.watermarks.at(g.g, g.j), released(g.j)))
        vs.append(v)
        xs.append((x, v))
        return N(v)

    def updated(j):
        f1 = released(j)
        e, f = T.app("pe", sub(j, C(1))), T.app("pf", sub(j, C(1)))
        return T.ite(le(g.x, vs[-1]), add(mul(f1, f), mul(sub(C(1), f1), e)), f1)

    def attempted(a, b):
        prove("[C05] before limiting: the initial fills", eq(b.at(g.g, g.j), before(g.j)))
        for name, case in (("below the cloud", le(g.x, vs[-1])), ("above the cloud", lt(vs[-1], g.x))):
            with sums.case():
                fact(case)
                prove("[C05] before limiting, " + name + ": capture and release law", eq(a.at(g.g, g.j), updated(g.j)))
        fact(eq(a.at(g.g, g.j), updated(g.j)))
        at.append(g.abbreviate("fill", a.at(g.g, g.j)))
    m.fill_probabilities_from_dwell_time = fp
    g.attempted = attempted
    with g:
        r = num(m.n_electrons_released_and_captured(N(n), filling, dwell_time=N(t)))
    g.levels(m.watermarks)
    H1 = num(g.n_trapped(m.watermarks, law("dens")))
    prove("[C01] the result is the decrease of the electrons held", eq(r, sub(g.H0, H1)))
    prove("[C02] captured at most the free electrons", le(sub(H1, g.H0), n))
    prove("[C02] released at most those held", le(r, g.H0))
    reached(g, m, vs)
    end, f2 = m.watermarks.at(g.g, g.j), at[0] if at else updated(g.j)
    if g.enough is None:
        prove("[C05] capture and release law", eq(end, f2))
    else:
        prove("[C02] exactly the free electrons are captured", eq(sub(H1, g.H0), n))
        prove("[C02 C05] the fills are limited only if the electrons are too few", lt(add(g.H0, n), g.attempt))
        u, v = g.limited
        prove("[C05] the fills move the affordable fraction of the way", eq(end, add(v, mul(g.enough, sub(u, v)))))
        prove("[C05] towards the capture and release law", eq(u, f2))
        prove("[C05] from the initial fills, except of merged levels", T.disj(g.merged, eq(v, before(g.j))))
        prove("[C05] the affordable fraction", eq(mul(g.enough, sub(g.attempt, g.H0)), n))
    return m, S, g, n, t, r, xs, W0


def reached(g, m, vs):
    """the levels after an update that met clouds of the volumes vs"""
    g.physical(m.watermarks, "after the update")
    total = wm.cum(m.watermarks, g.K)
    prove("[C03] volume at least as before and as the cloud's", T.conj(le(g.V0, total), *[le(v, total) for v in vs]))
    prove("[C03] volume no more than exposed", T.disj(eq(g.V0, total), *[eq(v, total) for v in vs]))
    prove("[C20] an unused level is left", lt(g.K, m.watermarks._shape[0]))


TI = "trap_managers.TrapManagerInstantCapture."


@proof("C01", "C02", "C03", "C05", "C20", functions=[TI + "n_electrons_released_and_captured", TI + "n_electrons_released", TI + "n_electrons_captured",
       TI + "_n_electrons_captured__first_capture", TI + "_n_electrons_captured__cloud_below_watermarks",
       TI + "watermarks_as_fill_fractions", TI + "n_watermarks_per_transfer"])
def instant_update(L):
    """release from all levels, then instant capture: from every physical state, for every cloud n >= 0, well-filling function into
    [0, 1] with no volume for no electrons, and every decay of the fills"""
    instant(L)


TT = "trap_managers.TrapManagerTrackTime."


@proof("C01", "C02", "C03", "C05", "C20", "C21", functions=[TT + "filled_watermark_value", TT + "watermarks_converted_to_fill_fractions_from_elapsed_times",
       TT + "watermarks_as_fill_fractions", TT + "n_trapped_electrons_from_watermarks", TT + "updated_watermarks_from_capture_not_enough",
       TT + "update_watermark_values_for_release", TI + "n_electrons_released_and_captured", TI + "n_electrons_released", TI + "n_electrons_captured",
       TI + "_n_electrons_captured__first_capture", TI + "_n_electrons_captured__cloud_below_watermarks"])
def time_update(L):
    """tracking times since filling returns the same as tracking fills, and keeps the times that correspond to its fills, for every
    species whose fill is 1 exactly at time 0, stays positive and never rises, with an inverse of it"""
    m, S, g, n, t, r, xs, W0 = instant(L)
    c = ctx()
    F, G = (lambda j, x: T.app("F", j, x)), (lambda j, f: T.app("G", j, f))
    c.forall("F", lambda j, x: T.implies(le(ZERO, x), T.conj(lt(ZERO, F(j, x)), le(F(j, x), C(1)), T.iff(eq(F(j, x), C(1)), eq(x, ZERO)))), "F")
    c.forall("G", lambda j, f: T.implies(T.conj(lt(ZERO, f), le(f, C(1))), T.conj(eq(F(j, G(j, f)), f), le(ZERO, G(j, f)))), "G")

    class Species(L.pkg.TrapInstantCapture):
        def __init__(self, index, density, release_timescale):
            L.pkg.TrapInstantCapture.__init__(self, density=density, release_timescale=release_timescale)
            self.index = index

        def fill_fraction_from_time_elapsed(self, time_elapsed):
            return N(F(num(self.index), num(time_elapsed)))

        def time_elapsed_from_fill_fraction(self, fill_fraction):
            return N(G(num(self.index), num(fill_fraction)))
    traps = objects.make(Species, S, lambda i: {"index": N(i), "density": N(T.app("dens", i)), "release_timescale": N(T.app("tau", i))})
    mt = L.pkg.TrapManagerTrackTime(traps=traps, max_n_transfers=1)

    def same(a, b, K, what, i=None, j=None):
        for x, y in zip(a._shape, b._shape):
            prove(what + ": as many rows", eq(x, y))
        with sums.case():
            if i is None:
                i, j = sums.arbitrary(ZERO, b._shape[0], "i"), sums.arbitrary(C(1), b._shape[1], "j")
            prove(what + ": the same volumes", eq(a.at(i, ZERO), b.at(i, ZERO)))
            with sums.case():
                fact(lt(i, K))
                x = a.at(i, j)
                prove(what + ": the times of the fills", T.conj(le(ZERO, x), eq(F(sub(j, C(1)), x), b.at(i, j))))
            with sums.case():
                fact(le(K, i))
                prove(what + ": no times in unused levels", eq(a.at(i, j), ZERO))
    count = [0]

    def image(b, K, first=False):
        count[0] += 1
        nm = "Times%d" % count[0]
        s = b.snap()

        def f(i, j):
            x, j1 = T.app(nm, i, j), sub(j, C(1))
            used = [le(ZERO, x), eq(F(j1, x), s(i, j))]
            if first:
                # the decay of a fill is what its time leads to
                used.append(eq(F(j1, add(x, t)), T.app("D", j1, s(i, j))))
            return T.conj(T.implies(eq(j, ZERO), eq(x, s(i, j))), T.implies(T.conj(le(C(1), j), lt(i, K)), T.conj(*used)),
                          T.implies(T.conj(le(C(1), j), le(K, i)), eq(x, ZERO)))
        c.forall(nm, f, nm)
        a = wm.arr(nm, b._shape[0], b._shape[1])
        sums.sum_eq("the same volumes", ZERO, b._shape[0], lambda i: a.at(i, ZERO), lambda i: s(i, ZERO))
        return a.copy()
    f = stubs.Follow(g, mt, "", same, image)
    mt.watermarks = image(W0, g.K0, True)
    times = mt.updated_watermarks_from_capture_not_enough

    def not_enough(*a, **k):
        return f.after_not_enough(times(*a, **k))
    mt.updated_watermarks_from_capture_not_enough = not_enough
    ys = list(xs)

    def filling(x):
        y, v = ys.pop(0)
        prove("the same cloud", eq(x, y))
        return N(v)
    with f:
        rt = num(mt.n_electrons_released_and_captured(N(n), filling, dwell_time=N(t)))
    prove("the same electrons", eq(rt, r))
    same(mt.watermarks, m.watermarks, g.K, "after the update")


def instant(L):
    m, S = manager(L, "TrapManagerInstantCapture", False)
    c = ctx()
    g = stubs.Ghost(L, m, S, 1)
    n, t = R("n"), R("t")
    nonneg(n)
    pos(t)
    c.forall("fv", lambda x: T.conj(le(ZERO, T.app("fv", x)), le(T.app("fv", x), C(1)), T.implies(eq(x, ZERO), eq(T.app("fv", x), ZERO))), "fv")
    xs = []
    # a fill v of species j decays to D(j, v)
    c.forall("D", lambda j, v: T.implies(le(ZERO, v), T.conj(le(ZERO, T.app("D", j, v)), le(T.app("D", j, v), v))), "D")
    vs, at = [], []
    W0, g0 = stubs.frozen(g.W), g.g0

    def decay(values, dwell_time):
        prove("[C05] the decay over the dwell time", eq(dwell_time, t))
        s = values.snap()
        return arrays.Arr.make(values._shape, lambda i, j: T.app("D", j, s(i, j)))

    def released(j):
        return T.app("D", sub(j, C(1)), W0.at(g0, j))
    release = m.n_electrons_released

    def n_released(**k):
        r = num(release(**k))
        w = m.watermarks
        H1 = num(g.n_trapped(w, law("dens")))
        g.start = H1
        prove("[C01] released: the decrease of the electrons held", eq(r, sub(g.H0, H1)))
        a, b = W0.snap(), w.snap()
        d = lambda j: wm.dens(sub(j, C(1)))
        row = lambda s: (lambda i: sums.total(C(1), g.M, lambda j: mul(s(i, ZERO), s(i, j), d(j))))
        prove("[C02] released: same levels", eq(w._shape[0], W0._shape[0]))
        sums.sum_le("[C02] released: no more are held", ZERO, g.Rn, row(b), row(a),
                    lambda i: sums.sum_le("[C02] released: no more are held in a cell", C(1), g.M, lambda j: mul(b(i, ZERO), b(i, j), d(j)), lambda j: mul(a(i, ZERO), a(i, j), d(j))))
        prove("[C02] released: no more than held, not negative", T.conj(le(ZERO, r), le(r, g.H0)))
        prove("[C05] released: every level decays", eq(w.at(g.g, g.j), released(g.j)))
        return N(r)

    def filling(x):
        x = num(x)
        g.free = x
        xs.append((x, T.app("fv", x)))
        prove("[C05] the cloud's volume is that of the free and the released electrons", eq(x, add(n, sub(g.H0, num(g.n_trapped(m.watermarks, law("dens")))))))
        prove("free electrons", le(ZERO, x))
        v = T.app("fv", x)
        vs.append(v)
        return N(v)

    def updated(j):
        return T.ite(le(g.x, vs[-1]), C(1), released(j))

    def attempted(a, b):
        prove("[C05] before limiting: the fills after release", eq(b.at(g.g, g.j), released(g.j)))
        for name, case in (("below the cloud", le(g.x, vs[-1])), ("above the cloud", lt(vs[-1], g.x))):
            with sums.case():
                fact(case)
                prove("[C05] before limiting, " + name + ": capture and release law", eq(a.at(g.g, g.j), updated(g.j)))
        fact(eq(a.at(g.g, g.j), updated(g.j)))
        at.append(g.abbreviate("fill", a.at(g.g, g.j)))
    m.update_watermark_values_for_release = decay
    m.n_electrons_released = n_released
    g.attempted = attempted
    with g:
        r = num(m.n_electrons_released_and_captured(N(n), filling, dwell_time=N(t)))
    g.levels(m.watermarks)
    H1 = num(g.n_trapped(m.watermarks, law("dens")))
    if g.enough is not None:
        prove("[C02 C05] the affordable fraction", eq(mul(g.enough, sub(g.attempt, g.start or g.H0)), g.free))
    prove("[C01] the result is the decrease of the electrons held", eq(r, sub(g.H0, H1)))
    prove("[C02] captured at most the free electrons", le(sub(H1, g.H0), n))
    prove("[C02] released at most those held", le(r, g.H0))
    reached(g, m, vs)
    end, f2 = m.watermarks.at(g.g, g.j), at[0] if at else updated(g.j)
    if g.enough is None:
        prove("[C05] capture and release law", eq(end, f2))
    else:
        prove("[C02] exactly the free electrons are captured", eq(sub(H1, g.H0), n))
        u, v = g.limited
        prove("[C05] the fills move the affordable fraction of the way", eq(end, add(v, mul(g.enough, sub(u, v)))))
        prove("[C05] towards the capture and release law", eq(u, f2))
        prove("[C05] from the fills after release, except of merged levels", T.disj(g.merged, eq(v, released(g.j))))
    return m, S, g, n, t, r, xs, W0
