"""Contracts of traps.py and of TrapManager.fill_probabilities_from_dwell_time  (C04, C06)"""
from .proof import *


def species(L, cls="Trap", **over):
    """a species with arbitrary parameters in the constructor's domain"""
    k = {"density": N(R("density")), "release_timescale": N(R("tau"))}
    pos(R("tau"))
    nonneg(R("density"))
    if cls == "Trap":
        k["capture_timescale"] = N(R("tauc"))
        nonneg(R("tauc"))
    k.update(over)
    return getattr(L.pkg, cls)(**k)


def two(f):
    """the same contract for both ordinary species classes"""
    def g(L):
        for cls in ("Trap", "TrapInstantCapture"):
            with sums.case():
                f(L, cls)
    g.__doc__, g.__name__ = f.__doc__, f.__name__
    return g


FT = ["traps.Trap.__init__", "traps.TrapInstantCapture.__init__"]


@proof("C06", functions=FT)
def rates(L):
    """emission_rate * release_timescale == 1; capture_rate is the reciprocal of capture_timescale, infinite when that is 0"""
    t = species(L)
    prove("emission rate", eq(mul(t.emission_rate, R("tau")), C(1)))
    if core.cond(T.eq(R("tauc"), ZERO)) in ctx().conds:
        x = arrays.xlift(t.capture_rate)
        prove("infinite capture rate", x.pinf)
    else:
        prove("capture rate", eq(mul(t.capture_rate, R("tauc")), C(1)))
    prove("density kept", eq(t.density, R("density")))
    prove("release timescale kept", eq(t.release_timescale, R("tau")))
    prove("capture timescale kept", eq(t.capture_timescale, R("tauc")))


@proof("C06", functions=FT)
def rates_instant(L):
    """TrapInstantCapture: capture time zero, infinite capture rate, emission rate the reciprocal of the release time"""
    t = species(L, "TrapInstantCapture")
    prove("emission rate", eq(mul(t.emission_rate, R("tau")), C(1)))
    prove("capture rate", arrays.xlift(t.capture_rate).pinf)
    prove("capture timescale", eq(t.capture_timescale, ZERO))
    prove("density kept", eq(t.density, R("density")))


@proof("C06", "C21", functions=["traps.Trap.fill_fraction_from_time_elapsed"])
@two
def decay(L, cls):
    """fill_fraction_from_time_elapsed(t) == exp(-t / release_timescale)"""
    t = species(L, cls)
    x = R("t")
    prove("decay", eq(t.fill_fraction_from_time_elapsed(N(x)), exp(T.scale(div(x, R("tau")), -1))))
    prove("starts at 1", eq(t.fill_fraction_from_time_elapsed(N(ZERO)), C(1)))


@proof("C06", "C21", functions=["traps.Trap.time_elapsed_from_fill_fraction", "traps.Trap.fill_fraction_from_time_elapsed"])
@two
def inverse(L, cls):
    """time_elapsed_from_fill_fraction and fill_fraction_from_time_elapsed are inverse to each other"""
    t = species(L, cls)
    x, f = R("t"), R("f")
    prove("time of fill of time", eq(t.time_elapsed_from_fill_fraction(t.fill_fraction_from_time_elapsed(N(x))), x))
    fact(lt(ZERO, f))
    prove("fill of time of fill", eq(t.fill_fraction_from_time_elapsed(t.time_elapsed_from_fill_fraction(N(f))), f))


@proof("C01", "C02", "C03", "C05", "C06", "C20", "C21", functions=["traps.Trap.fill_fraction_from_time_elapsed", "traps.Trap.time_elapsed_from_fill_fraction"])
@two
def species_contract(L, cls):
    """what the time-tracking manager's proof assumes of a species: the fill is positive, at most 1, 1 exactly at time 0, and the
    time of a fill in (0, 1] is not negative and leads back to it"""
    t = species(L, cls)
    x, f = R("t"), R("f")
    nonneg(x)
    a = t.fill_fraction_from_time_elapsed(N(x))
    prove("positive", lt(ZERO, a))
    prove("at most 1", le(a, C(1)))
    prove("1 exactly at time 0", T.iff(eq(a, C(1)), eq(x, ZERO)))
    fact(T.conj(lt(ZERO, f), le(f, C(1))))
    g = t.time_elapsed_from_fill_fraction(N(f))
    prove("time is not negative", le(ZERO, g))
    prove("fill of time of fill", eq(t.fill_fraction_from_time_elapsed(g), f))
    d = R("d")
    nonneg(d)
    b = t.fill_fraction_from_time_elapsed(N(add(x, d)))
    prove("never rises", le(b, a))
    prove("the decay of a fill", eq(b, mul(a, exp(T.scale(div(d, R("tau")), -1)))))


@proof("C06", functions=["traps.Trap.electrons_released_from_electrons_and_dwell_time"])
@two
def released_plus_remaining(L, cls):
    """electrons released in a dwell time + electrons * fill fraction left == electrons; released in [0, electrons]"""
    t = species(L, cls)
    e, d = R("e"), R("d")
    rel = t.electrons_released_from_electrons_and_dwell_time(N(e), N(d))
    prove("released + remaining", eq(add(rel, mul(e, exp(T.scale(div(d, R("tau")), -1)))), e))
    one = t.electrons_released_from_electrons_and_dwell_time(N(e))
    prove("default dwell time", eq(add(one, mul(e, exp(T.scale(div(C(1), R("tau")), -1)))), e))


@proof("C06", functions=["traps.Trap.electrons_released_from_time_elapsed_and_dwell_time"])
@two
def released_fractions_add(L, cls):
    """the fraction released in [t, t+d] is fill(t) - fill(t+d); fractions over successive times add up"""
    t = species(L, cls)
    x, d, g = R("t"), R("d"), R("g")
    r = lambda a, b: num(t.electrons_released_from_time_elapsed_and_dwell_time(N(a), N(b)))
    fill = lambda a: exp(T.scale(div(a, R("tau")), -1))
    prove("released fraction", eq(r(x, d), sub(fill(x), fill(add(x, d)))))
    prove("successive", eq(add(r(x, d), r(add(x, d), g)), r(x, add(d, g))))


# ------------------------------------------------------------------ C04

def manager(L, rates):
    """a manager with one species whose rates are arbitrary (the object is made without its constructor)"""
    m = object.__new__(L.pkg.TrapManager)
    m.capture_rates, m.emission_rates, m.total_rates = rates
    return m


FP = ["trap_managers.TrapManager.fill_probabilities_from_dwell_time"]


def managed(L, finite=True):
    """TrapManager of S >= 1 arbitrary species, by the real constructors"""
    S = I("S")
    fact(le(C(1), S))
    f = lambda n: (lambda i: T.app(n, i))
    cls = L.pkg.Trap if finite else L.pkg.TrapInstantCapture
    c = ctx()
    c.forall("tau", lambda i: lt(ZERO, T.app("tau", i)), "tau")
    c.forall("tauc", lambda i: lt(ZERO, T.app("tauc", i)), "tauc")
    c.forall("dens", lambda i: le(ZERO, T.app("dens", i)), "dens")

    def args(i):
        d = {"density": N(T.app("dens", i)), "release_timescale": N(T.app("tau", i))}
        if finite:
            d["capture_timescale"] = N(T.app("tauc", i))
        return d
    l = objects.make(cls, S, args)
    return L.pkg.TrapManager(traps=l, max_n_transfers=1), S


def law(L, finite):
    m, S = managed(L, finite)
    j = sums.arbitrary(ZERO, S, "s")
    e = div(C(1), T.app("tau", j))
    c = div(C(1), T.app("tauc", j))
    pos(e)
    if finite:
        pos(c)
    return m, j, c, e


@proof("C04", functions=FP + ["trap_managers.TrapManager.__init__"])
def two_rate_law(L):
    """slow capture, every species j: empty -> c(1-exp(-(c+e)t))/(c+e), full -> 1-e(1-exp(-(c+e)t))/(c+e), release exp(-e t)"""
    m, j, c, e = law(L, True)
    t = R("t")
    nonneg(t)
    fe, ff, fr = m.fill_probabilities_from_dwell_time(N(t))
    E = exp(T.scale(mul(add(c, e), t), -1))
    prove("(c+e) * from empty", eq(mul(fe.at(j), add(c, e)), mul(c, sub(C(1), E))))
    prove("(c+e) * (1 - from full)", eq(mul(sub(C(1), ff.at(j)), add(c, e)), mul(e, sub(C(1), E))))
    prove("release", eq(fr.at(j), exp(T.scale(mul(e, t), -1))))
    # bounds, from the law
    k, x = R("k"), R("x")
    with sums.case():
        A, Bf = fe.at(j), ff.at(j)
        q = R("q")
        fact(eq(mul(q, add(c, e)), sub(C(1), E)))
        prove("release in [0,1]", T.conj(le(ZERO, fr.at(j)), le(fr.at(j), C(1))))
        prove("exp in (0,1]", T.conj(lt(ZERO, E), le(E, C(1))))
    cc, ee, EE, a, b = R("cc"), R("ee"), R("EE"), R("aa"), R("bb")
    with sums.case():
        pos(cc, ee, EE)
        fact(le(EE, C(1)))
        fact(eq(mul(a, add(cc, ee)), mul(cc, sub(C(1), EE))))
        fact(eq(mul(sub(C(1), b), add(cc, ee)), mul(ee, sub(C(1), EE))))
        prove("bounds follow from the law", T.conj(le(ZERO, a), le(a, C(1)), le(ZERO, b), le(b, C(1)), le(a, b)))
    if ctx().entails(eq(t, ZERO)):
        prove("zero dwell", T.TRUE)


@proof("C04", functions=FP)
def zero_dwell(L):
    """zero dwell time changes nothing when capture takes time"""
    m, j, c, e = law(L, True)
    fe, ff, fr = m.fill_probabilities_from_dwell_time(N(ZERO))
    prove("from empty", eq(fe.at(j), ZERO))
    prove("from full", eq(ff.at(j), C(1)))
    prove("release", eq(fr.at(j), C(1)))


@proof("C04", functions=FP)
def composition(L):
    """two successive dwell times compose to their sum"""
    m, j, c, e = law(L, True)
    t, u = R("t"), R("u")
    nonneg(t, u)
    p = [[a.at(j) for a in m.fill_probabilities_from_dwell_time(N(x))] for x in (t, u, add(t, u))]
    # occupancy f -> full*f + empty*(1-f)
    E = [exp(T.scale(mul(add(c, e), x), -1)) for x in (t, u, add(t, u))]
    prove("exponential of the sum", eq(E[2], mul(E[0], E[1])))
    s = add(c, e)
    q = [R("q0"), R("q1"), R("q2")]
    k = R("k")          # 1/(c+e)
    pos(k)
    for x, y in zip(p, E):
        # p = affine in E, by the law
        prove("law, empty", eq(mul(x[0], s), mul(c, sub(C(1), y))))
        prove("law, full", eq(mul(sub(C(1), x[1]), s), mul(e, sub(C(1), y))))
    cc, ee = R("cc"), R("ee")
    pos(cc, ee)
    a = [R("a%d" % i) for i in range(3)]
    b = [R("b%d" % i) for i in range(3)]
    F = [R("F%d" % i) for i in range(3)]
    with sums.case():
        ik = div(C(1), add(cc, ee))
        fact(eq(F[2], mul(F[0], F[1])))
        A = [mul(cc, sub(C(1), y), ik) for y in (F[0], F[1], mul(F[0], F[1]))]
        Bf = [sub(C(1), mul(ee, sub(C(1), y), ik)) for y in (F[0], F[1], mul(F[0], F[1]))]
        prove("empty composes", eq(add(mul(Bf[1], A[0]), mul(A[1], sub(C(1), A[0]))), A[2]))
        prove("full composes", eq(add(mul(Bf[1], Bf[0]), mul(A[1], sub(C(1), Bf[0]))), Bf[2]))
    prove("release composes", eq(mul(p[0][2], p[1][2]), p[2][2]))


@proof("C04", functions=FP)
def instant_capture(L):
    """zero capture time: capture probability 1 from empty and from full, release exp(-e t)"""
    m, j, c, e = law(L, False)
    t = R("t")
    pos(t)
    fe, ff, fr = m.fill_probabilities_from_dwell_time(N(t))
    prove("from empty", eq(finite("from empty", fe.at(j)), C(1)))
    prove("from full", eq(finite("from full", ff.at(j)), C(1)))
    prove("release", eq(fr.at(j), exp(T.scale(mul(e, t), -1))))
    prove("release in [0,1]", T.conj(le(ZERO, fr.at(j)), le(fr.at(j), C(1))))


@proof("C05", "C06", "C21", functions=["trap_managers.TrapManagerInstantCapture.update_watermark_values_for_release",
       "trap_managers.TrapManagerTrackTime.update_watermark_values_for_release", "trap_managers.TrapManager.fill_probabilities_from_dwell_time"])
def decays(L):
    """the decay in a dwell time: fills are multiplied by exp(-t / release_timescale), times since filling grow by t"""
    m, S = species_list(L)
    t = R("t")
    pos(t)
    n = I("n")
    nonneg(n)
    V = arrays.Arr.make([n, S], lambda i, j: T.app("V", i, j))
    for cls in ("TrapManagerInstantCapture", "TrapManagerTrackTime"):
        with sums.case():
            g = getattr(L.pkg, cls)(traps=m, max_n_transfers=1)
            W = g.update_watermark_values_for_release(V, N(t))
            i, j = sums.arbitrary(ZERO, n, "i"), sums.arbitrary(ZERO, S, "j")
            v = T.app("V", i, j)
            if cls == "TrapManagerInstantCapture":
                prove("fills decay", eq(W.at(i, j), mul(v, exp(T.scale(div(t, T.app("tau", j)), -1)))))
            else:
                prove("times grow", eq(W.at(i, j), add(v, t)))


def species_list(L):
    S = I("S")
    fact(le(C(1), S))
    ctx().forall("tau", lambda i: lt(ZERO, T.app("tau", i)), "tau")
    return objects.make(L.pkg.TrapInstantCapture, S, lambda i: {"density": N(T.app("dens", i)), "release_timescale": N(T.app("tau", i))}), S
