"""Contracts of the species with a continuum of release lifetimes (traps.py), C23.

scipy's quadrature and root searches are dependencies under assumed contracts: quad(f, 0, inf, args) is the integral of f, which is linear and
monotone in f and unchanged by substitution; brentq(g, a, b), called where g changes its sign, is a root between a and b; fsolve is a root."""
from fractions import Fraction
from .proof import *

AB = "traps.TrapLifetimeContinuumAbstract."
LN = "traps.TrapLogNormalLifetimeContinuum."
mu, sigma, dens = R("mu"), R("sigma"), R("density")
DIST = lambda x: T.app("DIST", num(x), mu, sigma)


def decay(x, t):
    return exp(T.scale(div(t, x), -1))


class Integrals:
    """the contract of quad: a call is an unknown number, together with the integrand it stands for"""

    def __init__(self, L):
        self.calls = []
        L.scipy.clear()
        L.scipy["quad"] = self.quad

    def quad(self, f, a, b, args=(), **k):
        if k.keys() - {"epsabs", "epsrel", "limit"} or arrays.xlift(b).pinf != T.TRUE or num(a) != ZERO:
            raise Unsupported("quadrature with other limits")
        u = R("u")
        v = T.fresh("integral")
        self.calls.append((v, num(f(N(u), *(args if isinstance(args, tuple) else (args,))))))
        return (N(v), N(T.fresh("error")))

    def the(self, name, value, spec):
        """value is the integral of spec over all lifetimes (or a substitution x = mu u of it)"""
        d = [b for v, b in self.calls if v == num(value)]
        if not d:
            raise Unsupported("not the value of one quadrature")
        u = R("u")
        for x, dx in ((mul(mu, u), mu), (u, C(1))):
            c = eq(d[0], mul(dx, spec(x)))
            if ctx().entails(c):
                break
        else:
            c = eq(d[0], mul(mu, spec(mul(mu, u))))
        prove(name, c)


def setting(L):
    pos(mu, sigma, R("u"))
    nonneg(dens)
    q = Integrals(L)
    f = lambda x, m, s: N(T.app("DIST", num(x), num(m), num(s)))
    return q, L.pkg.TrapLifetimeContinuumAbstract(N(dens), f, N(mu), N(sigma))


@proof("C23", functions=[AB + "__init__", AB + "fill_fraction_from_time_elapsed"])
def average(L):
    """the fill fraction after a time is the integral over all lifetimes x of the density at x times exp(-t/x)"""
    q, s = setting(L)
    t = R("t")
    nonneg(t)
    q.the("the integrand is the density times the decay", s.fill_fraction_from_time_elapsed(N(t)), lambda x: mul(DIST(x), decay(x, t)))
    q.the("at time zero it is the density", s.fill_fraction_from_time_elapsed(N(ZERO)), DIST)
    prove("density of traps", eq(s.density, dens))
    prove("instant capture", eq(s.capture_timescale, ZERO))
    # the integral is monotone, so that these order the fill fractions; the density integrates to 1
    x, d = R("x"), R("d")
    pos(x, d)
    fact(le(ZERO, DIST(x)))
    a, b = mul(DIST(x), decay(x, t)), mul(DIST(x), decay(x, add(t, d)))
    prove("integrand not negative and at most the density", T.conj(le(ZERO, a), le(a, DIST(x))))
    prove("integrand at a later time is the less, by the decay over the time between", eq(b, mul(a, decay(x, d))))
    prove("the decay is between 0 and 1", T.conj(lt(ZERO, decay(x, d)), lt(decay(x, d), C(1))))


@proof("C23", functions=[AB + "electrons_released_from_time_elapsed_and_dwell_time", "traps.Trap.electrons_released_from_electrons_and_dwell_time"])
def released(L):
    """what is released in [t, t+d] is the fill at t less the fill at t+d; from a number of electrons it is that number less its fill after the time"""
    q, s = setting(L)
    t, d, e = R("t"), R("d"), R("e")
    nonneg(t, d, e)
    fill = lambda v: lambda x: mul(DIST(x), decay(x, v))
    q.the("released fraction", s.electrons_released_from_time_elapsed_and_dwell_time(N(t), N(d)), lambda x: sub(fill(t)(x), fill(add(t, d))(x)))
    q.the("default dwell time", s.electrons_released_from_time_elapsed_and_dwell_time(N(t)), lambda x: sub(fill(t)(x), fill(add(t, C(1)))(x)))
    q.calls.clear()
    r = s.electrons_released_from_electrons_and_dwell_time(N(e), N(d))
    if len(q.calls) != 1:
        raise Unsupported("released electrons by %d quadratures" % len(q.calls))
    v = N(q.calls[0][0])
    q.the("the fill after the dwell time", v, fill(d))
    prove("released and remaining electrons", eq(add(r, mul(e, v)), e))


@proof("C23", functions=[LN + "__init__", LN + "log_normal_distribution", AB + "fill_fraction_from_time_elapsed"])
def log_normal(L):
    """the density is exp(-(ln x - ln median)^2 / 2 sigma^2) / (x sigma sqrt(2 pi)), with the median and width of the constructor, and positive"""
    pos(mu, sigma, R("u"))
    nonneg(dens)
    q = Integrals(L)
    s = L.pkg.TrapLogNormalLifetimeContinuum(N(dens), N(mu), N(sigma))
    k = num(arrays.NP.sqrt(2 * arrays.NP.pi))
    pos(k)
    x, t = R("u"), R("t")
    nonneg(t)
    g = num(s.distribution_of_traps_with_lifetime(N(x), N(mu), N(sigma)))
    z = div(sub(core.log(x), core.log(mu)), sigma)
    E = exp(T.scale(mul(z, z), Fraction(-1, 2)))
    prove("log-normal density", eq(mul(g, x, sigma, k), E))
    prove("positive", lt(ZERO, E))
    v = s.fill_fraction_from_time_elapsed(N(t))

    def pdf(x):
        z = div(sub(core.log(x), core.log(mu)), sigma)
        return div(exp(T.scale(mul(z, z), Fraction(-1, 2))), mul(x, sigma, k))
    q.the("the average is that over the log-normal density", v, lambda x: mul(pdf(x), decay(x, t)))
    prove("density of traps", eq(s.density, dens))


class Law:
    """the contract of fill_fraction_from_time_elapsed: 1 at time 0, positive, falling strictly"""

    def __init__(self):
        self.seen = []

    def __call__(self, t):
        t = num(t)
        v = C(1) if t == ZERO else T.app("FILL", t)
        if not any(t == a for a, _ in self.seen):
            pairs = self.seen or [(ZERO, C(1))]
            for a, b in pairs:
                fact(T.conj(T.implies(lt(t, a), lt(b, v)), T.implies(lt(a, t), lt(v, b)), T.implies(eq(a, t), eq(v, b))))
            fact(lt(ZERO, v))
            self.seen = pairs + [(t, v)]
        return N(v)


@proof("C23", "C01", "C02", "C03", "C05", functions=[AB + "time_elapsed_from_fill_fraction"])
def inverse(L):
    """for a fill fraction in (0, 1] the elapsed time is not negative and the fill fraction at it is the given one; against the contract of the fill
    fraction (1 at time zero, positive, falling strictly) and those of the root searches"""
    q, s = setting(L)
    law = Law()
    s.fill_fraction_from_time_elapsed = law
    law(ZERO)
    f = R("f")
    fact(T.conj(lt(ZERO, f), le(f, C(1))))

    def root(g, lo=None, hi=None):
        r = T.fresh("root")
        if hi is not None:
            fact(T.disj(T.conj(le(lo, r), le(r, hi)), T.conj(le(hi, r), le(r, lo))))
        fact(eq(g(N(r)), ZERO))
        return r

    def brentq(g, a, b, **k):
        prove("[C23] the root is bracketed", T.disj(T.conj(le(ZERO, g(a)), le(g(b), ZERO)), T.conj(le(ZERO, g(b)), le(g(a), ZERO))))
        return N(root(g, num(a), num(b)))

    L.scipy["brentq"] = brentq
    L.scipy["fsolve"] = lambda g, x0, **k: arrays.NP.array([N(root(g))])
    t = num(s.time_elapsed_from_fill_fraction(N(f)))
    prove("[C23] the fill at the time is the given one", eq(law(t), f))
    prove("[C23] the time is not negative", le(ZERO, t))
