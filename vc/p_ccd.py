"""Contracts of ccd.py  (C07)"""
from .proof import *

FC = ["ccd.CCD.__init__", "ccd.CCD.well_filling_function", "util.set_min_max"]


def param(name, P, as_list):
    if as_list:
        return arrays.SymList(P, lambda i: N(T.app(name, i))), (lambda i: T.app(name, i))
    return N(R(name)), (lambda i: R(name))


def ccd(L, lists=(True, True, True), bloom=None):
    """a CCD of P >= 1 phases and a phase p of it; parameters given as lists or as single values"""
    P, p = I("P"), I("p")
    fact(le(C(1), P))
    fact(le(ZERO, p))
    fact(lt(p, P))
    ctx().seed(p)
    fr = arrays.SymList(P, lambda i: N(T.app("frac", i)))
    fw, fwp = param("full", P, lists[0])
    no, nop = param("notch", P, lists[1])
    be, bep = param("power", P, lists[2])
    c = L.pkg.CCD(fraction_of_traps_per_phase=fr, full_well_depth=fw, well_notch_depth=no, well_fill_power=be)
    F, O, b = fwp(p), nop(p), bep(p)
    nonneg(O)
    fact(lt(O, F))
    pos(b)
    return c, P, p, F, O, b


def volume(n, F, O, b):
    """the spec: 0 in the notch, 1 from a full well on, a power in between"""
    return T.ite(le(n, O), ZERO, T.ite(le(F, n), C(1), core.power(div(sub(n, O), sub(F, O)), b)))


KINDS = [(True, True, True), (False, False, False), (True, False, False), (False, True, False), (False, False, True)]


def law(k):
    def f(L):
        """volume == 0 if n <= notch, 1 if n >= full well, ((n - notch)/(full - notch))^power in between, with the phase's own parameters"""
        c, P, p, F, O, b = ccd(L, KINDS[k])
        n = R("n")
        v = c.well_filling_function(N(p))(N(n))
        prove("law", eq(v, volume(n, F, O, b)))
        prove("in [0,1]", T.conj(le(ZERO, v), le(v, C(1))))
    f.__name__ = "well_filling_law_%s" % "".join("LS"[not x] for x in KINDS[k])
    return f


for _k in range(len(KINDS)):
    proof("C07", functions=FC)(law(_k))


@proof("C07", functions=FC)
def default_phase(L):
    """the default phase is 0"""
    c, P, p, F, O, b = ccd(L)
    fact(T.eq(p, ZERO))
    n = R("n")
    prove("default", eq(c.well_filling_function()(N(n)), c.well_filling_function(N(p))(N(n))))
    prove("default 2", eq(c.cloud_fractional_volume_from_n_electrons_and_phase(N(n)), c.well_filling_function(N(p))(N(n))))


@proof("C07", functions=FC)
def monotone(L):
    """n <= n' implies volume(n) <= volume(n'); a cloud above the notch has positive volume"""
    c, P, p, F, O, b = ccd(L)
    n, m = R("n"), R("m")
    fact(le(n, m))
    f = c.well_filling_function(N(p))
    a, d = num(f(N(n))), num(f(N(m)))
    x, y = R("x"), R("y")
    iv = div(C(1), sub(F, O))
    prove("ratio", T.implies(le(n, m), le(mul(sub(n, O), iv), mul(sub(m, O), iv))))
    prove("monotone", le(a, d))
    prove("positive above the notch", T.implies(lt(O, n), lt(ZERO, a)))


@proof("C07", functions=FC + ["ccd.CCD.cloud_fractional_volume_from_n_electrons_and_phase", "ccd.CCDPhase.__init__"])
def three_ways(L):
    """CCD.cloud_fractional_volume_from_n_electrons_and_phase, well_filling_function and CCDPhase agree"""
    c, P, p, F, O, b = ccd(L)
    n = R("n")
    v = c.well_filling_function(N(p))(N(n))
    prove("by phase", eq(c.cloud_fractional_volume_from_n_electrons_and_phase(N(n), N(p)), v))
    h = L.pkg.CCDPhase(c, N(p))
    prove("by CCDPhase", eq(h.cloud_fractional_volume_from_n_electrons(N(n)), v))
    prove("phase full well", eq(h.full_well_depth, F))
    prove("phase notch", eq(h.well_notch_depth, O))
    prove("phase power", eq(h.well_fill_power, b))
    prove("phase fraction", eq(h.fraction_of_traps_per_phase, T.app("frac", p)))


@proof("C07", functions=["ccd.CCD.__init__"])
def parameters(L):
    """single values are replicated to every phase, lists are kept, the bloom level defaults to the full well"""
    for k in ((True, True, True), (False, False, False)):
        with sums.case():
            c, P, p, F, O, b = ccd(L, k)
            prove("phases", eq(c.n_phases, P))
            prove("full well", eq(c.full_well_depth[N(p)], F))
            prove("notch", eq(c.well_notch_depth[N(p)], O))
            prove("power", eq(c.well_fill_power[N(p)], b))
            prove("bloom", eq(c.well_bloom_level[N(p)], F))
            prove("fraction", eq(c.fraction_of_traps_per_phase[N(p)], T.app("frac", p)))


@proof("C07", functions=["ccd.CCD.__init__", "ccd.CCD.well_filling_function"])
def single_phase(L):
    """a CCD given numbers only has one phase with these parameters"""
    F, O, b, n = R("full"), R("notch"), R("power"), R("n")
    nonneg(O)
    fact(lt(O, F))
    pos(b)
    c = L.pkg.CCD(full_well_depth=N(F), well_notch_depth=N(O), well_fill_power=N(b))
    prove("one phase", eq(c.n_phases, C(1)))
    prove("law", eq(c.well_filling_function()(N(n)), volume(n, F, O, b)))
    d = L.pkg.CCD(fraction_of_traps_per_phase=N(R("frac")), full_well_depth=N(F), well_notch_depth=N(O), well_fill_power=N(b))
    prove("law 2", eq(d.well_filling_function(0)(N(n)), volume(n, F, O, b)))
