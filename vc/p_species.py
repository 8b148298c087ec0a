"""Superposition of species (C22).  Two managers hold the same levels; every species of the second one has the parameters and the
fills of a species of the first one, mu(j); every species of the first one occurs (nu(j)), and those that stand for one together
have its density: a permutation, a splitting, or both.  Their updates are the same."""
from .proof import *
from . import wm, stubs
from .p_managers import manager, slow, instant, law, TM, TI
from .p_levels import levels, Collapse, column, inherits
from .p_kernels import kernels, U


def mu(j):
    return T.app("mu", j, is_int=True)


def nu(j):
    return T.app("nu", j, is_int=True)


def mapping(S):
    """number of species of the second manager; columns 1..S2 to columns 1..S, and back"""
    S2 = I("S2")
    fact(le(C(1), S2))
    c = ctx()
    inside = lambda j, n: T.conj(le(C(1), j), le(j, n))
    c.forall("mu", lambda j: T.implies(inside(j, S2), inside(mu(j), S)), "mu")
    c.forint(lambda j: T.implies(inside(j, S), T.conj(inside(nu(j), S2), eq(mu(nu(j)), j))), "nu")
    return S2


def mapped(a, S2):
    """the second manager's array"""
    s = a.snap()
    return arrays.Arr.make([a._shape[0], add(S2, C(1))], lambda i, j: T.ite(eq(j, ZERO), s(i, ZERO), s(i, mu(j))))


def same(a, b, S2, what):
    """obligation: array a of the second manager corresponds to array b of the first one"""
    prove(what + ": size", T.conj(eq(a._shape[0], b._shape[0]), eq(a._shape[1], add(S2, C(1)))))
    with sums.case():
        i = sums.arbitrary(ZERO, b._shape[0], "i")
        prove(what + ": volumes", eq(a.at(i, ZERO), b.at(i, ZERO)))
        j = sums.arbitrary(C(1), add(S2, C(1)), "j")
        # what is assumed of mu
        fact(T.conj(le(C(1), mu(j)), le(mu(j), sub(b._shape[1], C(1)))))
        prove(what + ": fills", eq(a.at(i, j), b.at(i, mu(j))))


def second(L, cls, finite, S2):
    """a manager of S2 species, with the parameters of the first one's"""
    of = lambda i: sub(mu(add(i, C(1))), C(1))

    def args(i):
        d = {"density": N(T.app("dens2", i)), "release_timescale": N(T.app("tau", of(i)))}
        if finite:
            d["capture_timescale"] = N(T.app("tauc", of(i)))
        return d
    l = objects.make(L.pkg.Trap if finite else L.pkg.TrapInstantCapture, S2, args)
    return getattr(L.pkg, cls)(traps=l, max_n_transfers=1)


def pair(L, cls):
    finite = cls == "TrapManager"
    m, S = manager(L, cls, finite)
    S2 = mapping(S)
    return m, second(L, cls, finite, S2), S, S2


# ------------------------------------------------------------------ the electrons held

@proof("C22")
def split_species(L):
    """a species split in two: for every contents of the levels, the electrons held are the same"""
    S, p = I("S"), I("p")
    fact(T.conj(le(ZERO, p), lt(p, S)))
    d = lambda j: T.app("dens", j)
    # the part of species p's density that the new last species has
    part = R("part")
    d2 = lambda j: T.ite(eq(j, S), part, T.ite(eq(j, p), sub(d(p), part), d(j)))
    h = lambda j: T.app("in species", T.ite(eq(j, S), p, j))
    s, t = sums.sum_eq("[C22] split", ZERO, S, lambda j: mul(d2(j), h(j)), lambda j: sub(mul(d(j), T.app("in species", j)), T.ite(eq(j, p), mul(part, T.app("in species", p)), ZERO)))
    u = sums.sum_closed("[C22] the part", ZERO, S, lambda j: T.ite(eq(j, p), mul(part, T.app("in species", p)), ZERO), lambda n: T.ite(lt(p, n), mul(part, T.app("in species", p)), ZERO))
    two = sums.total(ZERO, add(S, C(1)), lambda j: mul(d2(j), h(j)))
    one = sums.total(ZERO, S, lambda j: mul(d(j), T.app("in species", j)))
    prove("[C22] the electrons held by the split species", eq(two, one))


@proof("C22")
def swap_species(L):
    """two species swapped (every order is reached by such swaps): for every contents of the levels, the electrons held are the same"""
    S, p, q = I("S"), I("p"), I("q")
    fact(T.conj(le(ZERO, p), lt(p, q), lt(q, S)))
    F = lambda j: T.app("held by", j)
    to = lambda j: T.ite(eq(j, p), q, T.ite(eq(j, q), p, j))
    change = sub(F(q), F(p))
    s, t = sums.sum_eq("[C22] swapped", ZERO, S, lambda j: F(to(j)), lambda j: add(F(j), T.ite(eq(j, p), change, ZERO), T.ite(eq(j, q), sub(ZERO, change), ZERO)))
    sums.sum_closed("[C22] the first", ZERO, S, lambda j: T.ite(eq(j, p), change, ZERO), lambda n: T.ite(lt(p, n), change, ZERO))
    sums.sum_closed("[C22] the second", ZERO, S, lambda j: T.ite(eq(j, q), sub(ZERO, change), ZERO), lambda n: T.ite(lt(q, n), sub(ZERO, change), ZERO))
    prove("[C22] the electrons held by the swapped species", eq(sums.total(ZERO, S, lambda j: F(to(j))), sums.total(ZERO, S, F)))


@proof("C22", functions=[TM + "n_trapped_electrons_from_watermarks", U + "cy_n_trapped_electrons_from_watermarks", TM + "fill_probabilities_from_dwell_time"])
def zero_density(L):
    """one more species, of no density and with any fills and timescales: the electrons held are the same, and so are the other species' probabilities"""
    finite = ctx().decide(T.BApp("slow"))
    cls = "TrapManager" if finite else "TrapManagerInstantCapture"
    m, S = manager(L, cls, finite)
    W, Rn, M, K = levels(S)
    new = lambda i, n, x: T.ite(eq(i, S), R(x), T.app(n, i))

    def args(i):
        d = {"density": N(T.ite(eq(i, S), ZERO, T.app("dens", i))), "release_timescale": N(new(i, "tau", "tau of the new"))}
        if finite:
            d["capture_timescale"] = N(new(i, "tauc", "tauc of the new"))
        return d
    t = R("t")
    for x in (R("tau of the new"), R("tauc of the new"), t):
        pos(x)
    m2 = getattr(L.pkg, cls)(traps=objects.make(L.pkg.Trap if finite else L.pkg.TrapInstantCapture, add(S, C(1)), args), max_n_transfers=1)
    w = W.snap()
    V = arrays.Arr.make([Rn, add(M, C(1))], lambda i, j: T.ite(eq(j, M), T.app("fill of the new", i), w(i, j)))
    d = lambda j: T.ite(eq(j, S), ZERO, T.app("dens", j))
    v = V.snap()
    one = m.n_trapped_electrons_from_watermarks(W)
    two = m2.n_trapped_electrons_from_watermarks(V)
    inner = lambda i: sums.sum_eq("[C22] the other species", C(1), M, lambda j: mul(mul(v(i, ZERO), v(i, j)), d(sub(j, C(1)))), lambda j: mul(mul(w(i, ZERO), w(i, j)), T.app("dens", sub(j, C(1)))))
    sums.sum_eq("[C22] every level", ZERO, Rn, lambda i: sums.total(C(1), add(M, C(1)), lambda j: mul(mul(v(i, ZERO), v(i, j)), d(sub(j, C(1))))),
                lambda i: sums.total(C(1), M, lambda j: mul(mul(w(i, ZERO), w(i, j)), T.app("dens", sub(j, C(1))))), before=inner)
    prove("[C22] the electrons held with a species of no density", eq(num(two), num(one)))
    if finite:
        with sums.case():
            for a, b in zip(m2.fill_probabilities_from_dwell_time(dwell_time=N(t)), m.fill_probabilities_from_dwell_time(dwell_time=N(t))):
                j = sums.arbitrary(ZERO, S, "species")
                prove("[C22] probabilities of the others", eq(a.at(j), b.at(j)))


# ------------------------------------------------------------------ the callees of the updates

@proof("C22", functions=[TM + "make_space_for_new_watermarks"])
def space(L):
    """corresponding arrays correspond after make_space_for_new_watermarks"""
    cls = "TrapManager" if ctx().decide(T.BApp("slow")) else "TrapManagerInstantCapture"
    m, m2, S, S2 = pair(L, cls)
    W, Rn, M, K = levels(S)
    m2.watermarks = mapped(W, S2)
    m.watermarks = W.copy()
    m.make_space_for_new_watermarks()
    m2.make_space_for_new_watermarks()
    same(m2.watermarks, m.watermarks, S2, "[C22] space")


@proof("C22", functions=[U + "cy_update_watermark_volumes_for_cloud_below_highest", U + "roll_2d_vertical_1"])
def split_levels(L):
    """corresponding arrays correspond after a level of them is split"""
    S = I("S")
    fact(le(C(1), S))
    S2 = mapping(S)
    W, Rn, M, K = levels(S)
    v, m = R("v"), I("m")
    fact(T.conj(le(ZERO, m), lt(m, K), lt(K, sub(Rn, C(1)))))
    V, W = mapped(W, S2), W.copy()
    f = kernels(L).cy_update_watermark_volumes_for_cloud_below_highest
    f(W, N(v), N(m))
    f(V, N(v), N(m))
    same(V, W, S2, "[C22] split")


@proof("C22", functions=[TM + "updated_watermarks_from_capture_not_enough"])
def limited(L):
    """corresponding arrays correspond after the fills are limited"""
    cls = "TrapManager" if ctx().decide(T.BApp("slow")) else "TrapManagerInstantCapture"
    m, m2, S, S2 = pair(L, cls)
    W, Rn, M, K = levels(S)
    B, Rn, M, K = levels(S, name="B")
    V, D = mapped(W, S2), mapped(B, S2)
    e = N(R("enough"))
    same(m2.updated_watermarks_from_capture_not_enough(V, D, e), m.updated_watermarks_from_capture_not_enough(W.copy(), B.copy(), e), S2, "[C22] limited")


@proof("C22", functions=[TM + "collapse_redundant_watermarks"])
def merged(L):
    """corresponding arrays correspond after the completely filled levels are merged"""
    copy = ctx().decide(T.BApp("copy"))

    def also(q, L):
        q.S2 = mapping(q.S)
        q.m2 = second(L, "TrapManager", True, q.S2)

        def image(x):
            """the second run takes the minimum of the first one's values, in another order or repeated: it is the same"""
            if len(q.mins) != 1 or not arrays.is_sym_iter(x) or not arrays.is_sym_iter(q.mins[0]):
                return False
            (n, f), (n2, f2) = arrays.iter_parts(q.mins[0]), arrays.iter_parts(x)
            if not ctx().entails(T.conj(eq(n, q.S), eq(n2, q.S2))):
                return False
            with sums.case():
                i = sums.arbitrary(ZERO, q.S2, "i")
                return ctx().entails(eq(f2(i), f(sub(mu(add(i, C(1))), C(1)))))
        q.image = image
        return mapped(q.A, q.S2), None if q.B is None else mapped(q.B, q.S2)
    q = Collapse(L, "TrapManager", copy, also)
    same(q.second[0], q.W2, q.S2, "[C22] merged")
    if copy:
        same(q.second[1], q.B2, q.S2, "[C22] merged, copy")


@proof("C22")
def least_of_species(L):
    """the least of one value for every species is the same for corresponding species"""
    S = I("S")
    fact(le(C(1), S))
    S2 = mapping(S)
    v = lambda i: T.app("v", i, is_int=True)
    one = num(arrays.b_min(arrays.Arr.make([S], lambda i: v(i), "i")))
    two = num(arrays.b_min(arrays.Arr.make([S2], lambda i: v(sub(mu(add(i, C(1))), C(1))), "i")))
    # both are among the values of the first: so it is enough that neither exceeds one of the other's values
    with sums.case():
        j = sums.arbitrary(ZERO, S2, "j")
        prove("[C22] least: no more than any value of the second", le(one, v(sub(mu(add(j, C(1))), C(1)))))
    with sums.case():
        p = sums.arbitrary(ZERO, S, "p")
        ctx().seed(add(p, C(1)), sub(nu(add(p, C(1))), C(1)))
        prove("[C22] least: no more than any value of the first", le(two, v(p)))


@proof("C22", functions=[TM + "fill_probabilities_from_dwell_time", TI + "update_watermark_values_for_release"])
def laws(L):
    """corresponding species have the same probabilities and the same decay of fills"""
    t = R("t")
    pos(t)
    m, m2, S, S2 = pair(L, "TrapManager")
    with sums.case():
        for a, b in zip(m2.fill_probabilities_from_dwell_time(dwell_time=N(t)), m.fill_probabilities_from_dwell_time(dwell_time=N(t))):
            j = sums.arbitrary(ZERO, S2, "species")
            prove("[C22] probabilities", T.conj(eq(a._shape[0], S2), eq(a.at(j), b.at(sub(mu(add(j, C(1))), C(1))))))
    with sums.case():
        m, m2, S, S2 = pair(L, "TrapManagerInstantCapture")
        W, Rn, M, K = levels(S)
        V = mapped(W, S2)
        a, b = [x.update_watermark_values_for_release(w[:, 1:], dwell_time=N(t)) for x, w in ((m2, V), (m, W))]
        i, j = sums.arbitrary(ZERO, Rn, "i"), sums.arbitrary(ZERO, S2, "j")
        prove("[C22] decay", eq(a.at(i, j), b.at(i, sub(mu(add(j, C(1))), C(1)))))


# ------------------------------------------------------------------ the updates

class Species(stubs.Follow):
    """the second manager of corresponding species follows the first one's update"""

    def __init__(self, g, m, S2):
        stubs.Follow.__init__(self, g, m, "[C22] ", lambda a, b, K, what: same(a, b, S2, "[C22] " + what), lambda b, K: mapped(b, S2))
        self.S2 = S2

    def n_trapped(self, w, n):
        """by held: what corresponding levels hold is the same (split_species, swap_species)"""
        r = self.next("n_trapped")
        self.same(w, r["args"][0], None, "n trapped")
        with sums.case():
            j = sums.arbitrary(ZERO, self.S2, "species")
            prove("[C22] n trapped: the densities of the species", eq(n.at(j), T.app("dens2", j)))
        return r["out"]

    def split(self, a, v, k):
        r = self.next("split")
        self.equal(v, r["args"][1], "split: volume")
        self.equal(k, r["args"][2], "split: level")
        self.same(a, r["args"][0], None, "split")
        a.assign(mapped(r["args_after"][0], self.S2))

    def collapse(self, watermarks, watermarks_copy=None):
        r = self.next("collapse")
        self.same(watermarks, r["kw"]["watermarks"], None, "collapse")
        if watermarks_copy is None:
            return mapped(r["out"], self.S2)
        self.same(watermarks_copy, r["kw"]["watermarks_copy"], None, "collapse, copy")
        return tuple(mapped(x, self.S2) for x in r["out"])

    def not_enough(self, watermarks, watermarks_initial, enough):
        r = self.next("not_enough")
        a, b, e = r["args"] if r["args"] else [r["kw"][k] for k in ("watermarks", "watermarks_initial", "enough")]
        self.same(watermarks, a, None, "not enough")
        self.same(watermarks_initial, b, None, "not enough, initial")
        self.equal(enough, e, "not enough: fraction")
        return mapped(r["out"], self.S2)


def followed(L, cls, run, prepare):
    m, S, g, n, t, r, xs, W0 = run(L)
    S2 = mapping(S)
    m2 = second(L, cls, cls == "TrapManager", S2)
    m2.watermarks = mapped(W0, S2)
    prepare(m2, S2, t)
    ys = list(xs)

    def filling(x):
        y, v = ys.pop(0)
        prove("[C22] the same cloud", eq(x, y))
        return N(v)
    with Species(g, m2, S2):
        r2 = num(m2.n_electrons_released_and_captured(N(n), filling, dwell_time=N(t)))
    prove("[C22] the same electrons", eq(r2, r))
    same(m2.watermarks, m.watermarks, S2, "[C22] after the update")


@proof("C22", functions=[TM + "n_electrons_released_and_captured", TM + "_n_electrons_released_and_captured__first_capture",
       TM + "_n_electrons_released_and_captured__cloud_below_watermarks"])
def slow_species(L):
    """an update returns the same for corresponding species, and leaves corresponding levels"""
    def prepare(m2, S2, t):
        def fp(dwell_time):
            prove("[C22] probabilities for the dwell time", eq(dwell_time, t))
            return tuple(arrays.Arr.make([S2], (lambda k: lambda j: T.app(k, sub(mu(add(j, C(1))), C(1))))(k)) for k in ("pe", "pf", "pr"))
        m2.fill_probabilities_from_dwell_time = fp
    followed(L, "TrapManager", slow, prepare)


@proof("C22", functions=[TI + "n_electrons_released_and_captured", TI + "n_electrons_released", TI + "n_electrons_captured",
       TI + "_n_electrons_captured__first_capture", TI + "_n_electrons_captured__cloud_below_watermarks"])
def instant_species(L):
    """the same for instant capture"""
    def prepare(m2, S2, t):
        def decay(values, dwell_time):
            prove("[C22] the decay over the dwell time", eq(dwell_time, t))
            s = values.snap()
            return arrays.Arr.make(values._shape, lambda i, j: T.app("D", sub(mu(add(j, C(1))), C(1)), s(i, j)))
        m2.update_watermark_values_for_release = decay
    followed(L, "TrapManagerInstantCapture", instant, prepare)
