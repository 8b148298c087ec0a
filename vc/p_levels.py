"""What the stand-ins of stubs.py assume is proved here from the bodies of the functions that they stand for."""
from .proof import *
from . import wm, stubs
from .p_kernels import kernels, U
from .p_managers import manager, TM

ALL = ("C01", "C02", "C03", "C05", "C20")


def levels(S=None, fills=True, name="W"):
    """an arbitrary array with K occupied levels"""
    if S is None:
        S = I("S")
        fact(le(C(1), S))
    Rn, K, M = I("rows"), I("K"), add(S, C(1))
    nonneg(K)
    fact(lt(K, Rn))
    ctx().seed(K, ZERO)
    ctx().forall("dens", lambda i: le(ZERO, T.app("dens", i)), "dens")
    W = wm.arr(name, Rn, M)
    wm.physical(W, K, name, fills)
    return W, Rn, M, K


def column(a):
    s = a.snap()
    return lambda k: s(k, ZERO)


def grows(a, lo, hi):
    """lemma: the volume does not decrease from level lo to level hi, where lo <= hi"""
    f = column(a)
    lo, hi = num(lo), num(hi)
    fact_ = T.le(lo, hi)
    with sums.case():
        fact(fact_)
        with sums.case():
            b = sums.arbitrary(lo, hi)
            prove("volumes are not negative", le(ZERO, f(b)))
        t = sums.total(lo, hi, f)
    fact(T.implies(fact_, T.conj(le(ZERO, t), eq(t, sub(sums.total(ZERO, hi, f), sums.total(ZERO, lo, f))))))


@proof(*ALL)
def lemma_levels(L):
    """consequences of K levels of positive volume and empty rows after them"""
    W, Rn, M, K = levels()
    s = W.snap()
    sums.sum_eq("unused rows have no volume", K, Rn, column(W), lambda k: ZERO)
    inner = lambda i: sums.total(C(1), M, lambda j: mul(s(i, ZERO), s(i, j), wm.dens(sub(j, C(1)))))
    sums.sum_eq("an unused row is empty", C(1), M, lambda j: mul(s(K, j), wm.dens(sub(j, C(1)))), lambda j: ZERO)
    with sums.case():
        fact(eq(K, ZERO))
        sums.sum_eq("nothing in a row", ZERO, Rn, inner, lambda i: ZERO,
                    lambda i: sums.sum_eq("nothing in a cell", C(1), M, lambda j: mul(s(i, ZERO), s(i, j), wm.dens(sub(j, C(1)))), lambda j: ZERO))
        ok = prove("no levels hold nothing", eq(wm.held(W, wm.dens), ZERO))
    fact(T.implies(eq(K, ZERO), eq(wm.held(W, wm.dens), ZERO)))
    with sums.case():
        fact(lt(ZERO, K))
        grows(W, ZERO, sub(K, C(1)))
        ctx().seed(sub(K, C(1)))
        prove("levels have volume", lt(ZERO, wm.cum(W, K)))
    fact(T.implies(lt(ZERO, K), lt(ZERO, wm.cum(W, K))))
    sums.sum_nonneg("a row holds no less than nothing", ZERO, Rn, inner,
                    lambda i: sums.sum_nonneg("a cell holds no less than nothing", C(1), M, lambda j: mul(s(i, ZERO), s(i, j), wm.dens(sub(j, C(1))))))
    stubs.obligations("levels", stubs.consequences(W, K, wm.dens))


def at_depth(W, K):
    x, g = R("x"), I("g")
    pos(x)
    nonneg(g)
    stubs.facts(stubs.depth(W, K, g, x))
    ctx().seed(g, add(g, C(1)))
    return x, g


@proof(*ALL)
def lemma_depth(L):
    """the depth x and the level that holds it"""
    W, Rn, M, K = levels()
    x, g = at_depth(W, K)
    grows(W, add(g, C(1)), K)
    stubs.obligations("depth", stubs.depth_within(W, K, g, x))
    r = I("r")
    nonneg(r)
    ctx().seed(r, add(r, C(1)))
    fact(lt(r, Rn))
    for a, b in ((add(r, C(1)), g), (add(g, C(1)), r), (add(g, C(1)), add(r, C(1))), (r, g), (add(r, C(1)), K)):
        grows(W, a, b)
    stubs.obligations("depth", stubs.depth_beside(W, K, g, x, r))


@proof(*ALL)
def lemma_depth_exists(L):
    """levels split the depths: a depth between the volumes up to two levels is held by a level in between (by induction)"""
    W, Rn, M, K = levels()
    x = R("x")
    pos(x)
    # the first level u with x <= cum(u + 1), or K: found by counting up from 0
    u = I("u")
    nonneg(u)
    fact(le(u, K))
    ctx().seed(u)
    prove("start", lt(wm.cum(W, ZERO), x))
    with sums.case():
        fact(lt(wm.cum(W, u), x))
        fact(lt(u, K))
        with sums.case():
            fact(lt(wm.cum(W, add(u, C(1))), x))
            prove("step: the next level", T.conj(le(add(u, C(1)), K), lt(wm.cum(W, add(u, C(1))), x)))
        with sums.case():
            fact(le(x, wm.cum(W, add(u, C(1)))))
            stubs.obligations("found", stubs.depth(W, K, u, x))
    with sums.case():
        fact(lt(wm.cum(W, u), x))
        fact(eq(u, K))
        stubs.obligations("deeper than all", stubs.depth(W, K, u, x))


@proof("C03", "C05", "C20", functions=[U + "cy_watermark_index_above_cloud_from_cloud_fractional_volume"])
def index_above(L):
    """the contract that stands for the kernel"""
    W, Rn, M, K = levels()
    v = R("v")
    pos(v)
    r = num(kernels(L).cy_watermark_index_above_cloud_from_cloud_fractional_volume(N(v), W, N(sub(K, C(1)))))
    A = wm.arr("W", Rn, M)
    stubs.facts(stubs.consequences(A, K, wm.dens))
    ctx().seed(sub(Rn, C(1)), sub(K, C(1)))
    with sums.case():
        fact(lt(wm.cum(A, K), v))
        prove("above all levels", eq(r, K))
    with sums.case():
        fact(le(v, wm.cum(A, K)))
        ctx().seed(r, sub(r, C(1)))
        grows(A, K, r)
        stubs.obligations("above", stubs.above_post(A, K, v, r))


@proof("C03", "C05", "C20", functions=[U + "cy_value_in_cumsum"])
def value_in_cumsum(L):
    """the contract that stands for the kernel: v is a partial sum exactly if it is that of the first level that reaches it"""
    W, Rn, M, K = levels()
    A = wm.arr("W", Rn, M)
    v, r = R("v"), I("r")
    pos(v)
    stubs.facts(stubs.consequences(A, K, wm.dens))
    fact(T.conj(le(ZERO, r), lt(r, Rn)))
    r1 = add(r, C(1))
    fact(le(v, wm.cum(A, r1)))
    fact(T.implies(lt(ZERO, r), lt(wm.cum(A, r), v)))
    ctx().seed(r, r1)
    z = num(kernels(L).cy_value_in_cumsum(N(v), W[:, 0]))
    if z.const() == 0:
        prove("not a partial sum", T.neg(eq(v, wm.cum(A, r1))))
    else:
        prove("0 or 1", eq(z, C(1)))
        with sums.case():
            fact(T.neg(eq(v, wm.cum(A, r1))))

            def none(i):
                return T.implies(T.conj(le(ZERO, i), lt(i, Rn)), T.neg(eq(v, wm.cum(A, add(i, C(1))))))
            # no partial sum equals v, which contradicts the result
            with sums.case():
                i = sums.arbitrary(ZERO, Rn, "i")
                ctx().seed(add(i, C(1)))
                grows(A, add(i, C(1)), r)
                grows(A, r1, add(i, C(1)))
                prove("no partial sum", none(i))
            ctx().forint(none, "none")
            prove("a partial sum", FALSE)


def physical(a, K, what, fills=True, before=None):
    """obligations: the first K levels have positive volume and fills in [0, 1], the others are empty"""
    Rn, M = a._shape
    with sums.case():
        i, j = sums.arbitrary(ZERO, Rn, "i"), sums.arbitrary(ZERO, M, "j")
        with sums.case():
            fact(lt(i, K))
            prove("[C03] " + what + ": levels have volume", lt(ZERO, a.at(i, ZERO)))
            if fills:
                with sums.case():
                    fact(lt(ZERO, j))
                    if before:
                        before(j)
                    x = a.at(i, j)
                    prove("[C03] " + what + ": fills", T.conj(le(ZERO, x), le(x, C(1))))
        with sums.case():
            fact(le(K, i))
            prove("[C03] " + what + ": unused rows are empty", eq(a.at(i, j), ZERO))


def row(a, A, g, g1, M, what):
    with sums.case():
        j = sums.arbitrary(C(1), M, "j")
        prove("[C05] " + what + ": the fills at depth x", eq(A.at(g1, j), a.at(g, j)))


@proof("C01", "C02", "C03", "C05", functions=[U + "cy_update_watermark_volumes_for_cloud_below_highest", U + "roll_2d_vertical_1"])
def split_contract(L):
    """the contract that stands for the kernel: electrons, volumes and the fills at every depth"""
    W, Rn, M, K = levels()
    A = wm.arr("W", Rn, M)
    v, m = R("v"), I("m")
    m1 = add(m, C(1))
    fact(T.conj(le(ZERO, m), lt(m, K), lt(K, sub(Rn, C(1)))))
    fact(T.conj(lt(wm.cum(A, m), v), lt(v, wm.cum(A, m1))))
    ctx().seed(m, m1, sub(Rn, C(1)), add(K, C(1)))
    stubs.facts(stubs.consequences(A, K, wm.dens))
    x, g = at_depth(A, K)
    stubs.facts(stubs.depth_within(A, K, g, x))
    stubs.facts(stubs.depth_beside(A, K, g, x, m))
    kernels(L).cy_update_watermark_volumes_for_cloud_below_highest(W, N(v), N(m))
    prove("[C01 C02] electrons", eq(wm.held(W, wm.dens), wm.held(A, wm.dens)))
    physical(W, add(K, C(1)), "split")
    stubs.obligations("[C03 C05] split", stubs.split_post(A, W, K, v, m))
    for name, case, g1 in (("below", lt(g, m), g), ("above", lt(m, g), add(g, C(1))), ("lower part", T.conj(eq(g, m), le(x, v)), m),
                           ("upper part", T.conj(eq(g, m), lt(v, x)), m1)):
        with sums.case():
            fact(case)
            ctx().seed(g1, add(g1, C(1)))
            row(A, W, g, g1, M, "split, " + name)
            stubs.obligations("[C05] split, " + name, stubs.split_depth(g, g1, m, v, x) + stubs.depth(W, add(K, C(1)), g1, x))


@proof("C02", "C05", functions=[U + "cy_update_watermark_volumes_for_cloud_below_highest"])
def split_same_volumes(L):
    """splitting two arrays of the same volumes leaves them with the same volumes"""
    W, Rn, M, K = levels()
    c = ctx()
    A = wm.arr("W", Rn, M)
    B = wm.arr("B", Rn, M)
    c.forall("B", lambda i, j: T.implies(eq(j, ZERO), eq(T.app("B", i, j), T.app("W", i, j))), "same volumes")
    v, m = R("v"), I("m")
    m1 = add(m, C(1))
    fact(T.conj(le(ZERO, m), lt(m, K), lt(K, sub(Rn, C(1)))))
    fact(T.conj(lt(wm.cum(A, m), v), lt(v, wm.cum(A, m1))))
    c.seed(m, m1, sub(Rn, C(1)))
    B0 = wm.arr("B", Rn, M)
    for u in (m, m1):
        sums.sum_eq("same volumes", ZERO, u, column(A), column(B0))
    kernels(L).cy_update_watermark_volumes_for_cloud_below_highest(W, N(v), N(m))
    kernels(L).cy_update_watermark_volumes_for_cloud_below_highest(B, N(v), N(m))
    i = sums.arbitrary(ZERO, Rn, "i")
    prove("same volumes", eq(W.at(i, ZERO), B.at(i, ZERO)))


@proof("C01", "C02", "C03", "C05", "C20", functions=[TM + "make_space_for_new_watermarks", TM + "n_watermarks_per_transfer"])
def make_space(L):
    """after it there are more unused rows than the levels that an update can add; the levels are unchanged"""
    space("TrapManager", L)


@proof("C01", "C02", "C03", "C05", "C20", "C21", functions=[TM + "make_space_for_new_watermarks", "trap_managers.TrapManagerInstantCapture.n_watermarks_per_transfer"])
def make_space_instant(L):
    """the same for one level per update"""
    space("TrapManagerInstantCapture", L)


@proof("C01", "C02", "C03", "C05", "C20", "C21", functions=[TM + "make_space_for_new_watermarks"])
def make_space_time(L):
    """the same for times"""
    space("TrapManagerTrackTime", L)


def inherits(L, cls, *names):
    """the class's methods are those of TrapManager, which other proofs are about"""
    a, b = getattr(L.pkg, cls), L.pkg.TrapManager
    return all(getattr(a, n) is getattr(b, n) for n in names)


def space(cls, L):
    finite = cls == "TrapManager"
    m, S = manager(L, cls, finite)
    W, Rn, M, K = levels(S, cls != "TrapManagerTrackTime")
    A = wm.arr("W", Rn, M)
    m.watermarks = W
    s = A.snap()
    # number of unused rows
    sums.sum_eq("unused rows", ZERO, Rn, lambda i: T.ite(eq(s(i, ZERO), ZERO), C(1), ZERO), lambda i: T.ite(lt(i, K), ZERO, C(1)))
    m.make_space_for_new_watermarks()
    V = m.watermarks
    p = m.n_watermarks_per_transfer
    u = I("u")
    fact(T.conj(le(ZERO, u), le(u, Rn)))
    with sums.case():
        i, j = sums.arbitrary(ZERO, V._shape[0], "i"), sums.arbitrary(ZERO, M, "j")
        with sums.case():
            fact(lt(i, Rn))
            prove("[C01 C02 C03 C05] space: same levels", eq(V.at(i, j), s(i, j)))
        with sums.case():
            fact(le(Rn, i))
            prove("[C01 C02 C03 C05] space: new rows are empty", eq(V.at(i, j), ZERO))
    sums.sum_eq("same volume", ZERO, u, column(A), column(V))
    stubs.obligations("[C03 C05 C20] space", stubs.space_post(A, V, K, p, [("any level", u)]))
    inner = lambda a: (lambda i: sums.total(C(1), M, lambda j: mul(a.at(i, ZERO), a.at(i, j), wm.dens(sub(j, C(1))))))
    sums.sum_eq("same electrons", ZERO, Rn, inner(A), inner(V))
    fact(le(Rn, V._shape[0]))
    sums.sum_eq("no electrons in new rows", Rn, V._shape[0], inner(V), lambda i: ZERO,
                lambda i: sums.sum_eq("no electrons in new cells", C(1), M, lambda j: mul(V.at(i, ZERO), V.at(i, j), wm.dens(sub(j, C(1)))), lambda j: ZERO))
    if cls == "TrapManagerTrackTime":
        return
    prove("[C01 C02] space: electrons", eq(wm.held(V, wm.dens), wm.held(A, wm.dens)))


@proof("C01", "C02", "C03", "C05", functions=[TM + "updated_watermarks_from_capture_not_enough"])
def not_enough(L):
    """fills move the fraction `enough` of the way from the initial ones; the electrons held do the same"""
    tweak(L, "TrapManager")


@proof("C01", "C02", "C03", "C05", "C21", functions=[TM + "updated_watermarks_from_capture_not_enough"])
def not_enough_instant(L):
    """the same for instant capture"""
    if inherits(L, "TrapManagerInstantCapture", "updated_watermarks_from_capture_not_enough"):
        prove("inherited", TRUE)
    else:
        tweak(L, "TrapManagerInstantCapture")


def tweak(L, cls):
    m, S = manager(L, cls, cls == "TrapManager")
    W, Rn, M, K = levels(S)
    c = ctx()
    A, B0, B = wm.arr("W", Rn, M), wm.arr("B", Rn, M), wm.arr("B", Rn, M)
    wm.physical(B, K, "B")
    c.forall("B", lambda i, j: T.implies(eq(j, ZERO), eq(T.app("B", i, j), T.app("W", i, j))), "same volumes")
    e = R("enough")
    fact(T.conj(le(ZERO, e), le(e, C(1))))
    V = m.updated_watermarks_from_capture_not_enough(W, B, N(e))
    mix = lambda i, j: add(mul(e, A.at(i, j)), mul(sub(C(1), e), B0.at(i, j)))
    with sums.case():
        i, j = sums.arbitrary(ZERO, Rn, "i"), sums.arbitrary(C(1), M, "j")
        prove("[C05] fills", eq(V.at(i, j), mix(i, j)))
        prove("[C03 C05] volumes", eq(V.at(i, ZERO), A.at(i, ZERO)))
    physical(V, K, "not enough")
    d = lambda j: wm.dens(sub(j, C(1)))
    row_ = lambda a: (lambda i: sums.total(C(1), M, lambda j: mul(a(i, ZERO), a(i, j), d(j))))
    # the same sums, written with W's volumes
    sums.sum_eq("[C01 C02] electrons", ZERO, Rn, row_(V.at), lambda i: sums.total(C(1), M, lambda j: mul(A.at(i, ZERO), mix(i, j), d(j))),
                lambda i: sums.sum_eq("[C01 C02] electrons in a cell", C(1), M, lambda j: mul(V.at(i, ZERO), V.at(i, j), d(j)), lambda j: mul(A.at(i, ZERO), mix(i, j), d(j))))
    sums.sum_eq("[C01 C02] initial electrons", ZERO, Rn, row_(B0.at), lambda i: sums.total(C(1), M, lambda j: mul(A.at(i, ZERO), B0.at(i, j), d(j))),
                lambda i: sums.sum_eq("[C01 C02] initial electrons in a cell", C(1), M, lambda j: mul(B0.at(i, ZERO), B0.at(i, j), d(j)), lambda j: mul(A.at(i, ZERO), B0.at(i, j), d(j))))
    prove("[C01 C02] not enough: electrons", eq(wm.held(V, wm.dens), add(mul(e, wm.held(A, wm.dens)), mul(sub(C(1), e), wm.held(B0, wm.dens)))))
    sums.sum_eq("[C03 C05] volume", ZERO, K, column(A), column(V))
    prove("[C03 C05] not enough: total volume", eq(wm.cum(V, K), wm.cum(A, K)))


class Collapse:
    """the setting of collapse_redundant_watermarks: K levels, of which the first k are completely filled"""

    def __init__(self, L, cls, copy, also=None):
        finite = cls == "TrapManager"
        self.m, self.S = m, S = manager(L, cls, finite)
        self.fills = cls != "TrapManagerTrackTime"
        self.filled = C(1 if self.fills else 0)
        W, self.Rn, self.M, self.K = levels(S, self.fills)
        Rn, M, K = self.Rn, self.M, self.K
        self.A = wm.arr("W", Rn, M)
        k, j0 = I("k"), I("j0")
        self.k = k
        c = ctx()
        fact(T.conj(le(ZERO, k), le(k, K)))
        c.forall("W", lambda i, j: T.implies(T.conj(le(ZERO, i), lt(i, k), le(C(1), j), lt(j, M)), eq(T.app("W", i, j), self.filled)), "filled")
        fact(T.disj(eq(k, K), T.conj(le(C(1), j0), lt(j0, M), T.neg(eq(T.app("W", k, j0), self.filled)))))
        c.seed(k, sub(k, C(1)), j0, sub(j0, C(1)))
        if not also:
            stubs.facts([x for x in stubs.consequences(self.A, K, wm.dens) if self.fills or "volume" in x[0]])
        self.W2 = self.B2 = self.B = None
        if copy:
            B = wm.arr("B", Rn, M)
            self.B = wm.arr("B", Rn, M)
            wm.physical(B, K, "B")
            c.forall("B", lambda i, j: T.implies(eq(j, ZERO), eq(T.app("B", i, j), T.app("W", i, j))), "same volumes")
            if not also:
                stubs.facts(stubs.consequences(self.B, K, wm.dens))
            sums.sum_eq("same volumes", ZERO, k, column(self.A), column(self.B))
        with sums.case():
            fact(le(C(1), k))
            grows(self.A, ZERO, sub(k, C(1)))
            prove("levels have volume", lt(ZERO, wm.cum(self.A, k)))
        fact(T.implies(le(C(1), k), lt(ZERO, wm.cum(self.A, k))))
        d = L.mods["arcticpy.trap_managers"].__dict__
        saved = d["min"] if "min" in d else arrays.b_min

        def known_min(*a, **kw):
            # the number of filled levels is k: once that is proved, call it k
            if V is not None and not kw and len(a) == 1 and self.image(a[0]):
                return N(k)
            self.mins.append(a[0] if len(a) == 1 else None)
            r = saved(*a, **kw)
            return N(k) if isinstance(r, N) and ctx().entails(eq(r, k), 8000) else r
        d["min"] = known_min
        self.mins, V, D = [], None, None
        try:
            if copy:
                self.W2, self.B2 = m.collapse_redundant_watermarks(watermarks=W, watermarks_copy=B)
            else:
                self.W2 = m.collapse_redundant_watermarks(watermarks=W)
            if also:
                # a second run
                V, D = also(self, L)
            if also and copy:
                self.second = self.m2.collapse_redundant_watermarks(watermarks=V, watermarks_copy=D)
            elif also:
                self.second = self.m2.collapse_redundant_watermarks(watermarks=V), None
        finally:
            del d["min"]


@proof(*ALL, functions=[TM + "collapse_redundant_watermarks"])
def collapse(L):
    """k leading filled levels become one of their total volume, the others move down; electrons, volume and the fills at
    every depth stay"""
    collapsed(Collapse(L, "TrapManager", False))


@proof("C01", "C02", "C03", "C05", functions=[TM + "collapse_redundant_watermarks"])
def collapse_copy(L):
    """the copy's levels are merged in the same way, to their average fills"""
    collapsed(Collapse(L, "TrapManager", True))


@proof(*ALL, functions=[TM + "collapse_redundant_watermarks"])
def collapse_instant(L):
    """the same for instant capture"""
    if inherits(L, "TrapManagerInstantCapture", "collapse_redundant_watermarks", "filled_watermark_value"):
        prove("inherited", TRUE)
    else:
        for copy in (False, True):
            with sums.case():
                collapsed(Collapse(L, "TrapManagerInstantCapture", copy))


@proof(*ALL, "C21", functions=[TM + "collapse_redundant_watermarks", "trap_managers.TrapManagerTrackTime.filled_watermark_value"])
def collapse_time(L):
    """the same for times, of which 0 is a completely filled level"""
    collapsed(Collapse(L, "TrapManagerTrackTime", False))


@proof("C01", "C02", "C03", "C05", "C21", functions=[TM + "collapse_redundant_watermarks", "trap_managers.TrapManagerTrackTime.filled_watermark_value"])
def collapse_time_copy(L):
    """the copy holds fills, which are merged to their averages"""
    collapsed(Collapse(L, "TrapManagerTrackTime", True))


def collapsed(q):
    A, W2, Rn, M, K, k, filled = q.A, q.W2, q.Rn, q.M, q.K, q.k, q.filled
    c = ctx()
    x, g = at_depth(A, K)
    if c.decide(le(k, C(1))):
        i, j = sums.arbitrary(ZERO, Rn, "i"), sums.arbitrary(ZERO, M, "j")
        prove("unchanged", eq(W2.at(i, j), A.at(i, j)))
        if q.B2 is not None:
            prove("copy: unchanged", eq(q.B2.at(i, j), q.B.at(i, j)))
        # level 0 stays, as if it alone were merged
        stubs.obligations("[C05] collapse", stubs.collapse_depth(K, g, C(1), g))
        return
    k1 = sub(k, C(1))
    K2 = sub(K, k1)
    c.seed(K2, k1)
    cells(q, A, W2, lambda j: filled, "collapse")
    physical(W2, K2, "collapse", q.fills)
    totals(q, A, W2, K2, "collapse", q.fills)
    stubs.facts(stubs.depth_within(A, K, g, x))
    stubs.facts(stubs.depth_beside(A, K, g, x, k1))
    for name, case, g1 in (("merged", lt(g, k), ZERO), ("moved down", le(k, g), sub(g, k1))):
        with sums.case():
            fact(case)
            c.seed(g1, add(g1, C(1)))
            volumes(q, A, W2, g1)
            volumes(q, A, W2, add(g1, C(1)))
            row(A, W2, g, g1, M, "collapse, " + name)
            stubs.obligations("[C05] collapse, " + name, stubs.collapse_depth(K, g, k, g1) + stubs.depth(W2, K2, g1, x))
            if q.B2 is not None and name != "merged":
                row(q.B, q.B2, g, g1, M, "collapse, copy, " + name)
    if q.B2 is not None:
        B, B2 = q.B, q.B2
        with sums.case():
            i = sums.arbitrary(ZERO, Rn, "i")
            prove("[C02 C03 C05] collapse: the copy has the same volumes", eq(W2.at(i, ZERO), B2.at(i, ZERO)))
        sb = B.snap()
        share = T.inverse(wm.cum(B, k))
        avg = lambda j: mul(sums.total(ZERO, k, lambda i: mul(sb(i, ZERO), sb(i, j))), share)

        def average(j):
            t, u = sums.sum_le("averages", ZERO, k, lambda i: mul(sb(i, ZERO), sb(i, j)), lambda i: sb(i, ZERO))
            sums.sum_nonneg("averages", ZERO, k, lambda i: mul(sb(i, ZERO), sb(i, j)))
            a = avg(j)
            if prove("[C02 C03 C05] collapse: the average fill", eq(mul(a, u), t)):
                fact(T.conj(le(ZERO, a), le(a, C(1))))
        cells(q, B, B2, avg, "collapse, copy")
        physical(B2, K2, "collapse, copy", True, average)
        totals(q, B, B2, K2, "collapse, copy", True)


def cells(q, A, W2, first, what):
    Rn, M, k = q.Rn, q.M, q.k
    with sums.case():
        i, j = sums.arbitrary(C(1), Rn, "i"), sums.arbitrary(ZERO, M, "j")
        src = sub(add(i, k), C(1))
        ctx().seed(src)
        with sums.case():
            fact(lt(src, Rn))
            prove(what + ": moved down", eq(W2.at(i, j), A.at(src, j)))
        with sums.case():
            fact(le(Rn, src))
            prove(what + ": empty at the end", eq(W2.at(i, j), ZERO))
    with sums.case():
        j = sums.arbitrary(C(1), M, "j")
        prove(what + ": fills of the first", eq(W2.at(ZERO, j), first(j)))
    prove(what + ": volume of the first", eq(W2.at(ZERO, ZERO), wm.cum(A, k)))


def volumes(q, A, W2, u):
    """lemma: the volume up to level u >= 1 is that up to the level that it came from; rows from which nothing came are empty"""
    k = q.k
    on = T.conj(le(C(1), u), le(sub(add(u, k), C(1)), q.Rn))
    with sums.case():
        fact(on)
        a = A.snap()
        sums.sum_eq("volumes moved down", C(1), u, column(W2), lambda i: a(sub(add(i, k), C(1)), ZERO))
        prove("volume up to a level", eq(wm.cum(W2, u), wm.cum(A, sub(add(u, k), C(1)))))
    fact(T.implies(on, eq(wm.cum(W2, u), wm.cum(A, sub(add(u, k), C(1))))))


def totals(q, A, W2, K2, what, fills):
    Rn, M, K, k = q.Rn, q.M, q.K, q.k
    volumes(q, A, W2, K2)
    prove("[C03 C05] " + what + ": total volume", eq(wm.cum(W2, K2), wm.cum(A, K)))
    if not fills:
        return
    a, w = A.snap(), W2.snap()
    d = lambda j: wm.dens(sub(j, C(1)))
    cell = lambda f: (lambda i, j: mul(f(i, ZERO), f(i, j), d(j)))
    row_ = lambda f: (lambda i: sums.total(C(1), M, lambda j: cell(f)(i, j)))
    up = lambda i, j: a(sub(add(i, k), C(1)), j)
    end = sub(add(Rn, C(1)), k)
    # rows that moved down, and those that are now empty
    sums.sum_eq("electrons moved down", C(1), end, row_(w), row_(up),
                lambda i: sums.sum_eq("electrons of a cell", C(1), M, lambda j: cell(w)(i, j), lambda j: cell(up)(i, j)))
    sums.sum_eq("no electrons at the end", end, Rn, row_(w), lambda i: ZERO,
                lambda i: sums.sum_eq("no electrons in a cell", C(1), M, lambda j: cell(w)(i, j), lambda j: ZERO))
    # the merged ones
    cum = wm.cum(A, k)
    part = lambda j: sums.total(ZERO, k, lambda i: cell(a)(i, j))
    sums.sum_eq("merged electrons", C(1), M, lambda j: cell(w)(ZERO, j), part, lambda j: merged(a, w, j, k, cum, q.filled if A is q.A else None))
    sums.swap(ZERO, k, C(1), M, cell(a))
    prove("[C01 C02] " + what + ": electrons", eq(wm.held(W2, wm.dens), wm.held(A, wm.dens)))


def merged(a, w, j, k, cum, filled):
    """lemma: what species j holds in the first k levels"""
    fact_ = sums.total(ZERO, k, lambda i: mul(a(i, ZERO), a(i, j)))
    if filled is not None:
        sums.sum_eq("filled levels", ZERO, k, lambda i: mul(a(i, ZERO), a(i, j)), lambda i: mul(a(i, ZERO), filled))
    prove("fill of merged levels", eq(mul(w(ZERO, j), cum), fact_))


@proof("C03", "C05", "C20")
def lemma_new_level(L):
    """a level added on top of K levels: the depths that it holds"""
    W, Rn, M, K = levels()
    x, g = at_depth(W, K)
    K1 = add(K, C(1))
    fact(lt(K1, Rn))
    V = wm.arr("V", Rn, M)
    wm.physical(V, K1, "V")
    ctx().forall("V", lambda i, j: T.implies(lt(i, K), eq(T.app("V", i, j), T.app("W", i, j))), "the others stay")
    for u in (K, g, add(g, C(1))):
        with sums.case():
            fact(le(u, K))
            sums.sum_eq("same volumes", ZERO, u, column(W), column(V))
            prove("same volume", eq(wm.cum(V, u), wm.cum(W, u)))
        fact(T.implies(le(u, K), eq(wm.cum(V, u), wm.cum(W, u))))
    ctx().seed(K1)
    for name, case, g1 in (("in the others", lt(g, K), g), ("in the new level", T.conj(eq(g, K), le(x, wm.cum(V, K1))), K),
                           ("deeper", T.conj(eq(g, K), lt(wm.cum(V, K1), x)), K1)):
        with sums.case():
            fact(case)
            stubs.obligations("new level, " + name, stubs.new_level_depth(V, K, x, g, g1) + stubs.depth(V, K1, g1, x))
