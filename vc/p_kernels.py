"""Contracts of the compiled kernels of trap_managers_utils.pyx"""
from .proof import *
from . import wm

U = "trap_managers_utils."


def kernels(L):
    return L.mods["arcticpy.trap_managers_utils"]


@proof("C01", "C02", "C22", functions=[U + "cy_n_trapped_electrons_from_watermarks"])
def kernel_n_trapped(L):
    """result == sum over levels and species of volume * fill * density; the arrays are not written"""
    Rn, M, K = wm.dims()
    W = wm.arr("W", Rn, M)
    n = arrays.Arr.make([sub(M, C(1))], wm.dens)
    r = kernels(L).cy_n_trapped_electrons_from_watermarks(W, n)
    prove("sum", eq(r, wm.held(wm.arr("W", Rn, M), wm.dens)))
    i, j = sums.arbitrary(ZERO, Rn, "i"), sums.arbitrary(ZERO, M, "j")
    prove("frame", eq(W.at(i, j), T.app("W", i, j)))


@proof("C03", "C05", "C20", functions=[U + "cy_value_in_cumsum"])
def kernel_value_in_cumsum(L):
    """result is 1 if some partial sum (of at least one element) equals the value, else 0, for physical levels"""
    Rn, M, K = wm.dims()
    W = wm.arr("W", Rn, M)
    wm.physical(W, K, "W")
    v = R("v")
    r = num(kernels(L).cy_value_in_cumsum(N(v), W[:, 0]))
    A = wm.arr("W", Rn, M)
    if r.const() == 0:
        i = sums.arbitrary(ZERO, Rn, "i")
        prove("no partial sum equals", T.neg(eq(v, wm.cum(A, add(i, C(1))))))
    else:
        prove("0 or 1", eq(r, C(1)))
        with sums.case():
            ctx().forint(lambda i: T.implies(T.conj(le(ZERO, i), lt(i, Rn)), T.neg(eq(v, wm.cum(A, add(i, C(1)))))), "none")
            ctx().seed(sub(Rn, C(1)))
            prove("some partial sum equals", FALSE)


@proof("C03", "C05", "C20", functions=[U + "cy_watermark_index_above_cloud_from_cloud_fractional_volume"])
def kernel_index_above(L):
    """the first level up to which the volume reaches the cloud's, or max_watermark_index + 1 where the total volume is less,
    for physical levels"""
    Rn, M, K = wm.dims()
    W = wm.arr("W", Rn, M)
    wm.physical(W, K, "W")
    v, mx = R("v"), I("mx")
    r = num(kernels(L).cy_watermark_index_above_cloud_from_cloud_fractional_volume(N(v), W, N(mx)))
    A = wm.arr("W", Rn, M)
    tot = wm.cum(A, Rn)
    ctx().seed(sub(Rn, C(1)))
    prove("above all", T.implies(lt(tot, v), eq(r, add(mx, C(1)))))
    prove("an index", T.implies(le(v, tot), T.conj(le(ZERO, r), lt(r, Rn))))
    with sums.case():
        fact(le(v, tot))
        fact(T.conj(le(ZERO, r), lt(r, Rn)))
        prove("reaches the cloud", le(v, wm.cum(A, add(r, C(1)))))
        i = sums.arbitrary(ZERO, r, "i")
        prove("the first", lt(wm.cum(A, add(i, C(1))), v))


def split_setup():
    Rn, M, K = wm.dims()
    W = wm.arr("W", Rn, M)
    wm.physical(W, K, "W")
    v, m = R("v"), I("m")
    fact(le(ZERO, m))
    fact(lt(m, K))
    A = wm.arr("W", Rn, M)
    fact(lt(wm.cum(A, m), v))
    fact(lt(v, wm.cum(A, add(m, C(1)))))
    ctx().seed(m, add(m, C(1)), sub(Rn, C(1)))
    return Rn, M, K, W, A, v, m


@proof("C01", "C02", "C03", "C05", "C20", functions=[U + "cy_update_watermark_volumes_for_cloud_below_highest", U + "roll_2d_vertical_1"])
def kernel_split(L):
    """level m is split at the cloud's volume into two with its fills; lower levels stay, higher ones move up by one"""
    Rn, M, K, W, A, v, m = split_setup()
    kernels(L).cy_update_watermark_volumes_for_cloud_below_highest(W, N(v), N(m))
    j = sums.arbitrary(ZERO, M, "j")
    with sums.case():
        i = sums.arbitrary(ZERO, m, "i")
        prove("lower levels", eq(W.at(i, j), T.app("W", i, j)))
    with sums.case():
        i = sums.arbitrary(add(m, C(2)), Rn, "i")
        prove("higher levels", eq(W.at(i, j), T.app("W", sub(i, C(1)), j)))
    prove("volume below the cloud", eq(W.at(m, ZERO), sub(v, wm.cum(A, m))))
    prove("volume above the cloud", eq(W.at(add(m, C(1)), ZERO), sub(wm.cum(A, add(m, C(1))), v)))
    with sums.case():
        fact(le(C(1), j))
        prove("fills below the cloud", eq(W.at(m, j), T.app("W", m, j)))
        prove("fills above the cloud", eq(W.at(add(m, C(1)), j), T.app("W", m, j)))
    # consequences
    with sums.case():
        i = sums.arbitrary(ZERO, Rn, "i")
        prove("occupied levels have positive volume", T.implies(le(i, K), lt(ZERO, W.at(i, ZERO))))
        prove("unoccupied levels are empty", T.implies(lt(K, i), eq(W.at(i, j), ZERO)))
        prove("fills in [0,1]", T.implies(le(C(1), j), T.conj(le(ZERO, W.at(i, j)), le(W.at(i, j), C(1)))))
