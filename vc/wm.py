"""Ghost vocabulary of the watermark arrays, shared by the contracts of the trap managers.

A watermark array W has R rows and M = 1 + S columns: W(i,0) is the volume of level i, W(i,j) the fill of species j-1.
cum(W,i) is the volume of the levels below i; held(W,n) is the number of electrons in the traps."""
from .proof import *


def arr(name, Rn, M):
    return arrays.Arr.make([Rn, M], lambda i, j: T.app(name, i, j))


def cell(a, i, j):
    return a.at(num(i), num(j))


def vol(a, i):
    return a.at(num(i), ZERO)


def cum(a, i):
    """volume of the levels below i (all levels have non-negative index)"""
    return sums.total(ZERO, num(i), lambda k: a.at(k, ZERO))


def held(a, dens):
    """sum over levels and species of volume * fill * density;  dens(j) for j in [0, S)"""
    rows, M = a._shape
    s = a.snap()
    return sums.total(ZERO, rows, lambda i: sums.total(C(1), M, lambda j: T.mul(T.mul(s(i, ZERO), s(i, j)), dens(T.add(j, C(-1))))))


def held_by(a, j):
    """sum over levels of volume * fill of column j"""
    s = a.snap()
    return sums.total(ZERO, a._shape[0], lambda i: T.mul(s(i, ZERO), s(i, num(j))))


def physical(a, K, name, fills=True):
    """facts: the first K levels have positive volume, the others are empty; fills lie in [0, 1]"""
    c = ctx()

    def f(i, j):
        z = T.eq(j, ZERO)
        x = T.app(name, i, j)
        on = T.conj(T.le(ZERO, i), T.lt(i, K))
        off = T.le(K, i)
        out = [T.implies(T.conj(off), T.eq(x, ZERO)), T.implies(T.conj(on, z), T.lt(ZERO, x))]
        if fills:
            out.append(T.implies(T.conj(T.lt(ZERO, j)), T.conj(T.le(ZERO, x), T.le(x, C(1)))))
        return T.conj(*out)
    c.forall(name, f, name)


def dims(spare=0):
    """arbitrary numbers of rows and columns, and of occupied levels"""
    Rn, M, K = I("rows"), I("cols"), I("K")
    fact(le(C(2), M))
    fact(le(ZERO, K))
    fact(le(add(K, C(1 + spare)), Rn))
    ctx().seed(K, ZERO)
    return Rn, M, K


def dens(j):
    return T.app("dens", j)
