"""Contracts of the multiplier matrices (roe.py)"""
from .proof import *
from . import loops

STD = ["roe.ROE.express_matrix_and_monitor_traps_matrix_from_pixels_and_express"]


def setting(first, ints, cls="ROE", **kw):
    return dict(empty_traps_for_first_transfers=first, express_matrix_dtype=arrays.BI["int" if ints else "float"], **kw)


def ordinary():
    """a window, offset and express value"""
    a, b, off = I("w0"), I("w1"), I("offset")
    for p, q in ((ZERO, a), (add(a, C(1)), b), (ZERO, off)):
        fact(le(p, q))
    if ctx().decide(T.BApp("express 0")):
        return a, b, off, ZERO, add(b, off)
    x = I("express")
    fact(le(C(1), x))
    n = add(b, off)
    e = n if ctx().decide(le(n, x)) else x
    return a, b, off, x, e


def quotient(n, e, ints):
    """the largest multiplier"""
    q = div(n, e)
    return T.scale(T.floor(T.scale(q, -1)), -1) if ints else q


def minimum(a, b):
    return T.ite(le(a, b), a, b)


def clip(x, hi):
    return T.ite(lt(x, ZERO), ZERO, T.ite(lt(hi, x), hi, x))


def multipliers(L, roe, b0, b1, off, x, e, n):
    """runs the code; shape, sign, monitored pixels, and independence of the window's first pixel"""
    f = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express
    M, mon = f(arrays.SymRange(b0, b1), N(x), N(off))
    W = sub(b1, b0)
    prove("[C08] shape of the multipliers", T.conj(eq(M._shape[0], n), eq(M._shape[1], W)))
    prove("[C08] shape of the monitored pixels", T.conj(eq(mon._shape[0], n), eq(mon._shape[1], W)))
    All, _ = f(arrays.SymRange(ZERO, b1), N(x), N(off))
    with sums.case():
        k, r = sums.arbitrary(ZERO, n, "k"), sums.arbitrary(ZERO, W, "r")
        prove("[C08] non-negative", le(ZERO, M.at(k, r)))
        prove("[C08] monitored where the multiplier is not 0", T.implies(lt(ZERO, M.at(k, r)), mon.at(k, r)))
        prove("[C08] the column of the matrix of all pixels", eq(M.at(k, r), All.at(k, add(b0, r))))
    return M, mon


@proof("C08", "C13", functions=STD)
def multipliers_without_first_transfers(L):
    """standard readout without separate first transfers: matrices of a row per pass and a column per window pixel; multipliers non-negative, each
    pixel's adding up to row + offset + 1; monitored wherever positive; with every transfer computed, multipliers of 1 in its first passes"""
    ints = ctx().decide(T.BApp("integers"))
    b0, b1, off, x, e = ordinary()
    n = add(b1, off)
    roe = L.pkg.ROE(**setting(ctx().decide(T.conj(T.BApp("first transfers separate"), le(b1, e))), ints))
    M, mon = multipliers(L, roe, b0, b1, off, x, e, e)
    m = quotient(n, e, ints)
    r = sums.arbitrary(ZERO, sub(b1, b0), "r")
    c = add(b0, r, off, C(1))
    if e == n:
        k = sums.arbitrary(ZERO, e, "k")
        prove("[C08 C13] every transfer separately", eq(M.at(k, r), T.ite(lt(k, c), C(1), ZERO)))
        prove("[C08 C13] monitored only where the multiplier is not 0", T.implies(mon.at(k, r), eq(M.at(k, r), C(1))))
    prove("[C08] enough passes", le(n, mul(m, e)))
    s = sums.sum_closed("[lemma] multipliers of the passes so far", ZERO, e, lambda k: M.at(k, r), lambda u: minimum(c, mul(m, u)))
    prove("[C08] the multipliers add up to the transfers", eq(s, c))


@proof("C08", functions=STD)
def multipliers_with_first_transfers(L):
    """standard readout with separate first transfers: a row per pass, of which each pixel's first has multiplier 1 in a row of its own (the identity,
    upside down); the rows of the other passes are added to it at increasing distance, and the total is row + offset + 1"""
    ints = ctx().decide(T.BApp("integers"))
    b0, b1, off, x, e = ordinary()
    if e == add(b1, off):
        return
    fact(lt(e, b1))
    n = add(b1, off)
    n1 = add(n, C(-1))
    m = quotient(n1, e, ints)
    prove("[lemma] a largest multiplier of at least 1", le(C(1), m))
    prove("[lemma] enough passes", le(n1, mul(m, e)))
    ctx().forint(lambda u: T.implies(T.conj(le(ZERO, u), lt(u, e)), T.conj(le(ZERO, mul(u, m)), le(ZERO, mul(sub(add(e, C(-1)), u), m)))), "products")
    roe = L.pkg.ROE(**setting(True, ints))
    M, mon = multipliers(L, roe, b0, b1, off, x, e, n)
    scatter = ctx().scatters[-1] if ctx().scatters else None
    if scatter is None or scatter[1] != e:
        raise T.Unsupported("no indexed update")
    hit, inv = scatter[2:]
    with sums.case():
        r = sums.arbitrary(ZERO, sub(b1, b0), "r")
        c = add(b0, r, off)
        v = lambda u: clip(sub(c, mul(u, m)), m)
        first = lambda k: T.ite(eq(k, sub(n1, c)), C(1), ZERO)
        one = sums.sum_closed("[lemma] one first transfer", ZERO, n, first, lambda u: T.ite(lt(sub(n1, c), u), C(1), ZERO))
        prove("[C08] one first transfer of every pixel", eq(one, C(1)))
        with sums.case():
            # up to the pass of its first transfer a pixel has no other multiplier
            k = sums.arbitrary(ZERO, n, "pass")
            fact(le(k, sub(n1, c)))
            i = inv(k)
            if ctx().decide(hit(k)):
                fi = T.floor(mul(i, m))
                prove("[lemma] row of an earlier pass", eq(scatter[0](i), T.ite(lt(n1, fi), ZERO, sub(n1, fi))))
                prove("[lemma] its source is a pass", T.conj(le(ZERO, i), lt(i, e), eq(scatter[0](i), k)))
                prove("[lemma] it starts beyond the pixel", le(c, mul(i, m)))
            prove("[C08] the first transfer is computed on its own, before the others", eq(M.at(k, r), first(k)))
        if ctx().decide(eq(c, ZERO)):
            s = sums.sum_eq("[lemma] multipliers of the passes", ZERO, n, lambda k: M.at(k, r), first)[0]
            prove("[C08] the multipliers add up to the transfers", eq(s, C(1)))
        else:
            s, t = sums.sum_eq("[lemma] multipliers of the passes", ZERO, n, lambda k: M.at(k, r), lambda k: add(first(k), T.ite(hit(k), v(inv(k)), ZERO)))

            f = scatter[0]
            row = lambda u: T.ite(lt(n1, T.floor(mul(u, m))), ZERO, sub(n1, T.floor(mul(u, m))))

            def later(i, last):
                j = T.fresh("j", True)
                every = prove("[lemma] row", eq(f(i), row(i)))
                prove("[lemma] the last pass of the row", T.conj(le(i, last), lt(last, e)))
                fact(T.conj(eq(j, last), le(i, j), lt(j, e)))
                if prove("[lemma] the same row", eq(f(last), f(i))) and every:
                    # i was arbitrary, so j's row is known as well
                    fact(eq(row(i), row(j)))
                fact(T.implies(lt(i, j), le(ZERO, mul(sub(j, add(i, C(1))), m))))
                prove("[lemma] later passes start further on", T.implies(lt(i, j), lt(T.floor(mul(i, m)), T.floor(mul(j, m)))))
                prove("[lemma] value of an earlier pass", T.implies(T.neg(eq(j, i)), eq(v(i), ZERO)))
            s1, t1 = sums.scattered("[lemma] passes", scatter, ZERO, n, v, later)
            q = sums.sum_closed("[lemma] multipliers of the further passes", ZERO, e, v, lambda u: minimum(c, mul(m, u)))
            prove("[C08] the multipliers add up to the transfers", eq(s, add(c, C(1))))


@proof("C14", functions=STD)
def multipliers_of_a_cropped_image(L):
    """with express 0, an image cropped after a row has the same multipliers and monitored pixels in the passes that it has, and in the further passes of the
    whole image no pixel up to that row is monitored"""
    b0, b1, off = I("w0"), I("w1"), I("offset")
    t = I("t")
    for p, q in ((ZERO, b0), (b0, t), (add(t, C(1)), b1), (ZERO, off)):
        fact(le(p, q))
    roe = L.pkg.ROE(**setting(ctx().decide(T.BApp("first transfers separate")), ctx().decide(T.BApp("integers"))))
    f = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express
    end = add(t, C(1))
    M, mon = f(arrays.SymRange(b0, b1), 0, N(off))
    M2, mon2 = f(arrays.SymRange(b0, end), 0, N(off))
    prove("[C14] passes of the cropped image", eq(M2._shape[0], add(end, off)))
    prove("[C14] pixels of the cropped image", eq(M2._shape[1], sub(end, b0)))
    with sums.case():
        k, r = sums.arbitrary(ZERO, add(b1, off), "pass"), sums.arbitrary(ZERO, sub(end, b0), "r")
        if ctx().decide(lt(k, add(end, off))):
            prove("[C14] the multipliers of the cropped image", eq(M2.at(k, r), M.at(k, r)))
            same = T.conj(T.implies(mon2.at(k, r), mon.at(k, r)), T.implies(mon.at(k, r), mon2.at(k, r)))
            prove("[C14] the pixels monitored in the cropped image", same)
        else:
            prove("[C14] nothing is monitored in further passes", T.neg(mon.at(k, r)))


# ------------------------------------------------------------------ time windows

RESTRICT = ["roe.ROE.restrict_time_span_of_express_matrix"]


def within(s, a, b):
    """of the first s transfers, those in a <= t < b"""
    return clip(sub(s, a), sub(b, a))


def window():
    t0, t1 = I("t0"), I("t1")
    fact(le(ZERO, t0))
    fact(lt(t0, t1))
    return t0, t1


@proof("C10", "C09", functions=RESTRICT)
def restricted_multipliers(L):
    """every matrix of non-negative multipliers, restricted to every time window: the passes so far have multipliers that add up to the part of the
    unrestricted passes' that is in the window"""
    n, w = I("passes"), I("columns")
    fact(le(C(1), n))
    fact(le(C(1), w))
    t0, t1 = window()
    ints = ctx().decide(T.BApp("integers"))
    X = arrays.Arr.make([n, w], lambda i, j: T.app("multiplier", i, j, is_int=ints), "i" if ints else "f")
    ctx().forall("multiplier", lambda i, j: le(ZERO, T.app("multiplier", i, j, is_int=ints)), "non-negative")
    roe = L.pkg.ROE()
    Y = roe.restrict_time_span_of_express_matrix(X, None)
    with sums.case():
        k, r = sums.arbitrary(ZERO, n, "k"), sums.arbitrary(ZERO, w, "r")
        prove("[C10 C09] no time window: the same shape", T.conj(eq(Y._shape[0], n), eq(Y._shape[1], w)))
        prove("[C10 C09] no time window: the same multipliers", eq(Y.at(k, r), X.at(k, r)))
    R = roe.restrict_time_span_of_express_matrix(X, arrays.SymRange(t0, t1))
    prove("[C10] the same shape", T.conj(eq(R._shape[0], n), eq(R._shape[1], w)))
    with sums.case():
        r = sums.arbitrary(ZERO, w, "r")
        so_far = lambda u: sums.total(ZERO, u, lambda i: T.app("multiplier", i, r, is_int=ints))
        k = sums.arbitrary(ZERO, n, "k")
        prove("[C10] multipliers of the passes in the window", eq(R.at(k, r), sub(within(so_far(add(k, C(1))), t0, t1), within(so_far(k), t0, t1))))
        prove("[C10] non-negative", le(ZERO, R.at(k, r)))


@proof("C10")
def windows_partition(L):
    """lemma on the contract above: consecutive windows' parts of the first s transfers add up to those in the whole; all of them, where the windows cover them"""
    W = I("windows")
    fact(le(C(1), W))
    t = lambda j: T.app("start", j, is_int=True)
    ctx().forint(lambda j: T.implies(T.conj(le(ZERO, j), lt(j, W)), lt(t(j), t(add(j, C(1))))), "consecutive")
    ctx().assume(eq(t(ZERO), ZERO))
    ends = lambda j: T.conj(le(ZERO, t(j)))
    with sums.case():
        j = sums.arbitrary(ZERO, W, "j")
        fact(le(ZERO, t(j)))
        prove("[C10] later windows start later (induction)", le(ZERO, t(add(j, C(1)))))
    ctx().forint(lambda j: T.implies(T.conj(le(ZERO, j), le(j, W)), le(ZERO, t(j))), "starts (by induction)")
    s, s2 = R("transfers so far"), R("transfers after the next pass")
    fact(le(ZERO, s))
    fact(le(s, s2))
    fact(le(s2, t(W)))
    parts = lambda j: sub(within(s2, t(j), t(add(j, C(1)))), within(s, t(j), t(add(j, C(1)))))
    u = sums.sum_closed("[C10] multipliers of a pass in the windows", ZERO, W, parts, lambda j: sub(within(s2, ZERO, t(j)), within(s, ZERO, t(j))))
    prove("[C10] the windows' multipliers of a pass add up to the pass's", eq(u, sub(s2, s)))


class Restricted:
    """stands for restrict_time_span_of_express_matrix, by its contract: with a window, multipliers of its own (see restricted_multipliers)"""

    def __init__(self, roe):
        self.calls = []
        roe.restrict_time_span_of_express_matrix = self

    def __call__(self, express_matrix, time_window_range):
        X = express_matrix
        if time_window_range is None:
            return X
        if not isinstance(X, arrays.Arr) or X.ndim != 2:
            raise T.Unsupported("restricting something else than a matrix")
        name = "restricted%d" % len(self.calls)
        self.calls.append((name, X.snap(), time_window_range))
        ints = X.buf.dtype == "i"
        return arrays.Arr.make(X._shape, lambda i, j: T.app(name, i, j, is_int=ints), X.buf.dtype)


def in_a_window(roe, b0, b1, off, x, w, tracer=lambda: None):
    """the code's matrices with a time window, against those without"""
    def f(*a):
        ctx().tracer = tracer()
        try:
            return roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(*a)
        finally:
            ctx().tracer = None
    sub_ = Restricted(roe)
    All, mon = f(arrays.SymRange(b0, b1), N(x), N(off))
    M, mon2 = f(arrays.SymRange(b0, b1), N(x), N(off), w)
    if len(sub_.calls) != 1:
        raise T.Unsupported("the matrix of multipliers is not restricted by restrict_time_span_of_express_matrix")
    name, X, given = sub_.calls[0]
    prove("[C10] the time window given", T.conj(eq(given[0], w[0]), eq(given[-1], w[-1])))
    prove("[C10] shapes with a time window", T.conj(*[eq(p, q) for a, b in ((M, All), (mon2, mon)) for p, q in zip(a._shape, b._shape)]))
    with sums.case():
        k, r = sums.arbitrary(ZERO, All._shape[0], "k"), sums.arbitrary(ZERO, All._shape[1], "r")
        prove("[C10] the pixels monitored do not depend on the time window", T.conj(T.implies(mon.at(k, r), mon2.at(k, r)), T.implies(mon2.at(k, r), mon.at(k, r))))
        e = M.at(k, r)
        apps = [a for a, q in T.atoms(e).items() if q == 1 and isinstance(a, T.App) and a.f == name]
        prove("[C10] the restricted matrix is used", T.TRUE if apps else T.FALSE)
        if apps:
            a = apps[0]
            prove("[C10] an entry of the restricted matrix", eq(e, T.A(a)))
            prove("[C10] the same pass", eq(a.args[0], k))
            i = sums.arbitrary(ZERO, All._shape[0], "i")
            prove("[C10] of the same pixel in every pass", eq(X(i, a.args[1]), All.at(i, r)))


@proof("C10", functions=STD)
def multipliers_in_a_window(L):
    """standard readout: the matrices with a time window are those without, restricted pass by pass by the contract of the time windows"""
    ints = ctx().decide(T.BApp("integers"))
    b0, b1, off, x, e = ordinary()
    roe = L.pkg.ROE(**setting(ctx().decide(T.BApp("first transfers separate")), ints))
    t0, t1 = window()
    in_a_window(roe, b0, b1, off, x, arrays.SymRange(t0, t1))


# ------------------------------------------------------------------ trap pumping

PUMP = ["roe.ROETrapPumping.express_matrix_and_monitor_traps_matrix_from_pixels_and_express", "roe.ROETrapPumping.save_trap_states_matrix_from_express_matrix"]


@proof("C09", functions=PUMP)
def pumping_of_one_pixel(L):
    """trap pumping of one pixel, any number of pumps and express value: non-negative multipliers, whole if integers, adding up to the number of pumps;
    monitored wherever positive; the trap state saved after every pass but the last"""
    ints = ctx().decide(T.BApp("integers"))
    pumps = I("n_pumps")
    fact(le(C(1), pumps))
    x = ZERO if ctx().decide(T.BApp("express 0")) else I("express")
    if x is not ZERO:
        fact(le(C(1), x))
    roe = L.pkg.ROETrapPumping(n_pumps=N(pumps), **setting(ctx().decide(T.BApp("first pump separate")), ints))
    p = I("pixel")
    fact(le(ZERO, p))
    M, mon = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express([N(p)], N(x))
    n = M._shape[0]
    prove("[C09] one column", T.conj(eq(M._shape[1], C(1)), eq(mon._shape[0], n), eq(mon._shape[1], C(1))))
    with sums.case():
        k = sums.arbitrary(ZERO, n, "k")
        prove("[C09] non-negative", le(ZERO, M.at(k, ZERO)))
        if ints:
            prove("[C09] whole numbers", eq(T.floor(M.at(k, ZERO)), M.at(k, ZERO)))
        prove("[C09] monitored where the multiplier is not 0", T.implies(lt(ZERO, M.at(k, ZERO)), mon.at(k, ZERO)))
    prove("[C09] the multipliers add up to the pumps", eq(sums.total(ZERO, n, lambda k: M.at(k, ZERO)), pumps))
    S = roe.save_trap_states_matrix_from_express_matrix(M)
    prove("[C09] shape of the saving flags", T.conj(eq(S._shape[0], n), eq(S._shape[1], C(1))))
    with sums.case():
        k = sums.arbitrary(ZERO, n, "k")
        prove("[C09] saved after every pass but the last", T.conj(T.implies(S.at(k, ZERO), lt(add(k, C(1)), n)), T.implies(lt(add(k, C(1)), n), S.at(k, ZERO))))


# ------------------------------------------------------------------ charge injection

INJECT = ["roe.ROEChargeInjection.express_matrix_and_monitor_traps_matrix_from_pixels_and_express", "util.set_min_max"]


class RowByRow:
    """the loop rule for a loop that fills a matrix, a row in every iteration: after t iterations the rows of these have value(0) to value(t - 1) in every
    column, and the others are as they were (0)"""

    tag = "[C09] "

    def __init__(self, value, upto):
        self.value, self.upto, self.loops, self.matrices = value, upto, 0, []

    def made(self, buf):
        if len(buf.shape) == 2:
            self.matrices.append(buf)

    def loop(self, where, it, body, get, set_, names):
        if ctx().in_body or not arrays.is_sym_iter(it):
            return None
        self.loops += 1
        if self.loops > 1 or len(self.matrices) != 1:
            raise T.Unsupported("several loops or matrices")
        cx = ctx()
        n, item = arrays.iter_parts(it)
        n = num(n)
        A = arrays.Arr(self.matrices[0])
        rows, cols = A._shape
        u = T.V("u~", True)
        row = num(item(u))
        if row == u:
            turn = lambda i: i
        elif row == T.add(T.add(n, C(-1)), u, -1):
            turn = lambda i: T.add(T.add(n, C(-1)), i, -1)
        else:
            raise T.Unsupported("the order of the rows")
        prove("[lemma] an iteration per row", eq(n, rows))
        zero = A.snap()
        with sums.case():
            i, j = sums.arbitrary(ZERO, rows, "i"), sums.arbitrary(ZERO, cols, "j")
            prove("[lemma] nothing filled at the start", eq(zero(i, j), ZERO))

        def fill(t):
            A.write(lambda i, j: T.TRUE, lambda i, j: T.ite(lt(turn(i), t), self.value(turn(i)), ZERO))

        def others():
            set_(tuple(loops.Poison(x) for x in names))

        def so_far(t):
            """lemma: the sum of a column after t iterations"""
            f = lambda i: T.ite(lt(turn(i), t), self.value(turn(i)), ZERO)
            if turn(u) == u:
                G = lambda i: self.upto(minimum(i, t))
            else:
                G = lambda i: sub(self.upto(t), self.upto(minimum(t, sub(n, i))))
            sums.sum_closed("[lemma] multipliers of the passes so far", ZERO, n, f, G)
        if cx.decide(T.BApp("iteration")):
            t = T.V("t", True)
            fact(le(ZERO, t))
            fact(lt(t, n))
            others()
            so_far(t)
            fill(t)
            mark, new = arrays.log_mark(), next(arrays.Buf._n)
            r = body(item(t))
            if r[0] != "c":
                raise T.Unsupported("the loop ends early")
            if any(x[0] is not A.buf and x[0].id < new for x in arrays.log_since(mark)):
                raise T.Unsupported("another array is carried through the loop")
            with sums.case():
                i, j = sums.arbitrary(ZERO, rows, "i"), sums.arbitrary(ZERO, cols, "j")
                prove("[lemma] the rows after an iteration", eq(A.at(i, j), T.ite(lt(turn(i), add(t, C(1))), self.value(turn(i)), ZERO)))
            raise core.EndPath()
        others()
        so_far(n)
        fill(n)
        return ("c", None)


def injecting(L):
    P = L.pkg
    ints = ctx().decide(T.BApp("integers"))
    b0, b1, off = I("w0"), I("w1"), I("offset")
    for p, q in ((ZERO, b0), (add(b0, C(1)), b1), (ZERO, off)):
        fact(le(p, q))
    given = ctx().decide(T.BApp("number of transfers given"))
    c = I("transfers") if given else add(b1, off)
    fact(le(C(1), c))
    if ctx().decide(T.BApp("express 0")):
        x, e = ZERO, c
    else:
        x = I("express")
        fact(le(C(1), x))
        e = c if ctx().decide(le(c, x)) else x
    m = quotient(c, e, ints)
    prove("[lemma] enough passes", le(c, mul(m, e)))
    roe = P.ROEChargeInjection(n_pixel_transfers=N(c) if given else None, express_matrix_dtype=arrays.BI["int" if ints else "float"])
    tracer = lambda: RowByRow(lambda t: clip(sub(c, mul(t, m)), m), lambda t: minimum(c, mul(t, m))) if ints else None
    return roe, b0, b1, off, x, c, m, ints, tracer


@proof("C09", functions=INJECT)
def injection(L):
    """charge injection, any window, offset, number of transfers and express value: non-negative multipliers, whole if integers, that add up to the number
    of transfers, by default the window's last row plus one plus the offset, also after other calls"""
    roe, b0, b1, off, x, c, m, ints, tracer = injecting(L)
    if ctx().decide(T.BApp("another call before")) and not ints:
        y0, y1, yo = I("other w0"), I("other w1"), I("other offset")
        for p, q in ((ZERO, y0), (add(y0, C(1)), y1), (ZERO, yo)):
            fact(le(p, q))
        roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(arrays.SymRange(y0, y1), N(ZERO), N(yo))
    ctx().tracer = tracer()
    try:
        f = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express
        M, mon = f(arrays.SymRange(b0, b1), N(x), N(off))
    finally:
        ctx().tracer = None
    W = sub(b1, b0)
    n = M._shape[0]
    prove("[C09] a column per pixel of the window", T.conj(eq(M._shape[1], W), eq(mon._shape[1], W), eq(mon._shape[0], n)))
    with sums.case():
        k, r = sums.arbitrary(ZERO, n, "k"), sums.arbitrary(ZERO, W, "r")
        prove("[C09] non-negative", le(ZERO, M.at(k, r)))
        if ints:
            prove("[C09] whole numbers", eq(T.floor(M.at(k, r)), M.at(k, r)))
        prove("[C09] monitored where the multiplier is not 0", T.implies(lt(ZERO, M.at(k, r)), mon.at(k, r)))
    with sums.case():
        r = sums.arbitrary(ZERO, W, "r")
        prove("[C09] the multipliers add up to the transfers", eq(sums.total(ZERO, n, lambda k: M.at(k, r)), c))


@proof("C10", functions=INJECT)
def injection_in_a_window(L):
    """charge injection: the matrices with a time window are those without, restricted pass by pass by the contract of the time windows"""
    roe, b0, b1, off, x, c, m, ints, tracer = injecting(L)
    t0, t1 = window()
    in_a_window(roe, b0, b1, off, x, arrays.SymRange(t0, t1), tracer)


@proof("C09", "C12", functions=["roe.ROEChargeInjection.save_trap_states_matrix_from_express_matrix"])
def injection_saves_nothing(L):
    """charge injection: a matrix of flags of the shape of the multipliers, none of them set"""
    n, w = I("passes"), I("columns")
    fact(le(C(1), n))
    fact(le(C(1), w))
    X = arrays.Arr.make([n, w], lambda i, j: T.app("multiplier", i, j))
    S = L.pkg.ROEChargeInjection().save_trap_states_matrix_from_express_matrix(X)
    prove("[C09] shape of the saving flags", T.conj(eq(S._shape[0], n), eq(S._shape[1], w)))
    with sums.case():
        k, r = sums.arbitrary(ZERO, n, "k"), sums.arbitrary(ZERO, w, "r")
        prove("[C09] traps are never saved", T.neg(S.at(k, r)))


# ------------------------------------------------------------------ saved trap states

@proof("C14", functions=["roe.ROE.save_trap_states_matrix_from_express_matrix"])
def saved_states(L):
    """standard readout, any matrix of multipliers: no state is saved if first transfers start with empty traps; otherwise one in every pass but the last,
    in a row after which the next pass's multipliers start, row 0 apart (the last but one row at the latest)"""
    n, w = I("passes"), I("columns")
    fact(le(C(1), n))
    fact(le(C(1), w))
    X = arrays.Arr.make([n, w], lambda i, j: T.app("multiplier", i, j))
    empty = ctx().decide(T.BApp("first transfers start with empty traps"))
    S = L.pkg.ROE(empty_traps_for_first_transfers=empty).save_trap_states_matrix_from_express_matrix(X)
    prove("[C14] shape of the saving flags", T.conj(eq(S._shape[0], n), eq(S._shape[1], w)))
    with sums.case():
        k, r = sums.arbitrary(ZERO, n, "k"), sums.arbitrary(ZERO, w, "r")
        if empty:
            prove("[C14] no state is saved", T.neg(S.at(k, r)))
            return
        fact(S.at(k, r))
        prove("[C14] none in the last pass", lt(add(k, C(1)), n))
        q = sums.arbitrary(ZERO, w, "q")
        with sums.case():
            fact(S.at(k, q))
            prove("[C14] one row of a pass", eq(q, r))
        with sums.case():
            fact(le(C(1), q))
            fact(le(q, r))
            ctx().seed(add(q, C(-1)))
            prove("[C14] saved before the next pass's first row", le(T.app("multiplier", add(k, C(1)), q), ZERO))


# ------------------------------------------------------------------ frame

def frozen(v, seen=()):
    """what can be seen of a value: numbers, and the parts of lists and objects"""
    if isinstance(v, (int, float, str, bool, type(None), type)):
        return v
    if isinstance(v, core.N):
        return num(v)
    if id(v) in seen:
        return id(v)
    if isinstance(v, (list, tuple)):
        return [id(v)] + [frozen(x, seen + (id(v),)) for x in v]
    if isinstance(v, dict):
        return {k: frozen(x, seen + (id(v),)) for k, x in v.items()}
    if hasattr(v, "__dict__") and not isinstance(v, arrays.Arr) and type(v).__module__.startswith("arcticpy"):
        return (id(v), frozen(v.__dict__, seen + (id(v),)))
    return id(v)


@proof("C15", "C12", functions=STD + PUMP + INJECT + ["roe.ROE.save_trap_states_matrix_from_express_matrix",
       "roe.ROEChargeInjection.save_trap_states_matrix_from_express_matrix"])
def matrices_leave_the_readout_object(L):
    """frame: computing the matrices of multipliers and of saved states changes nothing in the readout object, so that no later call can depend on it"""
    P = L.pkg
    ints = ctx().decide(T.BApp("integers"))
    first = ctx().decide(T.BApp("first transfers separate"))
    n, w = I("passes"), I("columns")
    fact(le(C(1), n))
    fact(le(C(1), w))
    X = arrays.Arr.make([n, w], lambda i, j: T.app("multiplier", i, j))
    if ctx().decide(T.BApp("pumping")):
        pumps, p = I("n_pumps"), I("pixel")
        fact(T.conj(le(C(1), pumps), le(ZERO, p)))
        x = ZERO if ctx().decide(T.BApp("express 0")) else I("express")
        if x is not ZERO:
            fact(le(C(1), x))
        roe = P.ROETrapPumping(n_pumps=N(pumps), **setting(first, ints))
        args = ([N(p)], N(x))
        X = arrays.Arr.make([n, C(1)], lambda i, j: T.app("multiplier", i, j))
    else:
        b0, b1, off, x, e = ordinary()
        args = (arrays.SymRange(b0, b1), N(x), N(off))
        if ctx().decide(T.BApp("time window")):
            t0, t1 = window()
            args += (arrays.SymRange(t0, t1),)
        if ctx().decide(T.BApp("injection")):
            if ints:
                return                          # (its rows need their invariant, see `injection`)
            c = I("transfers") if ctx().decide(T.BApp("number of transfers given")) else None
            if c is not None:
                fact(le(C(1), c))
            roe = P.ROEChargeInjection(n_pixel_transfers=c and N(c), express_matrix_dtype=arrays.BI["int" if ints else "float"])
        else:
            roe = P.ROE(**setting(first, ints))
    old = frozen(roe)
    roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(*args)
    prove("[lemma] the readout object is as before", T.TRUE if frozen(roe) == old else T.FALSE)
    roe.save_trap_states_matrix_from_express_matrix(X)
    prove("[lemma] the readout object is as before, after the matrix of saved states", T.TRUE if frozen(roe) == old else T.FALSE)
