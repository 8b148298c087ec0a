"""Contracts of add_cti, remove_cti and the HST ACS preset (main.py)"""
from .proof import *
from . import loops

ADD = ["main.add_cti"]
ARGS = ["image_in", "ccd", "roe", "traps", "express", "offset", "window_row_range", "window_column_range", "time_window_range"]
SETTINGS = ["dwell_times", "empty_traps_for_first_transfers", "empty_traps_between_columns", "force_release_away_from_readout", "express_matrix_dtype"]


class Opaque:
    """an input that must not be written or looked into"""
    _done = False

    def __init__(self, name):
        self.name = name
        self._done = True

    def __setattr__(self, n, v):
        if self._done:
            prove("[C12] the inputs are not changed", FALSE)
        object.__setattr__(self, n, v)

    def __deepcopy__(self, memo):
        return self


def plain(v):
    return v if not isinstance(v, (N, B)) else num(v) if isinstance(v, N) else v


def same(a, b):
    """True only if the two values are equal on this path"""
    if a is b:
        return True
    if isinstance(a, (arrays.SymRange, range)) and isinstance(b, (arrays.SymRange, range)):
        a, b = [x if isinstance(x, arrays.SymRange) else arrays.SymRange(x.start, x.stop, x.step) for x in (a, b)]
        return a.step == b.step and ctx().entails(T.conj(eq(a.a, b.a), eq(a.b, b.b)))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (N, int, float)) and isinstance(b, (N, int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return ctx().entails(eq(a, b))
    return type(a) is type(b) and a == b


class Clock:
    """the contract of the clocking: the result is a function of the arguments (C15), has the image's shape, and differs from the image only
    within the window (C12); for standard readout a time window of all transfers is the same as none (C10)"""

    def __init__(self, L):
        self.L, self.calls = L, []

    def __enter__(self):
        self.old = {}
        for m in ("main", "main_utils"):
            d = self.L.mods["arcticpy." + m].__dict__
            if "cy_clock_charge_in_one_direction" in d:
                self.old[m] = d["cy_clock_charge_in_one_direction"]
                d["cy_clock_charge_in_one_direction"] = self.call
        return self

    def __exit__(self, *a):
        for m, f in self.old.items():
            self.L.mods["arcticpy." + m].__dict__["cy_clock_charge_in_one_direction"] = f

    def same_readout(self, a, b):
        return a is b or (type(a) is type(b) is self.L.pkg.ROE and all(same(getattr(a, n), getattr(b, n)) for n in SETTINGS))

    def whole(self, c):
        t = c["time_window_range"]
        return t is None or same(t, arrays.SymRange(ZERO, add(c["image_in"]._shape[0], c["offset"])))

    def equal(self, a, b):
        if not (self.same_readout(a["roe"], b["roe"]) and all(same(a[n], b[n]) for n in ARGS if n not in ("image_in", "roe", "time_window_range"))):
            return False
        if not (same(a["time_window_range"], b["time_window_range"]) or self.whole(a) and self.whole(b)):
            return False
        x, y = a["image_in"], b["image_in"]
        if not all(ctx().entails(eq(p, q)) for p, q in zip(x._shape, y._shape)):
            return False
        with sums.scope():
            i, j = sums.arbitrary(ZERO, x._shape[0], "i"), sums.arbitrary(ZERO, x._shape[1], "j")
            return ctx().entails(eq(a["pixel"](i, j), b["pixel"](i, j)))

    def call(self, *args, **kw):
        c = dict(zip(ARGS, args))
        c.update(kw)
        if sorted(c) != sorted(ARGS):
            raise Unsupported("arguments of the clocking")
        img = c["image_in"] = arrays.NP.array(c["image_in"]) if not isinstance(c["image_in"], arrays.Arr) else c["image_in"]
        c["pixel"] = arrays.Arr(img.buf, img.axes, img._shape).snap()
        c["shape"] = tuple(img._shape)
        c["image_in"] = arrays.Arr.make(list(img._shape), c["pixel"])
        for d in self.calls:
            if self.equal(c, d):
                c["name"] = d["name"]
                break
        else:
            c["name"] = "clocked%d" % len(self.calls)
        self.calls.append(c)
        f = c["name"]
        return arrays.Arr.make(list(img._shape), lambda i, j: T.app(f, i, j))


class Params:
    """the parameters of one direction"""

    def __init__(self, x, pool):
        self.x = x
        k = pool
        self.ccd, self.traps = Opaque(x + " ccd"), Opaque(x + " traps")
        self.roe = None if ctx().decide(T.BApp(x + " readout omitted")) else Opaque(x + " readout")
        self.express, self.offset = N(I(x + " express")), N(I(x + " offset"))
        nonneg(self.express, self.offset)

    def args(self, direction, traps=True):
        return {direction + "_" + n: getattr(self, n) for n in ("ccd", "roe", "express", "offset")} | {direction + "_traps": self.traps if traps else None}


def window(x, n):
    """a window in [0, n): omitted, one pixel, or a range"""
    if ctx().decide(T.BApp(x + " window omitted")):
        return None
    a, b = I(x + "0"), I(x + "1")
    for p, q in ((ZERO, a), (add(a, C(1)), b), (b, n)):
        fact(le(p, q))
    if ctx().decide(T.BApp(x + " window one pixel")):
        fact(eq(b, add(a, C(1))))
        return N(a)
    return arrays.SymRange(a, b)


def bounds(w, n):
    if w is None:
        return ZERO, n
    if isinstance(w, arrays.SymRange):
        return w.a, w.b
    return num(w), add(w, C(1))


def picture(name="image"):
    rows, cols = I("rows"), I("columns")
    fact(le(C(1), rows))
    fact(le(C(1), cols))
    return rows, cols, arrays.Arr.make([rows, cols], lambda i, j: T.app(name, i, j))


def agree(name, a, b, transpose=False):
    """two images are equal"""
    s = tuple(b._shape)[::-1] if transpose else tuple(b._shape)
    prove(name + ": shape", T.conj(*[eq(p, q) for p, q in zip(a._shape, s)]))
    with sums.case():
        i, j = sums.arbitrary(ZERO, a._shape[0], "i"), sums.arbitrary(ZERO, a._shape[1], "j")
        prove(name, eq(a.at(i, j), b.at(j, i) if transpose else b.at(i, j)))


def unchanged(mark, img):
    for x in arrays.log_since(mark):
        if x[0] is img.buf:
            prove("[C12] the input image is not changed", FALSE)


def default_readout(L, clock, *params):
    for c in clock.calls:
        r = c["roe"]
        given = [p.roe for p in params if p.traps is c["traps"]]
        prove("[C16] traps of one of the directions", TRUE if len(given) == 1 else FALSE)
        if given and given[0] is not None:
            prove("[C16] the readout that was given", TRUE if r is given[0] else FALSE)
            continue
        prove("[C16] an omitted readout is a standard readout", TRUE if type(r) is L.pkg.ROE else FALSE)
        if type(r) is L.pkg.ROE:
            prove("[C16] an omitted readout has a single phase", TRUE if len(r.dwell_times) == 1 and r.n_phases == 1 else FALSE)
            prove("[C16] with the dwell time 1", eq(r.dwell_times[0], C(1)))
            prove("[C16] and the default settings", TRUE if (r.empty_traps_for_first_transfers, r.empty_traps_between_columns,
                  r.force_release_away_from_readout, r.express_matrix_dtype) == (True, True, True, float) else FALSE)


@proof("C16", "C12", functions=ADD)
def serial_is_transposed_parallel(L):
    """without a time window: serial clocking is parallel clocking of the transposed image, transposed, with the same parameters; an omitted readout
    is single-phase standard readout; the input image is not written"""
    m = L.mods["arcticpy.main"]
    rows, cols, img = picture()
    pw, sw = window("parallel", rows), window("serial", cols)
    x = Params("serial", 0)
    mark = arrays.log_mark()
    with Clock(L) as clock:
        a = m.add_cti(img, **x.args("serial"), parallel_window_range=pw, serial_window_range=sw)
        t = arrays.Arr.make([cols, rows], lambda i, j: T.app("image", j, i))
        b = m.add_cti(t, **x.args("parallel"), parallel_window_range=sw, serial_window_range=pw)
    default_readout(L, clock, x)
    agree("[C16] serial is transposed parallel", a, b, True)
    unchanged(mark, img)


@proof("C16", "C12", functions=ADD)
def both_directions(L):
    """without a time window: both directions are parallel clocking, then serial clocking of its result; without traps nothing changes"""
    m = L.mods["arcticpy.main"]
    rows, cols, img = picture()
    pw, sw = window("parallel", rows), window("serial", cols)
    p, x = Params("parallel", 0), Params("serial", 0)
    w = dict(parallel_window_range=pw, serial_window_range=sw)
    mark = arrays.log_mark()
    with Clock(L) as clock:
        both = m.add_cti(img, **p.args("parallel"), **x.args("serial"), **w)
        a = m.add_cti(img, **p.args("parallel"), **x.args("serial", False), **w)
        b = m.add_cti(a, **p.args("parallel", False), **x.args("serial"), **w)
        none = m.add_cti(img, **p.args("parallel", False), **x.args("serial", False), **w)
    default_readout(L, clock, p, x)
    agree("[C16] parallel then serial", both, b)
    agree("[C16] no traps", none, img)
    unchanged(mark, img)


@proof("C12", "C20", functions=ADD)
def outside_the_window(L):
    """with any time window: shape of the result; columns outside the window of parallel clocking, rows outside that of serial clocking, and with
    release forced away from readout the pixels before the window in either direction are as in the input"""
    m = L.mods["arcticpy.main"]
    rows, cols, img = picture()
    pw, sw = window("parallel", rows), window("serial", cols)
    p, x = Params("parallel", 0), Params("serial", 0)
    time = None
    if ctx().decide(T.BApp("time window")):
        a, b = I("t0"), I("t1")
        fact(le(ZERO, a))
        fact(le(add(a, C(1)), b))
        time = arrays.SymRange(a, b)
    parallel, serial = [ctx().decide(T.BApp(n)) for n in ("parallel traps", "serial traps")]
    mark = arrays.log_mark()
    with Clock(L) as clock:
        r = m.add_cti(img, **p.args("parallel", parallel), **x.args("serial", serial), parallel_window_range=pw, serial_window_range=sw,
                      time_window_range=time)
    prove("[C12] shape of the result", T.conj(eq(r._shape[0], rows), eq(r._shape[1], cols)))
    for c in clock.calls:
        # C12's contract of the clocking, with release forced away from readout
        wr, wc, pix = c["window_row_range"], c["window_column_range"], c["pixel"]
        wr, wc = [v if isinstance(v, arrays.SymRange) else arrays.SymRange(v.start, v.stop) for v in (wr, wc)]
        prove("[C12 C20] rows of the window within the image", T.conj(le(ZERO, wr.a), le(wr.b, c["shape"][0])))
        prove("[C12 C20] columns of the window within the image", T.disj(le(wc.b, wc.a), T.conj(le(ZERO, wc.a), le(wc.b, c["shape"][1]))))
        ctx().forall(c["name"], lambda i, j, f=c["name"], wr=wr, wc=wc, pix=pix: T.implies(
            T.disj(lt(j, wc.a), le(wc.b, j), lt(i, wr.a)), eq(T.app(f, i, j), pix(i, j))), "frame")
    (r0, r1), (c0, c1) = bounds(pw, rows), bounds(sw, cols)
    i, j = sums.arbitrary(ZERO, rows, "i"), sums.arbitrary(ZERO, cols, "j")
    is_ = eq(r.at(i, j), img.at(i, j))
    if parallel and not serial:
        prove("[C12] columns outside the window", T.implies(T.disj(lt(j, c0), le(c1, j)), is_))
    if serial and not parallel:
        prove("[C12] rows outside the window", T.implies(T.disj(lt(i, r0), le(r1, i)), is_))
    if not parallel and not serial:
        prove("[C12] no traps", is_)
    prove("[C12] before the window", T.implies(T.disj(lt(i, r0), lt(j, c0)), is_))
    unchanged(mark, img)


class ColumnClock(Clock):
    """the contract of the clocking, column by column: a column of the window becomes what it becomes in any other window with the same settings (C15),
    any other column stays as it is (C12)"""

    def equal(self, a, b):
        return super().equal(dict(a, window_column_range=None), dict(b, window_column_range=None))

    def call(self, *args, **kw):
        r = super().call(*args, **kw)
        c = self.calls[-1]
        w, pix, f = c["window_column_range"], c["pixel"], c["name"]
        if not isinstance(w, (range, arrays.SymRange)) or w.step != 1:
            raise Unsupported("the window of columns")
        a, b = (w.a, w.b) if isinstance(w, arrays.SymRange) else (C(w.start), C(w.stop))
        return arrays.Arr.make(list(r._shape), lambda i, j: T.ite(T.conj(le(a, j), lt(j, b)), T.app(f, i, j), pix(i, j)))


@proof("C10", functions=ADD)
def rows_clocked_once(L):
    """with a time window: serial clocking changes the rows of the window that leave the parallel register in it, as an undivided readout does, and
    no others; so that over consecutive time windows every row is clocked once"""
    m = L.mods["arcticpy.main"]
    rows, cols, img = picture()
    pw, sw = window("parallel", rows), window("serial", cols)
    p, x = Params("parallel", 0), Params("serial", 0)
    a, b = I("t0"), I("t1")
    fact(le(ZERO, a))
    fact(le(add(a, C(1)), b))
    kw = dict(parallel_window_range=pw, serial_window_range=sw)
    if x.roe is None:
        x.roe = L.pkg.ROE()
    with ColumnClock(L):
        whole = m.add_cti(img, **p.args("parallel", False), **x.args("serial"), **kw)
        part = m.add_cti(img, **p.args("parallel", False), **x.args("serial"), time_window_range=arrays.SymRange(a, b), **kw)
    i, j = sums.arbitrary(ZERO, rows, "i"), sums.arbitrary(ZERO, cols, "j")
    t = add(i, p.offset)
    inside = T.conj(le(a, t), lt(t, b))
    prove("[C10] rows read out in the time window", T.implies(inside, eq(part.at(i, j), whole.at(i, j))))
    prove("[C10] rows read out at another time", T.implies(T.neg(inside), eq(part.at(i, j), img.at(i, j))))


REMOVE = ["main.remove_cti"]
NAMES = ["parallel_ccd", "parallel_roe", "parallel_traps", "parallel_express", "parallel_offset", "parallel_window_range", "serial_ccd", "serial_roe",
         "serial_traps", "serial_express", "serial_offset", "serial_window_range", "time_window_range"]


class Iterations:
    """the loop rule for remove_cti, with the invariant: the estimate is est(k), where est(0) is the image and est(k + 1) = est(k) + image -
    model(k), model(k) being the forward model of est(k); only the estimate is carried from one iteration to the next"""
    tag = "[C17] "

    def __init__(self, img, n):
        self.img, self.n, self.k, self.loops, self.calls = img, n, None, 0, 0

    def made(self, buf):
        pass

    def est(self, k, i, j):
        return self.img.at(i, j) if k == ZERO else T.app("est", k, i, j)

    def loop(self, where, it, body, get, set_, names):
        if self.k is not None or ctx().in_body or not arrays.is_sym_iter(it):
            return None
        self.loops += 1
        if self.loops > 1:
            raise Unsupported("several loops")
        cx = ctx()
        n, item = arrays.iter_parts(it)
        prove("[C17] the number of iterations", eq(n, self.n))
        n = num(n)
        state = [i for i, v in enumerate(get()) if isinstance(v, arrays.Arr)]
        if len(state) != 1:
            raise Unsupported("several images are carried from one iteration to the next")
        s = state[0]
        prove("[C12] the estimate is not the image itself", FALSE if get()[s].buf is self.img.buf else TRUE)
        self.check("at the start", get()[s], lambda i, j: self.img.at(i, j))
        shape = list(self.img._shape)
        val = lambda k: tuple(arrays.Arr.make(shape, lambda i, j: T.app("est", k, i, j)) if m == s else
                              loops.Poison(x) if loops.scalar(v) or isinstance(v, (arrays.Arr, loops.Poison)) else v
                              for m, (x, v) in enumerate(zip(names, get())))
        if cx.decide(T.BApp("iteration")):
            k = self.k = T.V("k", True)
            fact(le(ZERO, k))
            fact(lt(k, n))
            set_(val(k))
            own = get()[s].buf
            mark, new = arrays.log_mark(), next(arrays.Buf._n)
            r = body(item(k))
            if r[0] != "c":
                prove("[C17] all the iterations", FALSE)
                raise core.EndPath()
            for x in arrays.log_since(mark):
                if x[0] is self.img.buf:
                    prove("[C12] the input image is not changed", FALSE)
                elif x[0] is not own and x[0].id < new:
                    raise Unsupported("an array is carried through the loop")
            self.check("after an iteration", get()[s], lambda i, j: sub(add(T.app("est", k, i, j), self.img.at(i, j)), T.app("model", k, i, j)))
            raise core.EndPath()
        self.k = n
        set_(val(n))
        return ("c", None)

    def check(self, what, a, want):
        if not isinstance(a, arrays.Arr) or len(a._shape) != 2:
            raise Unsupported("the estimate")
        prove("[C17] shape " + what, T.conj(*[eq(p, q) for p, q in zip(a._shape, self.img._shape)]))
        with sums.case():
            i, j = sums.arbitrary(ZERO, self.img._shape[0], "i"), sums.arbitrary(ZERO, self.img._shape[1], "j")
            prove("[C17] the estimate " + what, eq(a.at(i, j), want(i, j)))

    def model(self, L, want):
        import inspect
        sig = inspect.signature(L.mods["arcticpy.main"].add_cti)

        def add_cti(*args, **kw):
            if self.k is None:
                raise Unsupported("the forward model outside the iterations")
            a = sig.bind(*args, **kw)
            a.apply_defaults()
            a = a.arguments
            for n in NAMES:
                prove("[C17] parameters are passed on: " + n, TRUE if same(a[n], want[n]) else FALSE)
            self.check("given to the forward model", a["image"], lambda i, j: T.app("est", self.k, i, j))
            k = self.k
            return arrays.Arr.make(list(self.img._shape), lambda i, j: T.app("model", k, i, j))
        return add_cti


@proof("C17", "C12", functions=REMOVE)
def iterations(L):
    """for every number of iterations the result is est(iterations), where est(0) is the image and est(k + 1) = est(k) + image - add_cti(est(k)) with all
    the parameters passed on; so it is the image for no iterations, without traps, and where the image is a fixed point; the image is not written"""
    m = L.mods["arcticpy.main"]
    rows, cols, img = picture()
    count = I("iterations")
    fact(le(ZERO, count))
    want = {n: N(I(n)) if n.endswith(("express", "offset")) else Opaque(n) for n in NAMES}
    t = Iterations(img, count)
    old = m.add_cti
    mark = arrays.log_mark()
    m.add_cti, ctx().tracer = t.model(L, want), t
    try:
        r = m.remove_cti(img, N(count), **want)
    finally:
        m.add_cti, ctx().tracer = old, None
    if t.k is None:
        raise Unsupported("no loop over the iterations")
    unchanged(mark, img)
    t.check("returned", r, lambda i, j: T.app("est", count, i, j))
    # lemma, by induction: from an image that is its own forward model, and without traps
    with sums.case():
        k, i, j = I("k"), I("i"), I("j")
        e, f = T.app("est", k, i, j), T.app("model", k, i, j)
        fact(eq(e, img.at(i, j)))
        fact(eq(f, e))
        prove("[C17] a fixed point", eq(sub(add(e, img.at(i, j)), f), img.at(i, j)))


HST = ["main.model_for_HST_ACS"]
LAUNCH, COOLER, REPAIR = 2452334.5, 2453920, 2454968
SHARES, LATER = (1.27, 3.38, 2.85), (0.74, 7.7, 37)


def preset(L, date):
    traps, ccd, roe = L.mods["arcticpy.main"].model_for_HST_ACS(N(date))
    P = L.pkg
    prove("[C18] three species", TRUE if len(traps) == 3 else FALSE)
    prove("[C18] instant capture", TRUE if all(type(t) is P.TrapInstantCapture for t in traps) else FALSE)
    for t, s, u, r in zip(traps, SHARES, traps[1:] + traps[:1], SHARES[1:] + SHARES[:1]):
        prove("[C18] positive density", lt(ZERO, t.density))
        prove("[C18] proportions of the densities", eq(mul(t.density, C(r)), mul(u.density, C(s))))
        prove("[C18] positive release time", lt(ZERO, t.release_timescale))
        prove("[C18] no capture time", eq(t.capture_timescale, ZERO))
    prove("[C18] single-phase CCD", TRUE if type(ccd) is P.CCD and ccd.n_phases == 1 and len(ccd.fraction_of_traps_per_phase) == 1 else FALSE)
    for n, v in (("full_well_depth", 84700), ("well_fill_power", 0.478), ("well_notch_depth", 0), ("fraction_of_traps_per_phase", 1)):
        w = getattr(ccd, n)
        prove("[C18] CCD: " + n, eq(w[0] if isinstance(w, list) else w, C(v)))
    prove("[C18] single-phase standard readout", TRUE if type(roe) is P.ROE and len(roe.dwell_times) == 1 and roe.n_phases == 1 and
          (roe.empty_traps_for_first_transfers, roe.empty_traps_between_columns, roe.force_release_away_from_readout,
           roe.express_matrix_dtype) == (True, True, True, float) else FALSE)
    prove("[C18] dwell time", eq(roe.dwell_times[0], C(1)))
    return traps


@proof("C18", functions=HST)
def preset_for_every_date(L):
    """for every date from launch on: three instant-capture species of positive densities in fixed proportions that grow linearly with time within
    each epoch, positive release times that are the same for all dates of one temperature, and the documented CCD and readout"""
    a, b, c = R("date"), R("date2"), R("date3")
    cx = ctx()
    for d in (a, b, c):
        fact(le(C(LAUNCH), d))
    ta = preset(L, a)
    cooler, repaired = [cx.decide(le(C(x), a)) for x in (COOLER, REPAIR)]
    if cooler:
        for t, v in zip(ta, LATER):
            prove("[C18] release times at the later temperature", eq(t.release_timescale, C(v)))
    if cx.decide(T.BApp("one temperature")):
        fact(T.neg(lt(b, C(COOLER))) if cooler else lt(b, C(COOLER)))
        tb = preset(L, b)
        for t, u in zip(ta, tb):
            prove("[C18] release times depend on the temperature only", eq(t.release_timescale, u.release_timescale))
    else:
        for d in (b, c):
            fact(T.neg(lt(d, C(REPAIR))) if repaired else lt(d, C(REPAIR)))
        fact(lt(a, b))
        tb, tc = preset(L, b), preset(L, c)
        for t, u, v in zip(ta, tb, tc):
            prove("[C18] densities grow", lt(t.density, u.density))
            prove("[C18] densities are linear in time", eq(mul(sub(u.density, t.density), sub(c, a)), mul(sub(v.density, t.density), sub(b, a))))


@proof("C18", functions=HST)
def no_preset_before_launch(L):
    """earlier dates are rejected"""
    d = R("date")
    fact(lt(d, C(LAUNCH)))
    try:
        L.mods["arcticpy.main"].model_for_HST_ACS(N(d))
    except (AssertionError, ValueError, Exception) as e:
        if isinstance(e, (Unsupported, core.EndPath)):
            raise
        prove("[C18] earlier dates are rejected", TRUE)
        return
    prove("[C18] earlier dates are rejected", FALSE)
