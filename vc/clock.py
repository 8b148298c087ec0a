"""The clocking loop nest (main_utils.pyx) against the contracts of what it calls, by loop invariants.

The nest is that of columns, passes, pixels, clock steps, phases, pixels released to.  A loop of the code over a symbolic number of
items is cut here: the invariant is proved where the loop is entered, then an arbitrary iteration is run from an arbitrary state
that satisfies it and must establish it again; and the code after the loop goes on from an arbitrary state that satisfies it.
A Plan gives the invariant.  It may follow a second run of the model, the spec (class Second), through the same nest.

Contracts assumed here: the multipliers and monitored pixels are matrices with a row per pass and a column per window pixel and the
trap states are saved by a matrix of that shape (C08 - C10), pixels captured from and released to are among those reported as
accessed, as is pixel 0 (C11), and the result and the new state of a trap manager are functions of its state, its phase and group, and the
arguments (C19), with held(new) == held(old) - result (C01), result >= -free (C02), and nothing held by empty traps."""
from .proof import *

LEVELS = ["columns", "passes", "pixels", "steps", "phases", "pixels released to"]
COL, PASS, ROW, STEP, PHASE, REL = range(1, 7)


class Locked:
    """an input object that must not be written"""

    def __setattr__(self, n, v):
        if ctx().tracer is not None and getattr(self, "_locked", False):
            prove("[C12] the inputs are not changed", FALSE)
        object.__setattr__(self, n, v)

    def __deepcopy__(self, memo):
        return self


class Phase:
    def __init__(self, nest, s, p):
        self.nest, self.s, self.p = nest, s, p

    @property
    def is_high(self):
        c = T.BApp("high", (self.s, self.p))
        return B(c) if ctx().in_body or ctx().pure else ctx().decide(c)

    @property
    def capture_from_which_pixel(self):
        return N(cap(self.s, self.p))

    @property
    def release_to_which_pixels(self):
        return arrays.Arr.make([nrel(self.s, self.p)], lambda q: rel(self.s, self.p, q), "i")

    @property
    def release_fraction_to_pixel(self):
        return arrays.Arr.make([nrel(self.s, self.p)], lambda q: frac(self.s, self.p, q))


def cap(s, p):
    return T.app("cap", s, p, is_int=True)


def nrel(s, p):
    return T.app("nrel", s, p, is_int=True)


def rel(s, p, q):
    return T.app("rel", s, p, q, is_int=True)


def frac(s, p, q):
    return T.app("frac", s, p, q)


def high(s, p):
    return T.BApp("high", (s, p))


def dwell(s):
    return T.app("dwell", s)


def mult(e, r):
    return T.app("mult", e, r)


def saved(e, r):
    return T.BApp("save", (e, r))


def out(*a):
    return T.app("out", *a)


def nxt(*a):
    return T.app("nxt", *a)


def empty(p, g):
    return T.app("empty", p, g)


class Fill:
    def __init__(self, p):
        self.p = p


class Manager:
    def __init__(self, nest, p, g):
        self.nest, self.p, self.g = nest, p, g

    def n_electrons_released_and_captured(self, n_free_electrons, ccd_filling_function, dwell_time=1, express_multiplier=1):
        return self.nest.call(self.p, self.g, n_free_electrons, ccd_filling_function, dwell_time, express_multiplier)


class Second:
    """state of the spec's run: image, trap states and saved states as functions of indices"""

    def __init__(self, img, st, sv):
        self.img, self.st, self.sv = img, st, sv


class Nest:
    """inputs, the run of the code, and the loop rule"""
    tag = "[C20] "

    def __init__(self, L, plan, groups=None, pumping=False, no_columns=False):
        c = ctx()
        self.L, self.plan = L, plan
        self.level, self.k, self.idx, self.inner, self.bufs = 0, {}, {}, {}, []
        self.image = None
        NR, NC, P, S, E = [I(x) for x in ("rows", "columns", "phases", "steps", "passes")]
        self.NR, self.NC, self.P, self.S, self.E = NR, NC, P, S, E
        self.G = I("groups") if groups is None else C(groups)
        self.r0, self.r1, self.c0, self.c1 = [I(x) for x in ("r0", "r1", "c0", "c1")]
        for a, b in ((ZERO, self.r0), (add(self.r0, C(1)), self.r1), (self.r1, NR), (C(1), P), (C(1), S), (C(1), self.G), (ZERO, E)):
            fact(le(a, b))
        # a time window may leave no columns
        self.no_columns = no_columns
        fact(le(C(1), NC))
        for a, b in ((self.c1, self.c0),) if self.no_columns else ((ZERO, self.c0), (add(self.c0, C(1)), self.c1), (self.c1, NC)):
            fact(le(a, b))
        self.W = sub(self.r1, self.r0)
        c.forall("mult", lambda e, r: le(ZERO, mult(e, r)), "mult")
        c.forall("dwell", lambda s: le(ZERO, dwell(s)), "dwell")
        # pixels accessed
        self.NA = I("accessed")
        acc = lambda a: T.app("acc", a, is_int=True)
        fact(le(C(1), self.NA))
        z = I("at0")
        fact(T.conj(le(ZERO, z), lt(z, self.NA), eq(acc(z), ZERO)))
        c.seed(z)
        self.accessed = arrays.Arr.make([self.NA], acc, "i")
        c.forall("cap", lambda s, p: T.conj(le(ZERO, T.app("capat", s, p, is_int=True)), lt(T.app("capat", s, p, is_int=True), self.NA),
                                            eq(acc(T.app("capat", s, p, is_int=True)), cap(s, p))), "cap")
        c.forall("rel", lambda s, p, q: T.conj(le(ZERO, T.app("relat", s, p, q, is_int=True)), lt(T.app("relat", s, p, q, is_int=True), self.NA),
                                               eq(acc(T.app("relat", s, p, q, is_int=True)), rel(s, p, q))), "rel")
        c.forall("nrel", lambda s, p: le(C(1), nrel(s, p)), "nrel")
        self.im = lambda i, j: T.app("im", i, j)
        self.image_in = arrays.Arr.make([NR, NC], self.im)
        self.ST = arrays.Arr.make([P, self.G], empty)
        self.SV = arrays.Arr.make([P, self.G], empty)
        self.ccd, self.roe, self.traps = Locked(), self.readout(pumping), Locked()
        self.ccd.n_phases = N(P)
        self.ccd.fraction_of_traps_per_phase = arrays.SymList(P, lambda p: N(T.app("density", p)))
        self.ccd.well_filling_function = self.fill
        self.ccd._locked = self.roe._locked = self.traps._locked = True
        self.express, self.offset = I("express"), I("offset")
        self.window_rows, self.window_columns = arrays.SymRange(self.r0, self.r1), arrays.SymRange(self.c0, self.c1)
        self.time = Locked()
        plan.nest = self

    # ---- stand-ins
    def readout(self, pumping):
        nest, base = self, self.L.pkg.ROETrapPumping if pumping else self.L.pkg.ROE

        class Readout(Locked, base):
            def __init__(self):
                pass
            dwell_times = None

            def express_matrix_and_monitor_traps_matrix_from_pixels_and_express(self, pixels, express=0, offset=0, time_window_range=None):
                prove("[C25] the multipliers for the rows of the window", TRUE if pixels is nest.window_rows else FALSE)
                prove("[C25] the multipliers for the express and the offset", T.conj(eq(express, nest.express), eq(offset, nest.offset)))
                prove("[C25] the multipliers for the time window", TRUE if time_window_range is nest.time else FALSE)
                nest.mult = arrays.Arr.make([nest.E, nest.W], mult)
                nest.monitor = arrays.Arr.make([nest.E, nest.W], lambda e, r: T.BApp("monitor", (e, r)), "b")
                nest.protected = [nest.mult.buf, nest.monitor.buf]
                return nest.mult, nest.monitor

            def save_trap_states_matrix_from_express_matrix(self, express_matrix):
                if not (isinstance(express_matrix, arrays.Arr) and express_matrix.buf is nest.mult.buf and express_matrix.axes == nest.mult.axes):
                    prove("[C25] saving for the multipliers", FALSE)
                return arrays.Arr.make([nest.E, nest.W], saved, "b")
        r = Readout()
        r._dwell_times = r.__dict__["dwell_times"] = arrays.SymList(self.S, lambda s: N(dwell(s)))
        r.clock_sequence = arrays.SymList(self.S, lambda s: arrays.SymList(self.P, lambda p: Phase(self, s, p)))
        r.pixels_accessed_during_clocking = self.accessed
        r.empty_traps_between_columns = B(T.BApp("emptied"))
        return r

    def fill(self, phase=0):
        phase = num(phase)
        prove("[C20] a phase of the CCD", T.conj(le(ZERO, phase), lt(phase, self.P)))
        return Fill(phase)

    def managers(self):
        nest = self

        class AllTrapManager:
            def __init__(self, traps, max_n_transfers, ccd):
                prove("[C25] traps of the call", TRUE if traps is nest.traps and ccd is nest.ccd else FALSE)
                if nest.ST is None:
                    raise Unsupported("several sets of trap managers")
                object.__setattr__(self, "nest", nest)

            def __getitem__(self, p):
                p = num(p)
                prove("[C20] a phase with traps", T.conj(le(ZERO, p), lt(p, nest.P)))
                l = arrays.SymList(nest.G, lambda g: Manager(nest, p, g))
                l.groups = True
                return l

            def restore(self):
                nest.plan.restoring()
                nest.put(nest.ST, nest.SV.snap())

            def save(self):
                nest.put(nest.SV, nest.ST.snap())

            def empty_all_traps(self):
                nest.plan.restoring()
                nest.put(nest.ST, empty)
        return AllTrapManager

    def put(self, arr, fn):
        if ctx().in_body:
            raise Unsupported("trap states changed in an inner loop")
        arr.write(lambda *i: TRUE, fn)

    def call(self, p, g, free, fill, dwell_time, multiplier):
        if self.level != PHASE:
            raise Unsupported("trap update outside the loop over phases")
        e, r, s, q = self.at(PASS), self.at(ROW), self.at(STEP), self.at(PHASE)
        prove("[C25] traps of the phase", eq(p, q))
        prove("[C25] well filling of the phase", eq(fill.p, q) if isinstance(fill, Fill) else FALSE)
        prove("[C25] dwell time of the step", eq(dwell_time, dwell(s)))
        prove("[C25] multiplier of the pixel and pass", eq(multiplier, mult(e, r)))
        st = num(self.ST[N(p), N(g)])
        new, r = [f(st, p, g, num(free), num(dwell_time), num(multiplier)) for f in (nxt, out)]
        self.ST[N(p), N(g)] = N(new)
        self.plan.called(st, new, p, num(free), r)
        return N(r)

    # ---- the run
    def run(self):
        m = self.L.mods["arcticpy.main_utils"]
        old = m.AllTrapManager
        c = ctx()
        m.AllTrapManager = self.managers()
        c.tracer = self
        mark = arrays.log_mark()
        try:
            r = m.cy_clock_charge_in_one_direction(image_in=self.image_in, ccd=self.ccd, roe=self.roe, traps=self.traps, express=N(self.express),
                                                   offset=N(self.offset), window_row_range=self.window_rows,
                                                   window_column_range=self.window_columns, time_window_range=self.time)
        finally:
            m.AllTrapManager = old
            c.tracer = None
        if self.no_columns:
            self.result = r if isinstance(r, arrays.Arr) else arrays.NP.array(r)
            return self.result
        if not self.inner.get(0):
            raise Unsupported("no loop over the columns")
        self.unwritten(mark)
        self.result = r if isinstance(r, arrays.Arr) else arrays.NP.array(r)
        return self.result

    def made(self, buf):
        self.bufs.append(buf)

    def at(self, level):
        """the index that the loop is at: column, pass, row in the window, step, phase, entry of the pixels released to"""
        if level in self.idx:
            return self.idx[level]
        k = self.k[level]
        if level == COL:
            return add(self.c0, k)
        if level in (PASS, REL):
            return k
        return self.set_of(level).at(k)

    def set_of(self, level):
        with_ = {ROW: lambda: (lambda r, e=self.at(PASS): T.BApp("monitor", (e, r)), self.W), STEP: lambda: (lambda s: lt(ZERO, dwell(s)), self.S),
                 PHASE: lambda: (lambda p: lt(ZERO, T.app("density", p)), self.P)}[level]()
        return arrays.nonzero_of(*with_)

    def count(self, level):
        if level == COL:
            return sub(self.c1, self.c0)
        if level == PASS:
            return self.E
        if level == REL:
            return nrel(self.at(STEP), self.at(PHASE))
        return self.set_of(level)._shape[0]

    def padding(self):
        return sub(self.image._shape[0], self.NR)

    def wrap(self, i):
        """row of the padded image"""
        c = simp_(le(ZERO, i))
        if c == TRUE or ctx().entails(c):
            return i
        n = add(i, self.image._shape[0])
        if c == FALSE or ctx().entails(T.neg(c)):
            return n
        return i if ctx().decide(c) else n

    def read_row(self):
        return self.wrap(add(self.r0, self.at(ROW), cap(self.at(STEP), self.at(PHASE))))

    def write_row(self, q=None):
        q = self.at(REL) if q is None else q
        return self.wrap(add(self.r0, self.at(ROW), rel(self.at(STEP), self.at(PHASE), q)))

    def find_image(self):
        found = [b for b in self.bufs if len(b.shape) == 2 and b.dtype == "f" and b.shape[1] == self.NC and
                 (b.shape[0] == self.NR or ctx().entails(le(self.NR, b.shape[0])))]
        if len(found) != 1:
            raise Unsupported("the padded image: %d arrays" % len(found))
        self.image = arrays.Arr(found[0])
        pad = self.padding()
        mn, mx = arrays.extremum(self.accessed, 1), arrays.extremum(self.accessed, -1)
        self.mn, self.mx = num(mn), num(mx)
        prove("[C20] a padding row for each pixel accessed", eq(pad, sub(mx, mn)))
        i, j = I("i"), I("j")
        with sums.case():
            fact(T.conj(le(ZERO, i), lt(i, self.NR), le(ZERO, j), lt(j, self.NC)))
            prove("[C25 C12 C13 C14 C15] the padded image is a copy of the input", eq(self.image.at(i, j), self.im(i, j)))
        with sums.case():
            fact(T.conj(le(self.NR, i), lt(i, add(self.NR, pad)), le(ZERO, j), lt(j, self.NC)))
            prove("[C25 C13 C14 C15] the padding is empty", eq(self.image.at(i, j), ZERO))

    def start_image(self, i, j):
        return T.ite(lt(i, self.NR), self.im(i, j), ZERO)

    def unwritten(self, mark):
        """only the image, the trap states and arrays made since are written"""
        own = {self.image.buf, self.ST.buf, self.SV.buf}
        for x in arrays.log_since(mark):
            if x[0] in own:
                continue
            if x[0] is self.image_in.buf or x[0] in self.protected:
                prove("[C12] the inputs are not changed", FALSE)
            elif self.mark_id is not None and x[0].id < self.mark_id:
                raise Unsupported("an array is carried through a loop")
    mark_id = None

    # ---- the loop rule
    def loop(self, where, it, body, get, set_, names):
        if self.no_columns or not arrays.is_sym_iter(it) or getattr(it, "groups", False) or ctx().in_body or self.level >= REL:
            return None
        L = self.level + 1
        cx = ctx()
        n, item = arrays.iter_parts(it)
        n = num(n)
        if L == COL:
            self.find_image()
        if self.inner.get(L - 1):
            raise Unsupported("several loops over the %s" % LEVELS[L - 1])
        self.inner[L - 1] = True
        want = self.count(L)
        prove("[C25 C14 C15] all the %s" % LEVELS[L - 1], eq(n, want))
        if L > COL:
            self.plan.enter(L)
        self.plan.check(L, "at the start of the %s" % LEVELS[L - 1])
        poison = tuple(loops.Poison(x) if self.carried(v) else v for x, v in zip(names, get()))
        if cx.decide(T.BApp("iteration%d" % L)):
            k = T.V("k%d" % L, True)
            fact(le(ZERO, k))
            fact(lt(k, n))
            cx.seed(k, add(k, C(1)))
            self.k[L] = k
            self.level = L
            self.idx[L] = self.at(L)
            self.inner[L] = False
            self.plan.havoc(L, False)
            outer, self.mark_id = self.mark_id, next(arrays.Buf._n)
            mark = arrays.log_mark()
            set_(poison)
            r = body(item(k))
            if r[0] != "c":
                prove("[C25] all the %s" % LEVELS[L - 1], FALSE)
                raise core.EndPath()
            self.unwritten(mark)
            self.level = L
            if L < REL and not self.inner.get(L):
                self.plan.skipped(L)
            self.plan.leave(L)
            self.plan.check(L, "after the %s" % LEVELS[L - 1], next_=True)
            raise core.EndPath()
        self.k[L] = n
        self.plan.havoc(L, True)
        del self.k[L]
        set_(poison)
        return ("c", None)

    def carried(self, v):
        return loops.scalar(v) or isinstance(v, (arrays.Arr, loops.Poison)) or v is not None and not callable(v)


def simp_(c):
    return core.simp(c)


class Plan:
    """the invariant, and the steps of the second run"""
    nest = None

    def __init__(self):
        self.b = None

    # the second run ---------------------------------------------------------------
    def enter(self, L):
        """from the start of an iteration of the loop around L to the start of loop L"""
        if self.b is None:
            return
        if L == ROW:
            self.b.st = self.b.sv
        elif L == REL:
            self.traps_step()

    def leave(self, L):
        """from the end of the loop inside L to the end of L's iteration"""
        n, b = self.nest, self.b
        if b is None:
            return
        if L == REL:
            self.release_step()
        elif L == ROW:
            if ctx().decide(saved(n.at(PASS), n.at(ROW))):
                b.sv = b.st
        elif L == COL:
            if ctx().decide(T.BApp("emptied")):
                b.st = empty
            b.sv = b.st

    def skipped(self, L):
        """the loop inside L was not run"""
        n = self.nest
        if L != PHASE:
            raise Unsupported("no loop over the %s" % LEVELS[L])
        prove("[C25 C13] nothing is released only where the multiplier is 0", eq(mult(n.at(PASS), n.at(ROW)), ZERO))
        if self.b is not None:
            self.traps_step()

    def restoring(self):
        """the trap states are about to be replaced"""

    def called(self, st, new, p, free, out):
        pass

    def column(self):
        return self.nest.at(COL)

    def traps_step(self):
        n, b = self.nest, self.b
        s, p, d, m = n.at(STEP), n.at(PHASE), dwell(n.at(STEP)), mult(n.at(PASS), n.at(ROW))
        img, st = b.img, b.st
        free = img(n.read_row(), self.column()) if ctx().decide(high(s, p)) else ZERO
        b.st = lambda q, g: T.ite(eq(q, p), nxt(st(p, g), p, g, free, d, m), st(q, g))
        self.total = sums.total(ZERO, n.G, lambda g: out(st(p, g), p, g, free, d, m))

    def release_step(self):
        n, b = self.nest, self.b
        s, p, q, c, img = n.at(STEP), n.at(PHASE), n.at(REL), self.column(), b.img
        w = n.write_row()
        v = add(img(w, c), mul(self.total, frac(s, p, q), mult(n.at(PASS), n.at(ROW))))
        b.img = lambda i, j: T.ite(T.conj(eq(i, w), eq(j, c)), T.ite(lt(v, ZERO), ZERO, v), img(i, j))

    def agree(self, name, a, b):
        """the code's value is the spec's.  Where it is not: a fault of the explicit model (C25), and of this property only if the value
        depends on what it must not"""
        c = ctx()
        if not prove(self.tag + name, eq(a, b)):
            o, n = c.obligations, len(c.obligations) - 1
            with sums.case():
                fact(T.neg(eq(a, b)))
                if all(self.same_in_other(d) for d in c.decisions[self.since:]) and c.entails(eq(a, self.in_other(num(a)))):
                    o[n] = ("[C25] " + name,) + tuple(o[n][1:])
    since = 0

    def other(self, a):
        """what an input that must not matter is in another run; None if it must be the same"""

    def in_other(self, t):
        return T.rebuild(t, lambda x: self.other(x) if isinstance(x, T.App) else None, {})

    def same_in_other(self, d):
        e = self.in_other(d)
        return e == d or ctx().entails(e)

    # to be given --------------------------------------------------------------------
    def havoc(self, L, end):
        raise NotImplementedError

    def check(self, L, what, next_=False):
        raise NotImplementedError


def fresh_state(L, end):
    """arbitrary image, trap states and saved states"""
    x = "%d%s" % (L, "e" if end else "")
    return (lambda i, j: T.app("I" + x, i, j)), (lambda p, g: T.app("S" + x, p, g)), (lambda p, g: T.app("V" + x, p, g))


from . import loops
