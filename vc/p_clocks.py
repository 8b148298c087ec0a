"""Contracts of the clock sequences (roe.py)"""
from .proof import *
from . import loops

SEQ = ["roe.ROEAbstract._generate_clock_sequence", "roe.ROEPhase.__init__"]


def bare(L, cls, phases, pump, force):
    """a readout object of this many phases, before its clock sequence is made"""
    roe = object.__new__(getattr(L.pkg, cls))
    steps = mul(C(2), phases) if pump else phases
    roe._dwell_times = arrays.SymList(steps, lambda i: N(T.app("dwell", i)))
    roe.force_release_away_from_readout = force
    roe.n_pumps, roe.n_pixel_transfers = N(C(1)), None
    return roe, steps


def items(a):
    """the elements of a sequence of one or two"""
    n, f = arrays.seq(a)
    n = num(n)
    for k in (1, 2):
        if n == C(k) or n.const() is None and ctx().decide(eq(n, C(k))):
            return [num(f(C(j))) for j in range(k)]
    prove("[C11] released to one or two pixels", FALSE)
    raise core.EndPath()


def phase_of(seq, s, p):
    ph = seq[N(s)][N(p)]
    return cond(ph.is_high), num(ph.capture_from_which_pixel), items(ph.release_to_which_pixels), items(ph.release_fraction_to_pixel)


def sequence(L, cls, pump, force):
    n = I("n_phases")
    fact(le(C(1), n))
    roe, steps = bare(L, cls, n, pump, force)
    prove("[C11] number of phases", eq(roe.n_phases, n))
    prove("[C11] number of steps", eq(roe.n_steps, steps))
    seq = roe._generate_clock_sequence()
    prove("[C11] an entry per step", eq(arrays.b_len(seq), steps))
    return n, steps, seq


@proof("C11", functions=SEQ)
def clock_sequence(L):
    """any number of phases, standard readout, charge injection and trap pumping: in every step exactly one phase is high, which releases to the pixel that it
    captures from; release fractions are positive and add up to 1; with forced release nothing is released before the pixel itself"""
    pump = ctx().decide(T.BApp("trap pumping"))
    force = False if pump else ctx().decide(T.BApp("forced"))
    n, steps, seq = sequence(L, "ROETrapPumping" if pump else "ROE", pump, force)
    s = sums.arbitrary(ZERO, steps, "step")
    prove("[C11] a phase per phase", eq(arrays.b_len(seq[N(s)]), n))
    p, q = sums.arbitrary(ZERO, n, "phase"), sums.arbitrary(ZERO, n, "other")
    high, cap, to, part = phase_of(seq, s, p)
    prove("[C11] a fraction for every pixel released to", TRUE if len(to) == len(part) else FALSE)
    prove("[C11] positive fractions", T.conj(*[lt(ZERO, x) for x in part]))
    prove("[C11] the fractions add up to 1", eq(add(*part), C(1)))
    if ctx().decide(high):
        prove("[C11] the high phase releases to one pixel", TRUE if len(to) == 1 else FALSE)
        prove("[C11] the high phase releases to where it captures from", eq(to[0], cap))
        with sums.case():
            prove("[C11] no two phases are high", T.implies(phase_of(seq, s, q)[0], eq(p, q)))
    if force:
        prove("[C11] released no nearer to readout", T.conj(*[le(ZERO, x) for x in to]))
    # the high phase: 0, 1, ..., and back
    at = T.ite(lt(s, n), s, T.ite(eq(s, n), ZERO, sub(mul(C(2), n), s)))
    with sums.case():
        fact(eq(p, at))
        prove("[C11] a phase is high", high)


@proof("C11", functions=SEQ)
def pumping_retraces(L):
    """trap pumping: step n_phases + k is step n_phases - k"""
    n, steps, seq = sequence(L, "ROETrapPumping", True, False)
    k, p = sums.arbitrary(C(1), n, "k"), sums.arbitrary(ZERO, n, "phase")
    a, b = phase_of(seq, add(n, k), p), phase_of(seq, sub(n, k), p)
    prove("[C11] retraced: high", T.conj(T.implies(a[0], b[0]), T.implies(b[0], a[0])))
    prove("[C11] retraced: captured from", eq(a[1], b[1]))
    prove("[C11] retraced: number of pixels released to", TRUE if len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]) else FALSE)
    prove("[C11] retraced: released to", T.conj(*[eq(x, y) for x, y in zip(a[2] + a[3], b[2] + b[3])]))


# ------------------------------------------------------------------ pixels accessed

class Entry:
    """an entry of an arbitrary clock sequence, that releases to one or two pixels"""

    def __init__(self, s, p):
        self.capture_from_which_pixel = N(T.app("captured", s, p, is_int=True))
        self.two = T.BApp("two", (s, p))
        self.at = s, p

    @property
    def release_to_which_pixels(self):
        k = 2 if ctx().decide(self.two) else 1
        s, p = self.at
        return arrays.Arr.make([C(k)], lambda i: T.app("released", s, p, i, is_int=True), "i")


def accessed(v, s, p):
    return T.disj(eq(v, T.app("captured", s, p, is_int=True)), eq(v, T.app("released", s, p, ZERO, is_int=True)),
                  T.conj(T.BApp("two", (s, p)), eq(v, T.app("released", s, p, C(1), is_int=True))))


class Collect:
    """the loop rule for two nested loops that add the pixels of an entry, in every iteration, to an array; the array's elements, in any order, are pixel 0
    and those of the iterations so far"""

    def __init__(self, counts):
        self.counts, self.depth, self.at = counts, 0, []
        self.tag = "[C11] "

    def made(self, buf):
        pass

    def loop(self, where, it, body, get, set_, names):
        if ctx().in_body or not arrays.is_sym_iter(it):
            return None
        if self.depth == 2:
            raise T.Unsupported("a third loop")
        self.depth += 1
        n, item = arrays.iter_parts(it)
        n = num(n)
        prove("[C11] an iteration per step" if self.depth == 1 else "[C11] an iteration per phase", eq(n, self.counts[self.depth - 1]))
        v0 = get()
        ks = [k for k, v in enumerate(v0) if isinstance(v, (arrays.Arr, list))]
        if len(ks) != 1:
            raise T.Unsupported("not one array in a loop")
        k = ks[0]
        start = v0[k] if isinstance(v0[k], arrays.Arr) else arrays.NP.array(v0[k])
        if start.ndim != 1:
            raise T.Unsupported("not a list of pixels")
        if self.depth == 1:
            if start._shape[0] != C(1):
                raise T.Unsupported("not one pixel to start with")
            prove("[C11] pixel 0 is referred to", eq(num(start.at(ZERO)), ZERO))

        def array(tag):
            m = T.V("length " + tag, True)
            fact(le(C(1), m))
            return arrays.Arr.make([m], lambda i: T.app("pixel " + tag, i, is_int=True), "i")

        def put(X):
            set_(tuple(X if j == k else loops.Poison(x) for j, x in enumerate(names)))

        u = T.V("%s%d" % ("u", self.depth), True)
        if ctx().decide(T.BApp("iteration %d" % self.depth)):
            fact(le(ZERO, u))
            fact(lt(u, n))
            x = item(u)
            at = num(x) if isinstance(x, N) else u
            if at != u and at != sub(sub(n, C(1)), u):
                raise T.Unsupported("the order of the iterations")
            self.at.append(at)
            X = array("before %d" % self.depth)
            old = X.snap()
            put(X)
            r = body(item(u))
            if r[0] != "c":
                raise T.Unsupported("the loop ends early")
            Y = get()[k]
            if not isinstance(Y, arrays.Arr) or Y.ndim != 1:
                raise T.Unsupported("not an array after an iteration")
            if len(self.at) == 2:
                m, m2 = X._shape[0], Y._shape[0]
                d = num(sub(m2, m)).const()
                if d is None or not 0 <= d <= 8:
                    raise T.Unsupported("the number of pixels added")
                d = int(d)
                put_ = [num(Y.at(add(m, C(j)))) for j in range(d)] + [num(Y.at(C(j))) for j in range(d)]
                s, p = self.at
                has = lambda v: T.disj(*[eq(v, x) for x in put_])
                prove("[C11] the pixel captured from is referred to", has(T.app("captured", s, p, is_int=True)))
                prove("[C11] the pixels released to are referred to", T.conj(has(T.app("released", s, p, ZERO, is_int=True)), T.implies(T.BApp("two", (s, p)), has(T.app("released", s, p, C(1), is_int=True)))))
                with sums.case():
                    i = sums.arbitrary(ZERO, m, "i")
                    prove("[C11] pixels stay referred to", T.disj(*[eq(num(Y.at(add(i, C(j)))), old(i)) for j in range(d + 1)]))
                with sums.case():
                    i = sums.arbitrary(ZERO, m2, "i")
                    v = num(Y.at(i))
                    known = T.disj(*[T.conj(le(C(j), i), lt(i, add(m, C(j))), eq(v, old(add(i, C(-j))))) for j in range(d + 1)])
                    prove("[C11] no other pixels are referred to", T.disj(known, accessed(v, s, p)))
            else:
                if Y is not self.inner:
                    raise T.Unsupported("the array changes between the loops")
            raise core.EndPath()
        if self.depth == 2:
            if start is not v0[k] or not str(start.at(u)).startswith("pixel before 1("):
                raise T.Unsupported("the array changes between the loops")
            self.inner = array("after 2")
            put(self.inner)
            return ("c", None)
        # after all iterations
        X = array("referred to")
        f = lambda i: T.app("pixel referred to", i, is_int=True)
        w = lambda name, *a: T.app(name, *a, is_int=True)
        c = ctx()
        S, P = self.counts
        c.forall("pixel referred to", lambda i: T.implies(T.conj(le(ZERO, i), lt(i, X._shape[0])), T.disj(eq(f(i), ZERO), T.conj(
            le(ZERO, w("its step", i)), lt(w("its step", i), S), le(ZERO, w("its phase", i)), lt(w("its phase", i), P),
            accessed(f(i), w("its step", i), w("its phase", i))))), "referred to (rule)")
        self.m, self.f = X._shape[0], f
        put(X)
        return ("c", None)


@proof("C11", functions=["roe.ROEAbstract._generate_pixels_accessed_during_clocking"])
def pixels_accessed(L):
    """any sequence of clocks of any number of steps and phases: the pixels accessed are, in increasing order and each once, pixel 0 and all captured from
    or released to, and no others"""
    S, P = I("n_steps"), I("n_phases")
    fact(le(C(1), S))
    fact(le(C(1), P))
    cls = type("Sequence", (L.pkg.ROEAbstract,), dict(n_phases=N(P), n_steps=N(S)))
    roe = object.__new__(cls)
    roe.clock_sequence = arrays.SymList(S, lambda s: arrays.SymList(P, lambda p: Entry(s, p)))
    tr = ctx().tracer = Collect((S, P))
    try:
        U = roe._generate_pixels_accessed_during_clocking()
    finally:
        ctx().tracer = None
    if tr.depth == 0 or not isinstance(U, arrays.Arr) or U.ndim != 1:
        raise T.Unsupported("no loop over the steps")
    n = U._shape[0]
    w = lambda name, *a: T.app(name, *a, is_int=True)
    e = sums.arbitrary(ZERO, n, "e")
    v = num(U.at(e))
    with sums.case():
        d = sums.arbitrary(e, n, "d")
        fact(lt(e, d))
        prove("[C11] in increasing order, each once", lt(v, num(U.at(d))))
    with sums.case():
        fact(T.neg(eq(v, ZERO)))
        ctx().forall("its step", lambda i: T.neg(T.conj(
            le(ZERO, w("its step", i)), lt(w("its step", i), S), le(ZERO, w("its phase", i)), lt(w("its phase", i), P), accessed(v, w("its step", i), w("its phase", i)))), "not accessed")
        prove("[C11] no other pixels", FALSE)
    names = [a.f for a, q in T.atoms(v).items() if isinstance(a, T.App)]
    if len(names) != 1:
        raise T.Unsupported("the pixels returned")
    s, p = sums.arbitrary(ZERO, S, "s"), sums.arbitrary(ZERO, P, "p")
    for what, v in (("pixel 0", ZERO), ("the pixel captured from", w("captured", s, p)), ("a pixel released to", w("released", s, p, ZERO)), ("another pixel released to", w("released", s, p, C(1)))):
        with sums.case():
            i = w("index of " + what, s, p)
            ctx().seed(i)
            fact(T.implies(T.BApp("two", (s, p)) if what[:2] == "an" else TRUE, T.conj(le(ZERO, i), lt(i, tr.m), eq(tr.f(i), v))))
            if what[:2] == "an":
                fact(T.BApp("two", (s, p)))
            ctx().forall(names[0], lambda j: T.implies(T.conj(le(ZERO, j), lt(j, n)), T.neg(eq(num(U.at(j)), v))), "not in it")
            prove("[C11] %s is one of them" % what, FALSE)


@proof("C11", functions=["roe.ROEAbstract.__init__", "roe.ROE.__init__", "roe.ROEChargeInjection.__init__", "roe.ROETrapPumping.__init__", "roe.ROEAbstract.dwell_times", "roe.ROETrapPumping.dwell_times"])
def constructors(L):
    """a single dwell time, or a list of them: the objects keep the sequence of clocks, made with the dwell times and settings that they keep, and then the pixels accessed in it"""
    k = 0 if ctx().decide(T.BApp("standard")) else 1 if ctx().decide(T.BApp("injection")) else 2
    base = getattr(L.pkg, ["ROE", "ROEChargeInjection", "ROETrapPumping"][k])
    made = {}

    def clocks(self):
        made.update(times=self.dwell_times, force=self.force_release_away_from_readout, sequence=object())
        return made["sequence"]

    def pixels(self):
        made.update(of=self.clock_sequence, pixels=object())
        return made["pixels"]
    cls = type("Made", (base,), dict(_generate_clock_sequence=clocks, _generate_pixels_accessed_during_clocking=pixels))
    times = [0.5, N(R("dwell"))] if ctx().decide(T.BApp("two dwell times")) else N(R("dwell"))
    if k == 2 and not isinstance(times, list):
        times = [times, 2.0]
    roe = cls(dwell_times=times)
    kept = roe.dwell_times
    given = times if isinstance(times, list) else [times]
    prove("[C11] the dwell times given", TRUE if len(kept) == len(given) and all(num(a) == num(b) for a, b in zip(kept, given)) else FALSE)
    force = False if k == 2 else ctx().decide(T.BApp("forced"))
    if k != 2:
        roe = cls(dwell_times=times, force_release_away_from_readout=force)
    prove("[C11] the settings that the sequence was made with", TRUE if made["force"] == roe.force_release_away_from_readout == force and list(made["times"]) == list(kept) else FALSE)
    prove("[C11] the sequence kept", TRUE if roe.clock_sequence is made["sequence"] else FALSE)
    prove("[C11] the pixels accessed in it", TRUE if roe.pixels_accessed_during_clocking is made["pixels"] and made["of"] is roe.clock_sequence else FALSE)
