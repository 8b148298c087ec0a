"""Contracts of AllTrapManager (trap_managers.py): states of every phase and group, saving and restoring"""
from .proof import *
import itertools

AM = "trap_managers.AllTrapManager."
MADE = [AM + "__init__", "trap_managers.TrapManager.__init__"]
KINDS = {"Trap": "TrapManager", "TrapInstantCapture": "TrapManagerInstantCapture", "TrapLogNormalLifetimeContinuum": "TrapManagerTrackTime"}


def group(L, g, kind):
    """a group of any number of species of this kind"""
    S = I("S%d" % g)
    fact(le(C(1), S))
    a = lambda k, i: N(T.app("%s%d" % (k, g), i))
    for k in ("tau", "tauc"):
        ctx().forall("%s%d" % (k, g), lambda i, k=k: lt(ZERO, T.app("%s%d" % (k, g), i)), k)
    args = {"Trap": lambda i: dict(density=a("dens", i), release_timescale=a("tau", i), capture_timescale=a("tauc", i)),
            "TrapInstantCapture": lambda i: dict(density=a("dens", i), release_timescale=a("tau", i))}
    if kind in args:
        return objects.make(getattr(L.pkg, kind), S, args[kind]), S
    fact(eq(S, C(1)))
    return [L.pkg.TrapLogNormalLifetimeContinuum(density=a("dens", ZERO), release_timescale_mu=2.0, release_timescale_sigma=0.5)], C(1)


def kind_of(m, kind):
    names = [k.__name__ for k in type(m).__mro__]
    own = [n for n in names if n in KINDS.values()]
    return TRUE if own and own[0] == KINDS[kind] else FALSE


class Pixel:
    """stands for the CCD: phases, and the fraction of the traps in each"""

    def __init__(self, phases):
        self.n_phases = phases
        self.fraction_of_traps_per_phase = arrays.NP.array([N(R("fraction%d" % p)) for p in range(phases)])
        for p in range(phases):
            fact(le(ZERO, R("fraction%d" % p)))


def some(*xs):
    """one of them, each on a path of its own"""
    for k, x in enumerate(xs[:-1]):
        if ctx().decide(T.BApp("choice %d of %s" % (k, xs))):
            return x
    return xs[-1]


def all_managers(L, most=3, kinds=tuple(KINDS)):
    phases = some(*range(1, most + 1))
    ks = [some(*kinds)]
    if ctx().decide(T.BApp("two groups")):
        ks.append(kinds[0] if ks[0] != kinds[0] or ctx().decide(T.BApp("same kind")) else kinds[1])
    gs = [group(L, g, k) for g, k in enumerate(ks)]
    n = I("transfers")
    fact(le(ZERO, n))
    traps = [g[0] for g in gs]
    if len(ks) == 1:
        traps = some("nested", "flat") == "nested" and traps or traps[0]
    ccd = Pixel(phases)
    return L.pkg.AllTrapManager(traps, N(n), ccd), phases, ks, [g[1] for g in gs]


def each(A, phases, ks):
    for p in range(phases):
        for g in range(len(ks)):
            yield p, g, A[p][g]


def same(what, got, value):
    """an array has these elements"""
    with sums.case():
        i, j = sums.arbitrary(ZERO, got._shape[0], "i"), sums.arbitrary(ZERO, got._shape[1], "j")
        prove(what, eq(num(got.at(i, j)), value(i, j)))


@proof("C19", functions=MADE)
def parts(L):
    """groups of any number of species of every kind: a manager per phase and group, of the group's kind, with the phase's fraction of every species'
    density, empty, and sharing nothing with the others"""
    A, phases, ks, Ss = all_managers(L)
    prove("[C19] an entry per phase", TRUE if len(A) == phases else FALSE)
    prove("[C19] a manager per group", TRUE if all(len(A[p]) == len(ks) for p in range(phases)) else FALSE)
    ms = list(each(A, phases, ks))
    for p, g, m in ms:
        prove("[C19] the manager's kind", kind_of(m, ks[g]))
        W, S = m.watermarks, Ss[g]
        prove("[C19] a column per species", eq(W._shape[1], add(S, C(1))))
        same("[C19] empty at the start", W, lambda i, j: ZERO)
        with sums.case():
            q = sums.arbitrary(ZERO, S, "species")
            prove("[C19] the phase's fraction of the density", eq(num(m.n_traps_per_pixel.at(q)), mul(T.app("dens%d" % g, q), R("fraction%d" % p))))
    for (p, g, m), (p2, g2, m2) in itertools.permutations(ms, 2):
        prove("[C19] phases and groups share no state", FALSE if m is m2 or m.watermarks.buf is m2.watermarks.buf or m.n_traps_per_pixel.buf is m2.n_traps_per_pixel.buf else TRUE)


def count(A, phases, ks):
    """the electrons held by a manager, as any function of its state"""
    for p, g, m in each(A, phases, ks):
        m.n_trapped_electrons_from_watermarks = lambda W, p=p, g=g: N(T.app("held%d_%d" % (p, g), num(W.at(ZERO, ZERO))))


@proof("C19", functions=[AM + "n_electrons_trapped_currently"])
def held(L):
    """the electrons held are those in the managers of all phases and groups"""
    A, phases, ks, Ss = all_managers(L)
    count(A, phases, ks)
    n = num(A.n_electrons_trapped_currently)
    prove("[C19] the electrons held in all phases and groups", eq(n, add(*[T.app("held%d_%d" % (p, g), ZERO) for p, g, m in each(A, phases, ks)])))


class Histories:
    def __init__(self, L, A, phases, ks, Ss):
        self.A, self.phases, self.ks, self.Ss, self.n = A, phases, ks, Ss, 0

    def change(self, how):
        """the states become arbitrary ones, in the same arrays or in others"""
        self.n += 1
        for p, g, m in each(self.A, self.phases, self.ks):
            f = self.state(p, g)
            if how == "in place":
                m.watermarks.write(lambda i, j: TRUE, f)
            else:
                rows = T.V("rows%d" % self.n, True)
                fact(le(C(1), rows))
                m.watermarks = arrays.Arr.make([rows, add(self.Ss[g], C(1))], f)

    def state(self, p, g):
        n = self.n
        return lambda i, j: T.app("state%d_%d_%d" % (n, p, g), i, j)

    def states(self):
        return {(p, g): (list(m.watermarks._shape), self.state(p, g)) for p, g, m in each(self.A, self.phases, self.ks)}

    def check(self, what, states=None):
        prove("[C19] as many phases and groups: " + what, TRUE if len(self.A) == self.phases and all(len(x) == len(self.ks) for x in self.A) else FALSE)
        ms = list(each(self.A, self.phases, self.ks))
        for p, g, m in ms:
            W = m.watermarks
            if states is None:
                same("[C19] empty: " + what, W, lambda i, j: ZERO)
                prove("[C19] room: " + what, le(C(1), W._shape[0]))
                prove("[C19] columns: " + what, eq(W._shape[1], add(self.Ss[g], C(1))))
            else:
                shape, f = states[p, g]
                prove("[C19] size of the state: " + what, T.conj(*[eq(a, b) for a, b in zip(W._shape, shape)]))
                same("[C19] the state saved: " + what, W, f)
            prove("[C19] the manager's kind: " + what, kind_of(m, self.ks[g]))
            with sums.case():
                q = sums.arbitrary(ZERO, self.Ss[g], "species")
                prove("[C19] densities: " + what, eq(num(m.n_traps_per_pixel.at(q)), mul(T.app("dens%d" % g, q), R("fraction%d" % p))))
        for (_, _, m), (_, _, m2) in itertools.combinations(ms, 2):
            prove("[C19] share no state: " + what, FALSE if m is m2 or m.watermarks.buf is m2.watermarks.buf else TRUE)


@proof("C19", functions=[AM + "save", AM + "restore", AM + "empty_all_traps", "trap_managers.TrapManager.empty_all_traps", AM + "n_electrons_trapped_currently"])
def histories(L):
    """from arbitrary states, changed arbitrarily in between: restoring brings back the states at the last save, again and again, and empty traps if nothing was
    saved; emptying empties all"""
    A, phases, ks, Ss = all_managers(L, most=2)
    count(A, phases, ks)
    H = Histories(L, A, phases, ks, Ss)
    how = some("in place", "in other arrays")
    if ctx().decide(T.BApp("nothing saved")):
        for k in range(2):
            H.change(how)
            A.restore()
            H.check("restored, nothing saved")
        H.change(how)
        A.empty_all_traps()
        H.check("emptied")
        return
    at_once = ctx().decide(T.BApp("restored at once"))
    for k in range(2):
        H.change("in other arrays")
        saved = H.states()
        A.save()
        H.check("after saving", saved)
        if at_once:
            A.restore()
            H.check("restored at once", saved)
        H.change(how)
        A.restore()
        H.check("restored", saved)
        H.change(how)
        A.restore()
        H.check("restored again", saved)
        A.empty_all_traps()
        H.check("emptied after restoring")
        A.restore()
        H.check("restored after emptying", saved)


class Heap:
    """what is reachable from an object, up to the contents of the managers' states and the object's own counters"""

    def __init__(self, A):
        self.names, self.keep, self.out = {}, [], []
        self.go(A, ())

    def ref(self, x):
        self.keep.append(x)
        return self.names.setdefault(id(x), len(self.names))

    @staticmethod
    def value(x):
        if isinstance(x, X):
            return x.t, x.pinf, x.ninf, x.nan
        return repr(x) if isinstance(x, float) and x - x != 0 else num(x)

    def go(self, x, path):
        if isinstance(x, arrays.Arr):
            i = [T.V("at%d" % k, True) for k in range(len(x._shape))]
            own = path[-1] == "watermarks"
            self.out.append((path, "array", self.ref(x.buf), len(x._shape), None if own else (tuple(num(n) for n in x._shape), self.value(x.at(*i)))))
        elif isinstance(x, (bool, str, type(None))) or isinstance(x, B):
            self.out.append((path, x))
        elif isinstance(x, (int, float, N, X)):
            self.out.append((path, "number", None if len(path) == 1 else self.value(x)))
        elif isinstance(x, (list, tuple)):
            seen = id(x) in self.names
            self.out.append((path, type(x).__name__, self.ref(x), len(x)))
            for k, y in enumerate(() if seen else x):
                self.go(y, path + (k,))
        elif isinstance(x, dict) or hasattr(x, "__dict__") and not callable(x):
            seen = id(x) in self.names
            d = x if isinstance(x, dict) else x.__dict__
            self.out.append((path, type(x).__name__, self.ref(x), tuple(sorted(map(str, d)))))
            for k in sorted(d, key=str) if not seen else ():
                if isinstance(x, arrays.SymList) or type(x).__module__.startswith("vc."):
                    continue
                self.go(d[k], path + (k,))
        else:
            self.out.append((path, type(x).__name__))


def as_before(a, b):
    """the same up to the contents of the states: what is proved from the one, for every content, holds for the other"""
    if a.out != b.out:
        d = [(x, y) for x, y in itertools.zip_longest(a.out, b.out) if x != y][0]
        raise Unsupported("the managers are built differently after another history: %s" % str(d)[:300])


def any_counters(A):
    for k, v in A.__dict__.items():
        if isinstance(v, (int, float, N)) and not isinstance(v, bool):
            A.__dict__[k] = N(T.fresh("counter"))


@proof("C19", functions=[AM + "save", AM + "restore", AM + "empty_all_traps", "trap_managers.TrapManager.empty_all_traps", AM + "n_electrons_trapped_currently"])
def any_history(L):
    """histories of any length, by induction: with nothing saved, or with an arbitrary state saved, an arbitrary live state and arbitrary counters, each of an update,
    a save, a restore and an emptying leads to objects that are built alike (same objects, nothing shared that was not), with the right states live and saved"""
    A, phases, ks, Ss = all_managers(L, most=2)
    count(A, phases, ks)
    H = Histories(L, A, phases, ks, Ss)
    H.change(some("in other arrays", "in place"))
    saved = None
    if not ctx().decide(T.BApp("nothing saved")):
        saved = H.states()
        A.save()
        H.change("in place")
    any_counters(A)
    before = Heap(A)
    live = H.states()
    op = some("update", "update in place", "save", "restore", "empty")
    if op.startswith("update"):
        H.change("in place" if op.endswith("place") else "in other arrays")
    elif op == "save":
        if saved is None:
            # the step that leads from nothing saved to something saved: the state that the other histories start from
            A.save()
            H.check("saved for the first time", live)
            return
        A.save()
        H.check("after saving", live)
        saved = live
    elif op == "restore":
        A.restore()
        H.check("restored", saved)
    else:
        A.empty_all_traps()
        H.check("emptied")
    after = Heap(A)
    H.change("in place")
    A.restore()
    H.check("restored next", saved)
    as_before(before, after)
