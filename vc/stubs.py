"""Contracts of the functions that the trap managers call, as stand-ins for their bodies.

Each stand-in proves the callee's precondition and assumes its postcondition; the postconditions are proved from the callees'
own bodies in p_kernels.py and p_managers.py.  A function that is not replaced here is executed from its source.

The contracts say, for an array of watermarks with K occupied levels: the levels stay physical (K levels of positive volume,
fills in [0, 1], nothing elsewhere), the electrons held and the total volume are kept, and for one arbitrary depth x the level g
that holds it and its fills are followed (so what is proved about the fills of level g holds at every depth)."""
from .proof import *
from . import wm

KERNELS = {"cy_n_trapped_electrons_from_watermarks": "n_trapped", "cy_value_in_cumsum": "in_cumsum",
           "cy_watermark_index_above_cloud_from_cloud_fractional_volume": "index_above",
           "cy_update_watermark_volumes_for_cloud_below_highest": "split"}
METHODS = {"make_space_for_new_watermarks": "make_space", "collapse_redundant_watermarks": "collapse",
           "updated_watermarks_from_capture_not_enough": "not_enough"}


# ---- what is known of an array with K occupied levels: facts for the managers' proofs, obligations in p_levels.py

def consequences(a, K, nd):
    """of the levels below K having positive volume and non-negative contents, and the others being empty"""
    Rn, M = a._shape
    return [("volume of all rows", eq(wm.cum(a, Rn), wm.cum(a, K))),
            ("first unused row holds nothing", eq(sums.total(C(1), M, lambda j: mul(a.at(K, j), nd(sub(j, C(1))))), ZERO)),
            ("no levels hold nothing", T.implies(eq(K, ZERO), eq(wm.held(a, nd), ZERO))),
            ("levels have volume", T.implies(lt(ZERO, K), lt(ZERO, wm.cum(a, K)))),
            ("non-negative", le(ZERO, wm.held(a, nd)))]


def depth(a, K, g, x):
    """level g holds the depth x, or x is deeper than all levels and g == K"""
    return [("a level", T.conj(le(ZERO, g), le(g, K))),
            ("the level that holds x", T.implies(lt(g, K), T.conj(lt(wm.cum(a, g), x), le(x, wm.cum(a, add(g, C(1))))))),
            ("deeper than all", T.implies(eq(g, K), lt(wm.cum(a, K), x)))]


def depth_within(a, K, g, x):
    """follows since volumes are not negative"""
    return [("not deeper than all", T.implies(lt(g, K), le(x, wm.cum(a, K))))]


def depth_beside(a, K, g, x, r):
    """a level r and the depth x"""
    u, v = wm.cum(a, add(r, C(1))), wm.cum(a, r)
    on = lt(r, K)
    return [("x up to the level", T.implies(on, T.conj(T.implies(le(x, u), le(g, r)), T.implies(lt(u, x), lt(r, g))))),
            ("x up to the level below", T.implies(on, T.conj(T.implies(le(x, v), lt(g, r)), T.implies(lt(v, x), le(r, g)))))]


def above_post(a, K, v, r):
    """r is the first level up to which the volume reaches v > 0, not more than the volume of all levels"""
    return [("a row", T.conj(le(ZERO, r), lt(r, a._shape[0]))),
            ("a level, if there are any", T.disj(lt(r, K), T.conj(eq(r, ZERO), eq(K, ZERO)))),
            ("reaches v", le(v, wm.cum(a, add(r, C(1))))),
            ("the first to reach v", T.implies(lt(ZERO, r), lt(wm.cum(a, r), v)))]


def space_post(a, A, K, per_transfer, at):
    return [("no fewer rows", le(a._shape[0], A._shape[0])),
            ("room for the levels of a transfer", lt(add(K, C(per_transfer)), A._shape[0]))] + \
           [("volume up to " + n, eq(wm.cum(A, u), wm.cum(a, u))) for n, u in at]


def split_depth(g, g1, m, v, x):
    return [("the level of x", T.disj(T.conj(lt(g, m), eq(g1, g)), T.conj(lt(m, g), eq(g1, add(g, C(1)))),
                                      T.conj(eq(g, m), T.disj(T.conj(le(x, v), eq(g1, m)), T.conj(lt(v, x), eq(g1, add(m, C(1))))))))]


def split_post(a, A, K, v, m):
    """a: before, A: after"""
    m1 = add(m, C(1))
    return [("total volume", eq(wm.cum(A, add(K, C(1))), wm.cum(a, K))),
            ("volume below", eq(wm.cum(A, m), wm.cum(a, m))),
            ("volume up to the cloud", eq(wm.cum(A, m1), v))]


def collapse_depth(K, g, k, g1):
    """levels 0 .. k-1 become level 0"""
    k1 = sub(k, C(1))
    return [("merged levels", T.conj(le(C(1), k), T.disj(le(k, K), eq(k, C(1))))),
            ("the level of x", T.disj(T.conj(lt(g, k), eq(g1, ZERO), lt(ZERO, K)), T.conj(le(k, g), eq(g1, sub(g, k1))),
                                      T.conj(eq(K, ZERO), eq(g, ZERO), eq(g1, ZERO))))]


def new_level_depth(a, K, x, g, g1):
    """level K has been added to levels 0 .. K-1, of which g held x"""
    v = wm.cum(a, add(K, C(1)))
    return [("the level of x", T.disj(T.conj(lt(g, K), eq(g1, g)), T.conj(eq(g, K), le(x, v), eq(g1, K)), T.conj(eq(g, K), lt(v, x), eq(g1, add(K, C(1))))))]


def facts(post):
    for _, c in post:
        fact(c)


def obligations(what, post):
    for n, c in post:
        prove(what + ": " + n, c)


def frozen(x):
    if isinstance(x, arrays.Arr):
        return arrays.Arr.make(x._shape, x.snap(), x.buf.dtype)
    if isinstance(x, tuple):
        return tuple(frozen(y) for y in x)
    return x


class Ghost:
    def __init__(self, L, m, S, per_transfer, fills=True):
        """fills: the arrays hold fill fractions"""
        self.L, self.m, self.S, self.fills, self.per_transfer = L, m, S, fills, per_transfer
        self.n = 0
        self.calls, self.K_in = [], None
        self.names = {}
        self.above = self.last_split = None
        self.merged = FALSE
        self.mod = L.mods["arcticpy.trap_managers"]
        self.M = add(S, C(1))
        self.nd = wm.dens
        c = ctx()
        # an arbitrary depth
        self.x = R("x")
        pos(self.x)
        fact(le(self.x, C(1)))
        # an arbitrary physical state with K levels
        self.K, self.g, self.Rn = I("K"), I("g"), I("rows")
        nonneg(self.K)
        fact(lt(self.K, self.Rn))
        c.seed(self.K, self.g)
        # an arbitrary species
        self.j = sums.arbitrary(C(1), self.M, "species")
        self.W = self.new("W", self.Rn, stem=True)
        self.K0, self.g0 = self.K, self.g
        self.start = None     # what was held when the initial levels were copied
        self.H0, self.V0 = self.held(self.W), self.abbreviate("volume", wm.cum(self.W, self.K))
        fact(le(self.V0, C(1)))
        self.at_depth(self.W)

    def __enter__(self):
        self.saved = {k: self.mod.__dict__[k] for k in KERNELS if k in self.mod.__dict__}
        for k in self.saved:
            self.mod.__dict__[k] = self.recorded(KERNELS[k])
        for k, v in METHODS.items():
            self.m.__dict__[k] = self.recorded(v)
        self.m.watermarks = self.W.copy()
        arrays.MEMBER[0] = self.member
        return self

    def __exit__(self, *a):
        arrays.MEMBER[0] = None
        self.mod.__dict__.update(self.saved)
        for k in METHODS:
            self.m.__dict__.pop(k, None)

    def recorded(self, name):
        """the stand-in; its arguments and results are kept for Follow"""
        f = getattr(self, name)

        def g(*a, **k):
            rec = {"name": name, "args": [frozen(x) for x in a], "kw": {n: frozen(x) for n, x in k.items()}, "before": frozen(self.m.watermarks)}
            r = f(*a, **k)
            rec.update(K_in=self.K_in, main=self.last_split is not None, out=frozen(r), args_after=[frozen(x) for x in a], after=frozen(self.m.watermarks), K=self.K)
            self.calls.append(rec)
            return r
        return g

    # ---- helpers
    def abbreviate(self, name, t):
        v = T.fresh(name)
        fact(eq(v, t))
        return v

    def held(self, a, known=None):
        """the electrons held, by one name for every sum (known: the sum is known to be this)"""
        t = wm.held(a, self.nd)
        if t not in self.names:
            if known is None:
                self.names[t] = self.abbreviate("held", t)
            else:
                self.names[t] = known
                fact(eq(t, known))
        elif known is not None:
            fact(eq(t, known))
        return self.names[t]

    def new(self, name, Rn, stem=False):
        """an arbitrary physical array with K levels"""
        c = ctx()
        self.n += 1
        nm = name if stem else "%s%d" % (name, self.n)
        a = wm.arr(nm, Rn, self.M)
        wm.physical(a, self.K, nm, self.fills)
        c.seed(self.K)
        facts(consequences(a, self.K, self.nd))
        a = a.copy()
        a.ghost_name = nm
        return a

    def at_depth(self, a):
        facts(depth(a, self.K, self.g, self.x))
        facts(depth_within(a, self.K, self.g, self.x))
        ctx().seed(self.g)

    def row(self, new, old, cond=TRUE):
        """fact: the fills of new's level g are those given by old(j)"""
        nm, g = new.ghost_name, self.g
        ctx().forall(nm, lambda i, j: T.implies(T.conj(cond, eq(i, g), le(C(1), j)), eq(T.app(nm, i, j), old(j))), nm + " at depth")

    def levels(self, a):
        """the number of occupied levels of a: K, or one more after the code has made a new level"""
        c = ctx()
        if c.decide(eq(wm.vol(a, self.K), ZERO)):
            return self.K
        # the new level reaches from the old total volume to the new one
        old = self.g
        self.g = T.fresh("g", True)
        facts(new_level_depth(a, self.K, self.x, old, self.g))
        self.K = add(self.K, C(1))
        c.seed(self.K)
        c.seed(self.g)
        prove("[C03 C20] new level: the next is unused", eq(wm.vol(a, self.K), ZERO))
        return self.K

    def same_volumes(self, a, b, upto, what):
        """obligation: the arrays have the same volumes; fact: so have their first u levels"""
        s, t = a.snap(), b.snap()
        for u in upto:
            sums.sum_eq("[C02 C05] " + what + ": the copy has the same volumes", ZERO, u, lambda k: s(k, ZERO), lambda k: t(k, ZERO))

    def physical(self, a, what):
        """obligations: the first K levels have positive volume and fills in [0, 1], the others are empty"""
        Rn, M = a._shape
        with sums.case():
            i, j = sums.arbitrary(ZERO, Rn, "i"), sums.arbitrary(ZERO, M, "j")
            x = a.at(i, j)
            with sums.case():
                fact(lt(i, self.K))
                prove("[C03] " + what + ": occupied levels have positive volume", lt(ZERO, a.at(i, ZERO)))
                if self.fills:
                    with sums.case():
                        fact(lt(ZERO, j))
                        x = a.at(i, j)
                        prove("[C03] " + what + ": fills in [0, 1]", T.conj(le(ZERO, x), le(x, C(1))))
            with sums.case():
                fact(le(self.K, i))
                prove("[C03] " + what + ": unused levels are empty", eq(a.at(i, j), ZERO))

    def attempted(self, a, b):
        """called with the levels after unlimited capture and the initial ones, before they are collapsed"""

    def volumes(self, a, what):
        """obligations: the first K levels have positive volume, the others none"""
        with sums.case():
            i = sums.arbitrary(ZERO, a._shape[0], "i")
            with sums.case():
                fact(lt(i, self.K))
                prove("[C03 C05] " + what + ": occupied levels have positive volume", lt(ZERO, a.at(i, ZERO)))
            with sums.case():
                fact(le(self.K, i))
                prove("[C03 C05] " + what + ": unused levels have none", eq(a.at(i, ZERO), ZERO))

    # ---- contracts
    def n_trapped(self, watermarks, n):
        with sums.case():
            j = sums.arbitrary(ZERO, self.S, "species")
            prove("[C01 C02] n trapped: the densities of the species", eq(arrays.seq(n).at(j) if not isinstance(n, arrays.Arr) else n.at(j), self.nd(j)))
        with sums.case():
            i, j = sums.arbitrary(ZERO, watermarks._shape[0], "i"), sums.arbitrary(C(1), self.M, "j")
            prove("[C03] n trapped: levels have non-negative contents", T.conj(le(ZERO, watermarks.at(i, ZERO)), le(ZERO, watermarks.at(i, j))))
        h = self.held(watermarks)
        fact(le(ZERO, h))
        return N(h)

    def make_space(self):
        c = ctx()
        a = self.m.watermarks
        self.levels(a)
        self.physical(a, "make space")
        s = a.snap()
        Rn = T.fresh("rows", True)
        A = self.new("Space", Rn)
        nm = A.ghost_name
        c.forall(nm, lambda i, j: T.implies(T.conj(lt(i, a._shape[0])), eq(T.app(nm, i, j), s(i, j))), nm + " same")
        self.held(A, self.held(a))
        facts(space_post(a, A, self.K, self.per_transfer, [("K", self.K), ("g", self.g), ("g + 1", add(self.g, C(1)))]))
        self.at_depth(A)
        self.m.watermarks = A

    def index_above(self, v, a, mx):
        c = ctx()
        v, mx = num(v), num(mx)
        K = self.levels(a)
        prove("[C03 C20] index above: max_watermark_index is the last level", eq(mx, sub(K, C(1))))
        self.volumes(a, "index above")
        if c.decide(lt(wm.cum(a, K), v)):
            self.above = None
            return N(K)
        r = T.fresh("above", True)
        facts(above_post(a, K, v, r))
        c.seed(r, add(r, C(1)))
        facts(depth_beside(a, K, self.g, self.x, r))
        self.above = r
        return N(r)

    def member(self, arr, v):
        """v in np.cumsum(volumes)"""
        s = self.m.watermarks.snap()
        with sums.case():
            i = sums.arbitrary(ZERO, arr._shape[0], "i")
            prove("[C03 C05] membership: in the volumes up to every level", eq(arr.at(i), sums.total(ZERO, add(i, C(1)), lambda k: s(k, ZERO))))
        prove("[C03 C05] membership: of all rows", eq(arr._shape[0], self.m.watermarks._shape[0]))
        return bool(self.recorded("in_cumsum")(v, self.m.watermarks[:, 0]))

    def in_cumsum(self, v, col):
        c = ctx()
        v = num(v)
        if self.above is None:
            raise Unsupported("cy_value_in_cumsum before the level above the cloud is known")
        s = col.snap()
        r1 = add(self.above, C(1))
        # for the first level r that reaches v: v is a partial sum exactly if it is that of r
        prove("[C03 C05] value in cumsum: above is the first level that reaches the value",
              T.conj(le(v, sums.total(ZERO, r1, lambda k: s(k))),
                     T.implies(lt(ZERO, self.above), lt(sums.total(ZERO, self.above, lambda k: s(k)), v))))
        return 1 if c.decide(eq(v, sums.total(ZERO, r1, lambda k: s(k)))) else 0

    def split(self, a, v, m):
        c = ctx()
        v, m = num(v), num(m)
        m1 = add(m, C(1))
        s = a.snap()
        old = arrays.Arr.make(a._shape, s)
        first = self.last_split is None or self.last_split[1:3] != (v, m)
        if first:
            K, g = self.levels(a), self.g
        else:
            # the copy is split in the same way
            K, g = self.before
            self.K, self.g, after = K, g, (self.K, self.g)
            self.same_volumes(old, self.last_split[0], [m, m1], "split")
        self.physical(a, "split")
        prove("[C20] split: room for a further level", lt(K, sub(a._shape[0], C(1))))
        prove("[C03 C20] split: an occupied level", T.conj(le(ZERO, m), lt(m, K)))
        prove("[C03 C05] split: above the lower levels", lt(wm.cum(a, m), v))
        prove("[C03 C05] split: inside the level", lt(v, wm.cum(a, m1)))
        h0 = self.held(a)
        if first:
            self.before = K, g
            self.K, self.g = add(K, C(1)), T.fresh("g", True)
            facts(split_depth(g, self.g, m, v, self.x))
            c.seed(self.g)
        else:
            self.K, self.g = after
        new = self.new("Split", a._shape[0])
        nm = new.ghost_name
        self.held(new, h0)
        facts(split_post(old, new, K, v, m))
        self.row(new, lambda j: s(g, j))
        if first:
            self.last_split = (old, v, m, nm)
            self.at_depth(new)
        else:
            nm1 = self.last_split[3]
            c.forall(nm, lambda i, j: T.implies(eq(j, ZERO), eq(T.app(nm, i, j), T.app(nm1, i, j))), nm + " volumes")
            self.last_split = None
        a.assign(new)
        return None

    def collapse(self, watermarks, watermarks_copy=None):
        c = ctx()
        a, b = watermarks, watermarks_copy
        K, g = self.levels(a), self.g
        self.K_in = K
        Rn = a._shape[0]
        self.physical(a, "collapse")
        sa = a.snap()
        h0, t0 = self.held(a), wm.cum(a, K)
        if b is not None:
            self.attempted(a, b)
            sb, hb = b.snap(), self.held(b)
            self.physical(b, "collapse, copy")
            with sums.case():
                i = sums.arbitrary(ZERO, Rn, "i")
                prove("[C02 C05] collapse: the copy has the same volumes", eq(a.at(i, ZERO), b.at(i, ZERO)))
        # levels 0 .. k-1 become level 0
        k = T.fresh("full", True)
        k1 = sub(k, C(1))
        self.K, self.g = sub(K, k1), T.fresh("g", True)
        c.seed(self.g)
        facts(collapse_depth(K, g, k, self.g))
        if b is not None:
            self.merged = T.conj(lt(C(1), k), lt(g, k))
        A = self.new("Coll", Rn)
        self.held(A, h0)
        fact(eq(wm.cum(A, self.K), t0))
        self.at_depth(A)
        self.row(A, lambda j: sa(g, j))
        if b is None:
            return A
        B = self.new("CollInit", Rn)
        nm, nm1 = B.ghost_name, A.ghost_name
        c.forall(nm, lambda i, j: T.implies(eq(j, ZERO), eq(T.app(nm, i, j), T.app(nm1, i, j))), nm + " volumes")
        self.held(B, hb)
        self.row(B, lambda j: sb(g, j), T.neg(self.merged))
        return A, B

    def not_enough(self, watermarks, watermarks_initial, enough):
        a, b, e = watermarks, watermarks_initial, num(enough)
        self.levels(a)
        self.physical(a, "not enough")
        self.physical(b, "not enough, initial")
        prove("[C02 C03] not enough: a fraction", T.conj(le(ZERO, e), le(e, C(1))))
        with sums.case():
            i = sums.arbitrary(ZERO, a._shape[0], "i")
            prove("[C02 C05] not enough: the same volumes", eq(a.at(i, ZERO), b.at(i, ZERO)))
        sa, sb = a.snap(), b.snap()
        ha, hb, t0 = self.held(a), self.held(b), wm.cum(a, self.K)
        A = self.new("Tweak", a._shape[0])
        if prove("[C02] not enough: the initial levels hold what was held at the start", eq(hb, self.start or self.H0)):
            hb = self.start or self.H0
        fact(eq(self.held(A), add(hb, mul(e, sub(ha, hb)))))
        fact(eq(wm.cum(A, self.K), t0))
        self.at_depth(A)
        g = self.g
        u, v = self.abbreviate("fill", sa(g, self.j)), self.abbreviate("fill", sb(g, self.j))
        fact(eq(A.at(g, self.j), add(v, mul(e, sub(u, v)))))
        self.limited = u, v
        self.enough, self.attempt = e, ha
        return A
    enough = None


class Follow:
    """Runs a second manager after the first one's run under Ghost g: every call of a callee must get arguments that correspond
    to those of the first run, and gets the corresponding results (the callees are functions of their arguments).

    same(a, b, K, what): obligation that array a of the second manager corresponds to array b of the first one, with K levels
    image(b, K): an array that corresponds to b"""

    def __init__(self, g, m, tag, same, image):
        self.g, self.m, self.tag, self.same, self.image, self.i = g, m, tag, same, image, 0

    def __enter__(self):
        d = self.g.mod.__dict__
        self.saved = {k: d[k] for k in KERNELS if k in d}
        for k in self.saved:
            d[k] = getattr(self, KERNELS[k])
        for k, v in METHODS.items():
            if hasattr(self, v):
                self.m.__dict__[k] = getattr(self, v)
        arrays.MEMBER[0] = self.member
        return self

    def __exit__(self, *a):
        arrays.MEMBER[0] = None
        self.g.mod.__dict__.update(self.saved)
        for k in METHODS:
            self.m.__dict__.pop(k, None)

    def next(self, name):
        if self.i >= len(self.g.calls) or self.g.calls[self.i]["name"] != name:
            raise Unsupported("the managers make different calls: %s, %s" % (name, [x["name"] for x in self.g.calls[self.i:]]))
        self.i += 1
        return self.g.calls[self.i - 1]

    def equal(self, a, b, what):
        """obligation: equal arrays or numbers"""
        if not isinstance(a, arrays.Arr):
            if prove(self.tag + what, eq(a, b)):
                fact(eq(a, b))
            return
        for x, y in zip(a._shape, b._shape):
            prove(self.tag + what + ": shape", eq(x, y))
        with sums.case():
            ix = [sums.arbitrary(ZERO, n, "i") for n in b._shape]
            prove(self.tag + what, eq(a.at(*ix), b.at(*ix)))

    def n_trapped(self, w, n):
        r = self.next("n_trapped")
        self.equal(w, r["args"][0], "n trapped: fill fractions")
        with sums.case():
            j = sums.arbitrary(ZERO, self.g.S, "species")
            prove(self.tag + "n trapped: the densities of the species", eq(n.at(j), self.g.nd(j)))
        return r["out"]

    def make_space(self):
        r = self.next("make_space")
        self.same(self.m.watermarks, r["before"], r["K"], "make space")
        self.m.watermarks = self.image(r["after"], r["K"])

    def index_above(self, v, a, mx):
        r = self.next("index_above")
        self.equal(v, r["args"][0], "index above: volume")
        self.equal(a[:, 0], r["args"][1][:, 0], "index above: levels")
        self.equal(mx, r["args"][2], "index above: last level")
        return r["out"]

    def in_cumsum(self, v, col):
        r = self.next("in_cumsum")
        self.equal(v, r["args"][0], "value in cumsum: volume")
        self.equal(col, r["args"][1], "value in cumsum: levels")
        return r["out"]

    def member(self, arr, v):
        # of the volumes up to every level, which are equal as the volumes are
        r = self.next("in_cumsum")
        self.equal(v, r["args"][0], "membership: volume")
        a, b = self.m.watermarks.snap(), r["args"][1]
        prove(self.tag + "membership: levels", T.conj(eq(arr._shape[0], b._shape[0]), eq(arr._shape[0], self.m.watermarks._shape[0])))
        with sums.case():
            i = sums.arbitrary(ZERO, arr._shape[0], "i")
            sums.sum_eq(self.tag + "membership: volumes", ZERO, add(i, C(1)), lambda k: a(k, ZERO), lambda k: b.at(k))
            prove(self.tag + "membership: volumes up to a level", eq(arr.at(i), sums.total(ZERO, add(i, C(1)), lambda k: b.at(k))))
        return bool(r["out"])

    def split(self, a, v, k):
        r = self.next("split")
        self.equal(v, r["args"][1], "split: volume")
        self.equal(k, r["args"][2], "split: level")
        if r["main"]:
            self.same(a, r["args"][0], sub(r["K"], C(1)), "split: levels")
            a.assign(self.image(r["args_after"][0], r["K"]))
        else:
            self.equal(a, r["args"][0], "split: initial levels")
            a.assign(r["args_after"][0])

    def collapse(self, watermarks, watermarks_copy=None):
        r = self.next("collapse")
        K = r["K_in"]
        self.same(watermarks, r["kw"]["watermarks"], K, "collapse")
        if watermarks_copy is None:
            return self.image(r["out"], r["K"])
        self.equal(watermarks_copy, r["kw"]["watermarks_copy"], "collapse: initial levels")
        return self.image(r["out"][0], r["K"]), r["out"][1].copy()

    def after_not_enough(self, result):
        r = self.next("not_enough")
        a, b, e = [frozen(x) for x in r["args"]] if r["args"] else [r["kw"][k] for k in ("watermarks", "watermarks_initial", "enough")]
        e, A = num(e), r["out"]
        with sums.case():
            # the contract of the first manager's: every cell
            i, j = sums.arbitrary(ZERO, A._shape[0], "i"), sums.arbitrary(C(1), A._shape[1], "j")
            cell = eq(A.at(i, j), add(mul(e, a.at(i, j)), mul(sub(C(1), e), b.at(i, j))))
            vol = eq(A.at(i, ZERO), a.at(i, ZERO))
            fact(T.conj(cell, vol))
            self.same(result, A, r["K"], "not enough", i, j)
        return self.image(A, r["K"])
