"""Contracts of the clocking loop nest (main_utils.pyx)"""
from .proof import *
from .clock import *

FN = ["main_utils.cy_clock_charge_in_one_direction"]


class Same(Plan):
    """the spec is run on the same image: all states are equal at every point of the nest"""
    tag = "[C25] "

    def havoc(self, L, end):
        n = self.nest
        img, st, sv = fresh_state(L, end)
        self.b = Second(img, st, sv)
        n.put(n.image, img)
        n.put(n.ST, st)
        n.put(n.SV, sv)

    def check(self, L, what, next_=False):
        n = self.nest
        if self.b is None:
            self.b = Second(n.start_image, empty, empty)
        with sums.case():
            i, j, p, g = [sums.arbitrary(ZERO, m, x) for x, m in (("row", n.image._shape[0]), ("column", n.NC), ("phase", n.P), ("group", n.G))]
            prove(self.tag + "image " + what, eq(n.image.at(i, j), self.b.img(i, j)))
            prove(self.tag + "trap states " + what, eq(n.ST.at(p, g), self.b.st(p, g)))
            prove(self.tag + "saved trap states " + what, eq(n.SV.at(p, g), self.b.sv(p, g)))


@proof("C25", "C20", functions=FN)
def readout_steps(L):
    """the image, trap states and saved states are those of the explicit nest of columns, passes, monitored pixels, steps with a dwell time,
    phases with traps, and pixels released to; no index leaves its array"""
    n = Nest(L, Same(), pumping=ctx().decide(T.BApp("pumping")))
    r = n.run()
    i, j = sums.arbitrary(ZERO, n.NR, "row"), sums.arbitrary(ZERO, n.NC, "column")
    prove("[C25 C12] shape of the result", T.conj(eq(r._shape[0], n.NR), eq(r._shape[1], n.NC)))
    prove("[C25] the result is the image without the padding", eq(r.at(i, j), n.plan.b.img(i, j)))


@proof("C25", "C12", "C13", "C14", "C15", "C20", functions=FN)
def readout_of_no_columns(L):
    """a window of columns that is empty, as a time window may leave it: the result is the image"""
    n = Nest(L, Same(), no_columns=True)
    r = n.run()
    i, j = sums.arbitrary(ZERO, n.NR, "row"), sums.arbitrary(ZERO, n.NC, "column")
    prove("[C25 C12] shape of the result", T.conj(eq(r._shape[0], n.NR), eq(r._shape[1], n.NC)))
    prove("[C25 C12 C13 C14 C15] nothing is changed", eq(r.at(i, j), n.im(i, j)))


def forced():
    """release is forced away from readout"""
    ctx().forall("rel", lambda s, p, q: le(ZERO, rel(s, p, q)), "away")


class Frame(Plan):
    """columns outside the window and rows that are not reached are as in the input"""

    def __init__(self, away):
        super().__init__()
        self.away = away

    def within(self, i, j, done):
        n = self.nest
        return T.conj(le(n.c0, j), lt(j, add(n.c0, done)), T.disj(le(n.NR, i), T.conj(le(n.r0 if self.away else add(n.r0, n.mn), i), lt(i, add(n.r1, n.mx)))))

    def done(self, L, next_):
        k = self.nest.k[COL] if COL in self.nest.k else ZERO
        return add(k, C(1)) if L > COL or next_ else k

    def havoc(self, L, end):
        n = self.nest
        img, st, sv = fresh_state(L, end)
        d = self.done(L, False)
        n.put(n.image, lambda i, j: T.ite(self.within(i, j, d), img(i, j), n.start_image(i, j)))
        n.put(n.ST, st)
        n.put(n.SV, sv)

    def check(self, L, what, next_=False):
        n = self.nest
        with sums.case():
            i, j = sums.arbitrary(ZERO, n.image._shape[0], "row"), sums.arbitrary(ZERO, n.NC, "column")
            fact(T.neg(self.within(i, j, self.done(L, next_))))
            prove("[C12] nothing else is changed, " + what, eq(n.image.at(i, j), n.start_image(i, j)))


@proof("C12", functions=FN)
def readout_frame(L):
    """the result has the input's shape; the input image and objects are not written; columns outside the window, and rows that no charge of the
    window's pixels is released to, are as in the input: with release forced away from readout, all rows before the window"""
    away = ctx().decide(T.BApp("away"))
    n = Nest(L, Frame(away))
    if away:
        forced()
    r = n.run()
    prove("[C12] shape of the result", T.conj(eq(r._shape[0], n.NR), eq(r._shape[1], n.NC)))
    i, j = sums.arbitrary(ZERO, n.NR, "row"), sums.arbitrary(ZERO, n.NC, "column")
    prove("[C12] columns outside the window", T.implies(T.disj(lt(j, n.c0), le(n.c1, j)), eq(r.at(i, j), n.im(i, j))))
    prove("[C12] rows after those released to", T.implies(le(add(n.r1, n.mx), i), eq(r.at(i, j), n.im(i, j))))
    if away:
        prove("[C12] rows before the window", T.implies(lt(i, n.r0), eq(r.at(i, j), n.im(i, j))))
    prove("[C12] the input image", eq(n.image_in.at(i, j), n.im(i, j)))


class NonNegative(Plan):
    def havoc(self, L, end):
        n = self.nest
        img, st, sv = fresh_state(L, end)
        ctx().forall("I%d%s" % (L, "e" if end else ""), lambda i, j: le(ZERO, img(i, j)), "non-negative")
        n.put(n.image, img)
        n.put(n.ST, st)
        n.put(n.SV, sv)

    def check(self, L, what, next_=False):
        n = self.nest
        with sums.case():
            i, j = sums.arbitrary(ZERO, n.image._shape[0], "row"), sums.arbitrary(ZERO, n.NC, "column")
            prove("[C13] no negative pixel " + what, le(ZERO, n.image.at(i, j)))


@proof("C13", functions=FN)
def readout_not_negative(L):
    """from an image without negative pixels: no negative pixels, whatever the trap managers return"""
    n = Nest(L, NonNegative())
    ctx().forall("im", lambda i, j: le(ZERO, n.im(i, j)), "input")
    r = n.run()
    i, j = sums.arbitrary(ZERO, n.NR, "row"), sums.arbitrary(ZERO, n.NC, "column")
    prove("[C13] no negative pixel", le(ZERO, r.at(i, j)))


class OneColumn(Plan):
    """follows one column; other columns' iterations leave it as it is"""

    def visited(self, next_=False):
        n = self.nest
        k = n.k.get(COL, ZERO)
        return T.conj(le(n.c0, self.c), lt(self.c, add(n.c0, k, C(1) if next_ else ZERO)))

    def active(self):
        return ctx().decide(eq(self.nest.at(COL), self.c))


class Column(OneColumn):
    """the spec is run on this column alone, from empty traps"""
    tag = "[C15] "
    c = I("column")

    def other(self, a):
        if a.f == "im":
            return T.ite(eq(a.args[1], self.c), T.A(a), T.app("im2", *a.args))
        if a.f.startswith("other") or a.f[0] == "I" and a.f[1:2].isdigit():
            return T.app(a.f + "'", *a.args)

    def same_in_other(self, d):
        d = T.subst(d, {"k1": sub(self.c, self.nest.c0)})
        return not d.vars & {"k1", "c0", "c1", "columns"} and super().same_in_other(d)

    def final(self, i):
        return T.app("final", i)

    def base(self, i):
        return T.ite(self.vis, self.final(i), self.nest.start_image(i, self.c))

    def havoc(self, L, end):
        n, c = self.nest, self.c
        img, st, sv = fresh_state(L, end)
        if L == COL:
            self.vis = self.visited()
            base = self.base
            n.put(n.image, lambda i, j: T.ite(eq(j, c), base(i), img(i, j)))
            n.put(n.ST, empty)
            n.put(n.SV, empty)
            self.b = None
            self.on = not end and self.active()
            self.since = len(ctx().decisions)
            if self.on:
                self.b = Second(lambda i, j: n.start_image(i, c), empty, empty)
            return
        if not self.on:
            base = self.base
            n.put(n.image, lambda i, j: T.ite(eq(j, c), base(i), img(i, j)))
            n.put(n.ST, lambda p, g: T.app("other" + str(L), p, g))
            n.put(n.SV, lambda p, g: T.app("others" + str(L), p, g))
            return
        b = self.b = Second(lambda i, j: T.app("B%d%s" % (L, end), i), st, sv)
        n.put(n.image, lambda i, j: T.ite(eq(j, c), b.img(i, c), img(i, j)))
        n.put(n.ST, st)
        n.put(n.SV, sv)

    def check(self, L, what, next_=False):
        n, c, t = self.nest, self.c, self.tag
        with sums.case():
            i, p, g = [sums.arbitrary(ZERO, m, x) for x, m in (("row", n.image._shape[0]), ("phase", n.P), ("group", n.G))]
            if L == COL:
                if next_ and self.on:
                    want = self.b.img(i, c)
                elif next_:
                    want = self.base(i)
                else:
                    want = n.start_image(i, c)
                self.agree("the column " + what, n.image.at(i, c), want)
                prove(t + "empty traps " + what, T.conj(eq(n.ST.at(p, g), empty(p, g)), eq(n.SV.at(p, g), empty(p, g))))
            elif not self.on:
                prove(t + "other columns do not change it, " + what, eq(n.image.at(i, c), self.base(i)))
            else:
                self.agree("the column " + what, n.image.at(i, c), self.b.img(i, c))
                self.agree("trap states " + what, n.ST.at(p, g), self.b.st(p, g))
                self.agree("saved trap states " + what, n.SV.at(p, g), self.b.sv(p, g))


@proof("C15", functions=FN)
def readout_of_one_column(L):
    """where traps are emptied between columns, every column comes out as if read out alone from empty traps, whatever the other columns are, and the
    trap states are the same at the start of every column"""
    n = Nest(L, Column())
    fact(T.BApp("emptied"))
    c = Column.c
    fact(T.conj(le(ZERO, c), lt(c, n.NC)))
    ctx().seed(c)
    r = n.run()
    i = sums.arbitrary(ZERO, n.NR, "row")
    prove("[C15] the column's result", eq(r.at(i, c), T.ite(T.conj(le(n.c0, c), lt(c, n.c1)), n.plan.final(i), n.im(i, c))))


class Nearer(Plan):
    """the spec is run on an image that differs from the code's only after row t"""
    tag = "[C14] "
    t = I("t")

    def first(self, e):
        return T.app("first", e, is_int=True)

    def row(self):
        return add(self.nest.r0, self.nest.at(ROW))

    def other(self, a):
        """of the other image"""
        if a.f == "im":
            return T.ite(le(a.args[0], self.t), T.A(a), T.app("other", *a.args))
        if a.f[0] == "I" and a.f[1:2].isdigit():
            return T.app(a.f + "'", *a.args)
        if a.f[0] == "S" and a.f[1:2].isdigit() and not (a.f == self.own and self.same):
            return T.app("T" + a.f[1:], *a.args)
        if a.f[0] == "V" and a.f[1:2].isdigit() and not (a.f[1:] == self.own[1:] and self.keep):
            return T.app("U" + a.f[1:], *a.args)
    own, same, keep = " ", False, False

    def early(self, e):
        """pass e monitors pixels up to row t"""
        return le(add(self.nest.r0, self.first(e)), self.t)

    def put_image(self, L, end, img):
        n, t = self.nest, self.t
        b = lambda i, j: T.app("B%d%s" % (L, end), i, j)
        n.put(n.image, lambda i, j: T.ite(le(i, t), b(i, j), img(i, j)))
        return b

    def havoc(self, L, end):
        n, cx = self.nest, ctx()
        img, st, sv = fresh_state(L, end)
        st2, sv2 = (lambda p, g: T.app("T%d%s" % (L, end), p, g)), (lambda p, g: T.app("U%d%s" % (L, end), p, g))
        b = self.put_image(L, end, img)
        if L == COL:
            st = st2 = sv = sv2 = empty
        elif L == PASS:
            if not end and cx.decide(self.early(n.at(PASS))):
                sv2 = sv
        elif L == ROW:
            if cx.decide(self.early(add(n.at(PASS), C(1)))):
                sv2 = sv
            if end:
                pass
            else:
                self.same = cx.decide(le(self.row(), self.t))
                self.later = sv2 is sv
                if self.same:
                    st2 = st
        else:
            if self.same:
                st2 = st
            if self.later:
                sv2 = sv
        n.put(n.ST, st)
        n.put(n.SV, sv)
        self.own, self.keep = "S%d%s" % (L, "e" if end else ""), sv2 is sv
        self.b = Second(b, st2, sv2)

    def check(self, L, what, next_=False):
        n, t = self.nest, self.tag
        if self.b is None:
            self.b = Second(lambda i, j: T.ite(le(i, self.t), n.start_image(i, j), T.app("other", i, j)), empty, empty)
        k = add(n.k[L], C(1)) if next_ else ZERO
        with sums.case():
            i, j, p, g = [sums.arbitrary(ZERO, m, x) for x, m in (("row", n.image._shape[0]), ("column", n.NC), ("phase", n.P), ("group", n.G))]
            st, sv = [lambda x=x, y=y: self.agree("%strap states %s" % (z, what), x.at(p, g), y(p, g))
                      for x, y, z in ((n.ST, self.b.st, ""), (n.SV, self.b.sv, "saved "))]
            with sums.case():
                fact(le(i, self.t))
                self.agree("image up to the row " + what, n.image.at(i, j), self.b.img(i, j))
            if L == COL:
                prove(t + "empty traps " + what, T.conj(*[eq(x, empty(p, g)) for x in (n.ST.at(p, g), n.SV.at(p, g), self.b.st(p, g), self.b.sv(p, g))]))
            elif L == PASS:
                with sums.case():
                    fact(self.early(k))
                    sv()
            elif L == ROW:
                with sums.case():
                    fact(self.early(add(n.at(PASS), C(1))))
                    sv()
                with sums.case():
                    r = n.set_of(ROW).at(k)
                    fact(lt(k, n.count(ROW)))
                    ctx().seed(r)
                    fact(le(add(n.r0, r), self.t))
                    st()
            else:
                if self.same:
                    st()
                if self.later:
                    sv()


class Cropped(Nearer):
    """the spec is run on the image cropped after row t: without the later pixels, and without the passes that monitor only these"""

    def runs(self):
        n, c = self.nest, ctx()
        return c.decide(le(self.row(), self.t)) and c.decide(self.early(n.at(PASS)))

    def enter(self, L):
        if self.b is None or L == ROW and ctx().decide(self.early(self.nest.at(PASS))) or L == REL and self.runs():
            super().enter(L)

    def leave(self, L):
        if self.b is None or L not in (REL, ROW) or self.runs():
            super().leave(L)

    def traps_step(self):
        if self.runs():
            super().traps_step()


def nearer(L, plan, what):
    n = Nest(L, plan)
    c = ctx()
    forced()
    fact(T.BApp("emptied"))
    fact(T.conj(le(ZERO, plan.t), lt(plan.t, n.NR)))
    c.forall("high", lambda s, p: T.implies(high(s, p), eq(cap(s, p), ZERO)), "own pixel")
    c.forall("monitor", lambda e, r: T.implies(T.BApp("monitor", (e, r)), le(plan.first(e), r)), "first monitored")
    c.forall("save", lambda e, r: T.implies(saved(e, r), le(r, plan.first(add(e, C(1))))), "saved")
    c.forall("first", lambda e: le(plan.first(e), plan.first(add(e, C(1)))) if not e.d.get((), 0) > 0 else TRUE, "later passes")
    r = n.run()
    i, j = sums.arbitrary(ZERO, n.NR, "row"), sums.arbitrary(ZERO, n.NC, "column")
    fact(le(i, plan.t))
    prove("[C14] " + what, eq(r.at(i, j), plan.b.img(i, j)))


@proof("C14", functions=FN)
def readout_of_nearer_pixels(L):
    """with release away from readout, high phases that capture from their own pixel, traps emptied between columns, and states saved in a pass only
    after pixels that no later pass starts behind: two images equal up to row t give results equal up to row t"""
    nearer(L, Nearer(), "the results up to the row")


@proof("C14", functions=FN)
def readout_of_a_cropped_image(L):
    """under the same conditions, up to row t the result is that of a readout that is without the pixels after row t and the passes that monitor only these,
    as with express 0 that of the cropped image is (`multipliers_of_a_cropped_image`)"""
    nearer(L, Cropped(), "the result of the cropped image")


class Charge(OneColumn):
    """accounts for the charge of one column: image, traps, and what was in the traps where they were emptied"""
    tag = "[C13] "
    c = I("column")
    lost = ZERO
    out = None

    def total(self, img):
        n = self.nest
        return sums.total(ZERO, n.image._shape[0], lambda i: num(img(i)))

    def held(self):
        n = self.nest
        return sums.total(ZERO, n.P, lambda p: held(p, n.ST.at(p, ZERO)))

    def left(self, k):
        """still to be released of the phase's electrons"""
        n = self.nest
        s, p = n.at(STEP), n.at(PHASE)
        return mul(self.out, sub(C(1), sums.total(ZERO, k, lambda q: frac(s, p, q))))

    def restoring(self):
        if self.on:
            n = self.nest
            self.lost = add(self.lost, sums.sum_nonneg("[C13] charge in the traps", ZERO, n.P, lambda p: held(p, n.ST.at(p, ZERO))))

    def called(self, st, new, p, free, out):
        ctx().assume(le(sub(ZERO, free), out))
        ctx().assume(eq(held(p, new), sub(held(p, st), out)))
        self.out = out

    def account(self, img, L, k):
        return eq(add(self.total(img), self.held(), self.lost, self.left(k) if L == REL else ZERO), self.start)

    def can_take(self, img, k):
        """a high phase's pixel has the electrons that it is to lose; other phases capture nothing"""
        n = self.nest
        h = high(n.at(STEP), n.at(PHASE))
        return T.ite(h, T.ite(eq(k, ZERO), add(img(n.read_row()), self.out), ZERO), self.out)

    def havoc(self, L, end):
        n, c, cx = self.nest, self.c, ctx()
        img, st, sv = fresh_state(L, end)
        if L == COL:
            self.vis = self.visited()
            n.put(n.image, lambda i, j: T.ite(eq(j, c), self.base(i), img(i, j)))
            n.put(n.ST, empty)
            n.put(n.SV, empty)
            self.on = not end and self.active()
            self.lost = ZERO
            return
        n.put(n.SV, empty)
        n.put(n.ST, st)
        if not self.on:
            base = self.base
            n.put(n.image, lambda i, j: T.ite(eq(j, c), base(i), img(i, j)))
            return
        n.put(n.image, img)
        self.lost = T.V("lost%d%s" % (L, end))
        fact(le(ZERO, self.lost))
        cx.forall("I%d%s" % (L, "e" if end else ""), lambda i, j: le(ZERO, img(i, j)), "non-negative")
        mine = lambda i: img(i, c)
        fact(self.account(mine, L, n.k[L]))
        if L == REL:
            fact(le(ZERO, self.can_take(mine, n.k[L])))

    def base(self, i):
        return T.ite(self.vis, T.app("final", i), self.nest.start_image(i, self.c))

    def check(self, L, what, next_=False):
        n, c, t = self.nest, self.c, self.tag
        mine = lambda i: n.image.at(i, c)
        with sums.case():
            i, p, g = [sums.arbitrary(ZERO, m, x) for x, m in (("row", n.image._shape[0]), ("phase", n.P), ("group", n.G))]
            if L == COL:
                prove(t + "empty traps " + what, T.conj(eq(n.ST.at(p, g), empty(p, g)), eq(n.SV.at(p, g), empty(p, g))))
                if not next_:
                    prove(t + "the column " + what, eq(mine(i), n.start_image(i, c)))
                elif not self.on:
                    prove(t + "other columns do not change it, " + what, eq(mine(i), self.base(i)))
                else:
                    prove(t + "no negative pixel " + what, le(ZERO, mine(i)))
                    prove(t + "the account " + what, T.conj(le(ZERO, self.lost), eq(add(self.total(mine), self.lost), self.start)))
                return
            prove(t + "nothing saved " + what, eq(n.SV.at(p, g), empty(p, g)))
            if not self.on:
                prove(t + "other columns do not change it, " + what, eq(mine(i), self.base(i)))
                return
            prove(t + "no negative pixel " + what, le(ZERO, mine(i)))
            k = add(n.k[L], C(1)) if next_ else ZERO
            prove(t + "lost " + what, le(ZERO, self.lost))
            prove(t + "the account " + what, self.account(mine, L, k))
            if L == REL:
                with sums.case():
                    fact(lt(k, n.count(REL)))
                    prove(t + "enough electrons " + what, le(ZERO, self.can_take(mine, k)))


def held(p, st):
    return T.app("held", p, st)


@proof("C13", functions=FN)
def readout_keeps_charge(L):
    """one trap group, every multiplier 1, no states saved and traps emptied between columns: the charge of a column's pixels, of the padding rows,
    of the traps and of what was in the traps whenever they were emptied adds up to the input's charge; so the total charge never increases"""
    plan = Charge()
    n = Nest(L, plan, groups=1)
    cx, c = ctx(), Charge.c
    fact(T.BApp("emptied"))
    fact(T.conj(le(ZERO, c), lt(c, n.NC)))
    cx.seed(c)
    cx.forall("monitor", lambda e, r: T.implies(T.BApp("monitor", (e, r)), eq(mult(e, r), C(1))), "every transfer")
    cx.forall("save", lambda e, r: T.neg(saved(e, r)), "not saved")
    cx.forall("im", lambda i, j: le(ZERO, n.im(i, j)), "input")
    cx.forall("high", lambda s, p: T.implies(high(s, p), T.conj(eq(nrel(s, p), C(1)), eq(rel(s, p, ZERO), cap(s, p)), eq(frac(s, p, ZERO), C(1)))), "same pixel")
    cx.forall("frac", lambda s, p, q: le(ZERO, frac(s, p, q)), "fraction")
    cx.forall("nrel", lambda s, p: eq(sums.total(ZERO, nrel(s, p), lambda q: frac(s, p, q)), C(1)), "fractions")
    cx.forall("held", lambda p, st: le(ZERO, held(p, st)), "held")
    cx.forall("empty", lambda p, g: eq(held(p, empty(p, g)), ZERO), "held by empty")
    sums.sum_eq("[C13] nothing in empty traps", ZERO, n.P, lambda p: held(p, empty(p, ZERO)), lambda p: ZERO)
    plan.start = sums.total(ZERO, n.NR, lambda i: n.im(i, c))
    r = n.run()
    final = lambda i: T.app("final", i)
    inside = cx.decide(plan.vis)
    if inside:
        lost = R("lost at the end")
        fact(le(ZERO, lost))
        cx.forall("final", lambda i: le(ZERO, final(i)), "not negative")
        fact(eq(add(plan.total(final), lost), plan.start))
        pad = sums.sum_nonneg("[C13] padding", n.NR, n.image._shape[0], final)
        out = sums.total(ZERO, n.NR, lambda i: r.at(i, c))
        prove("[C13] total charge never increases", le(out, plan.start))
        prove("[C13] what is missing was lost", eq(sub(plan.start, out), add(lost, pad)))
    else:
        i = sums.arbitrary(ZERO, n.NR, "row")
        prove("[C13] columns outside the window", eq(r.at(i, c), n.im(i, c)))
