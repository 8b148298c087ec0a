"""Finite sums over integer ranges with symbolic bounds, in a normal form.

sum(lo, hi, fn) is split at the breakpoints of the conditions in fn, expanded into monomials, and every monomial sum is
written as a difference of prefix sums P(u) = sum_{0 <= b < u} body(b) (extended to all integers u by P(u+1) = P(u) + body(u)).
Trusted rules: linearity, splitting of ranges, shift of the index, P's step equation, pointwise comparison, induction."""
from . import terms as T
from .terms import Num, Cond, Const, C, ZERO, TRUE, FALSE, Unsupported
from . import core
from .core import ctx, N, num, cond, simp


class scope:
    """facts assumed inside are forgotten at the end"""
    ends = False

    def __enter__(self):
        c = ctx()
        self.saved = (len(c.conds), len(c.facts), len(c.seeds), c.key)
        return c

    def __exit__(self, kind, *a):
        c = ctx()
        n, m, s, c.key = self.saved
        del c.conds[n:]
        del c.facts[m:]
        del c.seeds[s:]
        return self.ends and kind is core.EndPath


class case(scope):
    """a scope of a proof: where its facts contradict each other there is nothing to prove, and the path goes on after it"""
    ends = True


_bound = [0]


def bound_var():
    # stable names, so that equal sums are equal terms
    _bound[0] += 1
    return T.Var("b~%d" % _bound[0], True)


def release_var():
    _bound[0] -= 1


def total(lo, hi, fn):
    lo, hi = num(lo), num(hi)
    if lo == hi or simp(T.le(hi, lo)) == TRUE:
        return ZERO
    d = T.add(hi, lo, -1).const()
    if d is not None and 0 < d <= 3:
        r = ZERO
        for k in range(int(d)):
            r = T.add(r, num(fn(T.add(lo, C(k)))))
        return r
    if simp(T.le(lo, hi)) != TRUE and not (lo.vars | hi.vars) & bound_names():
        if ctx().pure:
            g = T.le(lo, hi)
            with scope() as cx:
                cx.assume(g)
                t = total(lo, hi, fn)
            return T.ite(g, t, ZERO)
        if not ctx().decide(T.le(lo, hi)):
            return ZERO
    v = bound_var()
    b = T.A(v)
    try:
        with scope() as cx:
            cx.assume(T.le(lo, b))
            cx.assume(T.lt(b, hi))
            t = num(fn(b))
        return split(t, v, lo, hi)
    finally:
        release_var()


def bound_names():
    return frozenset("b~%d" % i for i in range(1, _bound[0] + 1))


def find_conditions(t, v, out, top=True):
    """atomic conditions of Ite atoms outside sums"""
    for a, k in T.atoms(t).items():
        if k == 1 and isinstance(a, T.Ite):
            for c in atomic(a.c):
                if c not in out:
                    out.append(c)
    return out


def atomic(c):
    if isinstance(c, T.Not):
        return atomic(c.c)
    if isinstance(c, (T.And, T.Or)):
        return [y for x in c.cs for y in atomic(x)]
    if isinstance(c, T.Cmp) and any(isinstance(a, T.Ite) for m in c.p.d for a, _ in m):
        # the conditions inside first: without them it may be linear
        return find_conditions(c.p, None, [])
    return [] if isinstance(c, Const) else [c]


def linear_in(p, v):
    """(coefficient, rest) if p = coefficient*v + rest with v-free rest, else None"""
    k = 0
    rest = {}
    for m, c in p.d.items():
        if not any(v.name in a.vars for a, _ in m):
            rest[m] = c
        elif len(m) == 1 and m[0] == (v, 1):
            k = c
        else:
            return None
    return k, Num(rest)


def replace_conditions(t, truth):
    def f(x):
        if isinstance(x, Cond):
            return truth.get(x)
        return None
    return T.rebuild(t, f, {})


def breakpoints(c, v):
    """points e such that the truth of c changes only between e-1 and e; None if not linear in v"""
    if not isinstance(c, T.Cmp):
        return None
    kr = linear_in(c.p, v)
    if kr is None:
        return None
    k, r = kr
    if k == 0:
        return None
    if not r.is_int and not (abs(k) == 1 or True):
        return None
    # k*v + r op 0   =>  v op' -r/k
    e = T.scale(r, T.qdiv(-1, k))
    if c.op == "==":
        if not e.is_int:
            return None
        return [e, T.add(e, C(1))]
    f = T.floor(e)
    if k > 0:
        # v <= e : true up to floor(e);  v < e : true up to ceil(e)-1
        if c.op == "<=":
            return [T.add(f, C(1))]
        return [T.scale(T.floor(T.scale(e, -1)), -1)]          # ceil(e)
    # k < 0:  v >= e : from ceil(e);  v > e: from floor(e)+1
    if c.op == "<=":
        return [T.scale(T.floor(T.scale(e, -1)), -1)]
    return [T.add(f, C(1))]


def order(a, b):
    """a <= b, decided"""
    r = ctx().resolve(T.le(a, b))
    if r is not None:
        return r
    if (a.vars | b.vars) & bound_names():
        if ctx().entails(T.le(a, b)):
            return True
        if ctx().entails(T.le(b, a)):
            return False
        raise Unsupported("order of breakpoints %s, %s depends on a bound variable" % (a, b))
    return ctx().decide(T.le(a, b))


def split(t, v, lo, hi):
    conds = find_conditions(t, v, [])
    bn = bound_names()
    # conditions without the variable: keep outside
    for c in conds:
        if v.name not in c.vars:
            r = ctx().resolve(c)
            if r is None and not (c.vars & bn):
                r = ctx().decide(c)
            if r is not None:
                return split(replace_conditions(t, {c: TRUE if r else FALSE, T.neg(c): FALSE if r else TRUE}), v, lo, hi)
            a = split(replace_conditions(t, {c: TRUE, T.neg(c): FALSE}), v, lo, hi)
            b = split(replace_conditions(t, {c: FALSE, T.neg(c): TRUE}), v, lo, hi)
            return T.ite(c, a, b)
    pts = []
    for c in conds:
        e = breakpoints(c, v)
        if e:
            for x in e:
                if x not in pts:
                    pts.append(x)
    inner = []
    for e in pts:
        if order(e, lo):
            continue
        if order(hi, e):
            continue
        i = 0
        dup = False
        while i < len(inner) and order(inner[i], e):
            if inner[i] == e or ctx().resolve(T.le(e, inner[i])) is True:
                dup = True
                break
            i += 1
        if not dup:
            inner.insert(i, e)
    edges = [lo] + inner + [hi]
    out = ZERO
    b = T.A(v)
    for l, u in zip(edges, edges[1:]):
        truth = {}
        with scope() as cx:
            cx.assume(T.le(l, b))
            cx.assume(T.lt(b, u))
            if linear_all_int(l, u):
                get = cx.resolve
            else:
                get = lambda c: True if cx.entails(c) else False if cx.entails(T.neg(c)) else None
            for c in conds:
                r = get(c)
                if r is None and breakpoints(c, v):
                    r = True if cx.entails(c) else False if cx.entails(T.neg(c)) else None
                if r is not None:
                    truth[c] = TRUE if r else FALSE
                    truth[T.neg(c)] = FALSE if r else TRUE
            seg = replace_conditions(t, truth) if truth else t
            again = truth and any(v.name in c.vars and c not in conds and breakpoints(c, v) for c in find_conditions(seg, v, []))
        out = T.add(out, split(seg, v, l, u) if again else segment(seg, v, l, u))
    return out


def linear_all_int(*xs):
    return all(x.is_int for x in xs)


def segment(t, v, lo, hi):
    d = T.add(hi, lo, -1).const()
    if d is not None:
        if d <= 0:
            return ZERO
        if d <= 3:
            r = ZERO
            for k in range(int(d)):
                r = T.add(r, T.subst(t, {v.name: T.add(lo, C(k))}))
            return r
    out = ZERO
    for m, c in t.d.items():
        free = tuple((a, e) for a, e in m if v.name not in a.vars)
        dep = tuple((a, e) for a, e in m if v.name in a.vars)
        f = Num({free: c})
        if not dep:
            s = T.add(hi, lo, -1)
        elif dep == ((v, 1),):
            # sum of b
            g = lambda x: T.scale(T.mul(x, T.add(x, C(-1))), T.Fraction(1, 2))
            s = T.add(g(hi), g(lo), -1)
        else:
            s = mono_sum(dep, v, lo, hi)
        out = T.add(out, T.mul(f, s))
    return out


def leaves(x, v, out):
    """(name, position, argument) of applications with an argument affine in v"""
    for a, k in T.atoms(x).items():
        args = ()
        if k == 1 and isinstance(a, T.App):
            args, f = a.args, a.f
        elif k == 1 and isinstance(a, T.PSum):
            args, f = a.params + a.uppers, "~sum:%s" % a.body
        elif k == 2 and isinstance(a, T.BApp):
            args, f = a.args, a.f
        for i, p in enumerate(args):
            if v.name in p.vars and not p.is_int:
                q = scaled(p, v)
                if q is not None:
                    out.append((f, i, str(q), 1, q))
            elif v.name in p.vars:
                kr = linear_in(p, v)
                if kr is not None and abs(kr[0]) == 1:
                    out.append((f, i, str(kr[1]), kr[0], kr[1]))


def scaled(p, v):
    """c where p = q*(v + c) + r with a v-free q, an integer c, and no leading monomial of q in r"""
    q = {}
    for m, k in p.d.items():
        if any(v.name in a.vars for a, _ in m):
            n = tuple((a, e) for a, e in m if a != v)
            if (v, 1) not in m or any(v.name in a.vars for a, _ in n):
                return None
            q[n] = k
    q.pop((), None)
    if not q:
        return None
    m = T.lead(Num(q))
    c = T.qdiv(p.d.get(m, 0), q[m])
    return C(c) if c == int(c) else None


def mono_sum(dep, v, lo, hi):
    b = T.A(v)
    ls = []
    leaves(Num({dep: 1}), v, ls)
    if ls:
        f, i, _, k, s = min(ls, key=lambda x: (x[0], x[1], x[2]))
        if k == 1:
            if s.d:
                x = T.subst(Num({dep: 1}), {v.name: T.add(b, s, -1)})
                return segment_again(x, v, T.add(lo, s), T.add(hi, s))
        else:
            # argument s - b: reverse
            x = T.subst(Num({dep: 1}), {v.name: T.add(s, b, -1)})
            return segment_again(x, v, T.add(T.add(s, hi, -1), C(1)), T.add(T.add(s, lo, -1), C(1)))
    return T.add(prefix(dep, v, hi), prefix(dep, v, lo), -1)


def segment_again(x, v, lo, hi):
    out = ZERO
    for m, c in x.d.items():
        free = tuple((a, e) for a, e in m if v.name not in a.vars)
        dep = tuple((a, e) for a, e in m if v.name in a.vars)
        f = Num({free: c})
        s = T.add(prefix(dep, v, hi), prefix(dep, v, lo), -1) if dep else T.add(hi, lo, -1)
        out = T.add(out, T.mul(f, s))
    return out


def prefix(dep, v, u):
    if u.const() is not None and 0 <= u.const() <= 3:
        r = ZERO
        for k in range(int(u.const())):
            r = T.add(r, T.subst(Num({dep: 1}), {v.name: C(k)}))
        return r
    params = []
    memo = {}

    def par(t):
        for i, p in enumerate(params):
            if p == t:
                return T.V("%%p%d" % i, t.is_int)
        params.append(t)
        return T.V("%%p%d" % (len(params) - 1), t.is_int)

    def ab(t):
        """abstract maximal v-free subterms of arguments"""
        if isinstance(t, Num):
            if v.name not in t.vars:
                return par(t)
            # b + const stays; b + free becomes b + %p
            kr = linear_in(t, v)
            if kr is not None:
                k, r = kr
                return T.add(T.scale(T.V("%b", True), k), r if r.const() is not None else par(r))
            return inside(t)
        raise Unsupported("abstraction")

    def inside(t):
        if isinstance(t, Num):
            out = ZERO
            rest = Num({m: c for m, c in t.d.items() if not any(v.name in a.vars for a, _ in m)})
            if rest.d:
                out = T.add(out, rest if rest.const() is not None else par(rest))
            for m, c in t.d.items():
                if any(v.name in a.vars for a, _ in m):
                    p = C(c)
                    fr = tuple((a, e) for a, e in m if v.name not in a.vars)
                    if fr:
                        p = T.mul(p, par(Num({fr: 1})))
                    for a, e in m:
                        if v.name in a.vars:
                            p = T.mul(p, powr(atom(a), e))
                    out = T.add(out, p)
            return out
        if isinstance(t, Cond):
            return condi(t)
        raise Unsupported("abstraction")

    def powr(a, e):
        n = a if isinstance(a, Num) else T.A(a)
        if e < 0:
            n = T.inverse(n)
        r = C(1)
        for _ in range(abs(e)):
            r = T.mul(r, n)
        return r

    def atom(a):
        if a == v:
            return T.V("%b", True)
        if isinstance(a, T.App):
            return T.A(T.App(a.f, [ab(x) for x in a.args], a.is_int))
        if isinstance(a, T.PSum):
            return T.A(T.PSum(a.body, [ab(x) for x in a.params], [ab(x) for x in a.uppers]))
        if isinstance(a, T.Ite):
            return T.ite(condi(a.c), ab(a.a), ab(a.b))
        if isinstance(a, T.Floor):
            return T.floor(inside(a.x))
        if isinstance(a, T.IDiv):
            return T.idiv(inside(a.x), ab(a.n))
        if isinstance(a, T.Base):
            return inside(a.p)
        raise Unsupported("abstraction of %r" % type(a))

    def condi(c):
        if isinstance(c, Const):
            return c
        if isinstance(c, T.Cmp):
            return T.cmp0(c.op, inside(c.p))
        if isinstance(c, T.Not):
            return T.neg(condi(c.c))
        if isinstance(c, T.And):
            return T.conj(*[condi(x) for x in c.cs])
        if isinstance(c, T.Or):
            return T.disj(*[condi(x) for x in c.cs])
        if isinstance(c, T.BApp):
            return T.BApp(c.f, [ab(x) for x in c.args])
        raise Unsupported("abstraction")

    body = C(1)
    for a, e in dep:
        body = T.mul(body, powr(atom(a), e))
    return T.A(T.PSum(body, params, [u]))


def body_at(s, u):
    m = {"%%p%d" % i: p for i, p in enumerate(s.params)}
    m["%b"] = u
    return T.subst(s.body, m)


_bodies, _pairs = {}, {}


def body_of(s, u):
    r = _bodies.get((s, u))
    if r is None:
        r = _bodies[(s, u)] = body_at(s, u)
    return r


def pair_axiom(a, b):
    """the step equation between two prefix sums of the same body, if their bounds can be next to each other"""
    k = (a, b)
    if k in _pairs:
        return _pairs[k]
    out = None
    d = T.add(b.uppers[0], a.uppers[0], -1)
    c = d.const()
    pre = T.conj(*[T.eq(x, y) for x, y in zip(a.params, b.params)])
    if (c is not None and abs(c) > 3) or pre == FALSE:
        pass
    elif c is not None and c != 0:
        lo, hi = (a, b) if c > 0 else (b, a)
        r = ZERO
        for j in range(int(abs(c))):
            r = T.add(r, body_of(a, T.add(lo.uppers[0], C(j))))
        out = T.implies(pre, T.eq(T.A(hi), T.add(T.A(lo), r)))
    elif c is None:
        out = T.conj(T.implies(T.conj(pre, T.eq(d, C(1))), T.eq(T.A(b), T.add(T.A(a), body_of(a, a.uppers[0])))),
                     T.implies(T.conj(pre, T.eq(d, C(-1))), T.eq(T.A(a), T.add(T.A(b), body_of(b, b.uppers[0])))))
    _pairs[k] = out
    return out


def sum_axioms(ats, cx, done):
    out = []
    ss = [a for a in ats if isinstance(a, T.PSum) and not any(x.startswith("%") for x in a.vars)]
    for a in ss:
        if ("s0", a) not in done:
            done.add(("s0", a))
            if a.uppers[0].const() is None:
                out.append(T.implies(T.eq(a.uppers[0], ZERO), T.eq(T.A(a), ZERO)))
                out.append(T.implies(T.eq(a.uppers[0], C(1)), T.eq(T.A(a), body_of(a, ZERO))))
            elif a.uppers[0].const() == 1:
                out.append(T.eq(T.A(a), body_of(a, ZERO)))
    if "s2" not in done:
        # one step down from every sum of the query itself
        done.add("s2")
        if len(ss) <= 40:
            for a in ss:
                if a.uppers[0].const() is None:
                    u = T.add(a.uppers[0], C(-1))
                    out.append(T.eq(T.A(a), T.add(T.A(T.PSum(a.body, a.params, [u])), body_of(a, u))))
    groups = {}
    for a in ss:
        groups.setdefault(a.body, []).append(a)
    n = 0
    for g in groups.values():
        for i, a in enumerate(g):
            for b in g[i + 1:]:
                if ("s1", a, b) in done:
                    continue
                done.add(("s1", a, b))
                x = pair_axiom(a, b)
                if x is not None:
                    n += 1
                    if n > 150:
                        break
                    out.append(x)
    return out


core.AXIOM_HOOKS.append(sum_axioms)


# ------------------------------------------------------------------ lemmas on sums (each proves its pointwise premise)

def arbitrary(lo, hi, name="b"):
    v = T.fresh(name, True)
    ctx().assume(T.le(num(lo), v))
    ctx().assume(T.lt(v, num(hi)))
    ctx().seed(v)
    return v


def sum_eq(name, lo, hi, f, g, before=None):
    """sum f == sum g, from f(b) == g(b) on the range (before(b): lemmas on b)"""
    with case():
        b = arbitrary(lo, hi)
        if before:
            before(b)
        ctx().prove(name, T.eq(num(f(b)), num(g(b))))
    s, t = total(lo, hi, f), total(lo, hi, g)
    ctx().assume(T.eq(s, t))
    return s, t


def sum_le(name, lo, hi, f, g, before=None):
    """sum f <= sum g"""
    with case():
        b = arbitrary(lo, hi)
        if before:
            before(b)
        ctx().prove(name, T.le(num(f(b)), num(g(b))))
    s, t = total(lo, hi, f), total(lo, hi, g)
    ctx().assume(T.le(s, t))
    return s, t


def sum_nonneg(name, lo, hi, f, before=None):
    return sum_le(name, lo, hi, lambda b: ZERO, f, before)[1]


def sum_closed(name, lo, hi, f, G):
    """sum of f over the range is G(hi) - G(lo), by induction: G(b+1) - G(b) == f(b)"""
    with case():
        b = arbitrary(lo, hi)
        ctx().prove(name, T.eq(T.add(num(G(T.add(b, C(1)))), num(G(b)), -1), num(f(b))))
    s = total(lo, hi, f)
    r = T.add(num(G(num(hi))), num(G(num(lo))), -1)
    ctx().assume(T.eq(s, r))
    return r


def swap(lo1, hi1, lo2, hi2, f):
    """fact: the two orders of summation agree"""
    s = total(lo1, hi1, lambda i: total(lo2, hi2, lambda j: f(i, j)))
    t = total(lo2, hi2, lambda j: total(lo1, hi1, lambda i: f(i, j)))
    ctx().assume(T.eq(s, t))
    return s, t


def scattered(name, scatter, lo, hi, v, before=None):
    """the sum over the targets hit of v(their source), for targets within lo..hi, is the sum of v over all sources;
    premise: a source that is not the (last) source of its target has value 0"""
    f, n, hit, inv = scatter
    with case():
        i = arbitrary(ZERO, n)
        ctx().prove(name, T.conj(T.le(num(lo), f(i)), T.lt(f(i), num(hi))))
        if before:
            before(i, inv(f(i)))
        ctx().prove(name, T.implies(T.neg(T.eq(inv(f(i)), i)), T.eq(num(v(i)), ZERO)))
    s = total(lo, hi, lambda k: T.ite(hit(k), num(v(inv(k))), ZERO))
    t = total(ZERO, n, v)
    ctx().assume(T.eq(s, t))
    return s, t
