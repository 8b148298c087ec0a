"""Terms of the verification-condition generator: polynomials over atoms (always in normal form) and conditions.

Num: polynomial {monomial: Fraction}; monomial = sorted tuple of (atom, exponent).  Atoms: Var, App, Ite, Floor, Inv, PSum.
Cond: Cmp(op, Num) meaning Num op 0, Not, And, Or, BVar, BApp, Const."""
from fractions import Fraction
import itertools

_ids = itertools.count()


class Unsupported(Exception):
    """the code leaves the subset that the verifier understands"""


def q(x):
    """a rational coefficient: int if it is one, else Fraction"""
    return x.numerator if x.denominator == 1 else x


def qdiv(a, b):
    return q(Fraction(a) / b)


class Interned(type):
    """equal atoms and conditions are the same object"""
    args, keys = {}, {}

    def __call__(cls, *a):
        k = (cls,) + tuple([tuple(x) if type(x) is list else x for x in a])
        o = Interned.args.get(k)
        if o is None:
            o = type.__call__(cls, *a)
            o = Interned.args[k] = Interned.keys.setdefault((cls, o.key), o)
        return o


class Atom(metaclass=Interned):
    __slots__ = ("key", "is_int", "vars")

    def __init__(self, key, is_int, vars):
        self.key, self.is_int, self.vars = key, is_int, vars

    def __lt__(self, o):
        return skey(self) < skey(o)


_skeys = {}


def skey(a):
    s = _skeys.get(a)
    if s is None:
        s = _skeys[a] = str(a)
    return s


class Var(Atom):
    __slots__ = ("name",)

    def __init__(self, name, is_int=False):
        self.name = name
        Atom.__init__(self, ("v", name, is_int), is_int, frozenset([self_key(name)]))

    def __str__(self):
        return self.name


def self_key(name):
    return name


class App(Atom):
    __slots__ = ("f", "args")

    def __init__(self, f, args, is_int=False):
        self.f, self.args = f, tuple(args)
        vs = frozenset().union(*[a.vars for a in self.args]) if self.args else frozenset()
        Atom.__init__(self, ("a", f, self.args), is_int, vs)

    def __str__(self):
        return "%s(%s)" % (self.f, ", ".join(map(str, self.args)))


class Ite(Atom):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        Atom.__init__(self, ("i", c, a, b), a.is_int and b.is_int, c.vars | a.vars | b.vars)

    def __str__(self):
        return "ite(%s, %s, %s)" % (self.c, self.a, self.b)


class Floor(Atom):
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x
        Atom.__init__(self, ("f", x), True, x.vars)

    def __str__(self):
        return "floor(%s)" % self.x


class IDiv(Atom):
    """floor division of integers by a positive integer (mod is a - n*(a//n))"""
    __slots__ = ("x", "n")

    def __init__(self, x, n):
        self.x, self.n = x, n
        Atom.__init__(self, ("d", x, n), True, x.vars | n.vars)

    def __str__(self):
        return "(%s // %s)" % (self.x, self.n)


class Base(Atom):
    """a polynomial of more than one term as a factor; only ever used with negative exponents"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p
        Atom.__init__(self, ("b", p), False, p.vars)

    def __str__(self):
        return "[%s]" % self.p


class PSum(Atom):
    """sum over b0 < uppers[0], b1 < uppers[1], ... (from 0) of body, a monomial in %b0, %b1 and parameters %p0..."""
    __slots__ = ("body", "params", "uppers")

    def __init__(self, body, params, uppers):
        self.body, self.params, self.uppers = body, tuple(params), tuple(uppers)
        vs = frozenset().union(*[a.vars for a in self.params + self.uppers])
        Atom.__init__(self, ("s", body, self.params, self.uppers), body.is_int, vs)

    def __str__(self):
        return "SUM{%s | %s | %s}" % (self.body, ", ".join(map(str, self.params)), ", ".join(map(str, self.uppers)))


ONE = ()


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2:
            d[a] = e2
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: (skey(x[0]), x[1])))


class Num:
    __slots__ = ("d", "_h", "_int", "_vars", "_str")

    def __init__(self, d):
        self.d = d
        self._h = self._int = self._vars = self._str = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def same(self, o):
        return self is o or (hash(self) == hash(o) and self.d == o.d)

    @property
    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and all(a.is_int and e > 0 for a, e in m) for m, c in self.d.items())
        return self._int

    @property
    def vars(self):
        if self._vars is None:
            self._vars = frozenset().union(*[a.vars for m in self.d for a, _ in m]) if self.d else frozenset()
        return self._vars

    def const(self):
        """the constant value, or None"""
        if not self.d:
            return 0
        if len(self.d) == 1 and ONE in self.d:
            return self.d[ONE]
        return None

    def __str__(self):
        if self._str is None:
            parts = []
            for m, c in self.d.items():
                s = "*".join(str(a) if e == 1 else "%s^%d" % (a, e) for a, e in m)
                parts.append((s, c))
            parts.sort(key=lambda x: x[0])
            out = []
            for s, c in parts:
                out.append(str(c) if not s else s if c == 1 else "-" + s if c == -1 else "%s*%s" % (c, s))
            self._str = " + ".join(out) if out else "0"
        return self._str

    __repr__ = __str__


    def __eq__(self, o):
        return isinstance(o, Num) and self.same(o)

    def __ne__(self, o):
        return not self == o


ZERO = Num({})


def C(x):
    x = x if type(x) is int else q(Fraction(x)) if not isinstance(x, float) else q(Fraction(repr(x)))
    return Num({ONE: x}) if x else ZERO


def A(a):
    return Num({((a, 1),): 1})


def V(name, is_int=False):
    return A(Var(name, is_int))


def app(f, *args, is_int=False):
    return A(App(f, args, is_int))


def fresh(name, is_int=False):
    return V("%s!%d" % (name, next(_ids)), is_int)


def reset_ids():
    global _ids
    _ids = itertools.count()


def add(a, b, k=1):
    if not b.d:
        return a
    d = dict(a.d)
    for m, c in b.d.items():
        v = q(d.get(m, 0) + k * c)
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return reduce_inv(Num(d))


def scale(a, k):
    if type(k) is not int:
        k = q(Fraction(k))
    if k == 1:
        return a
    return Num({m: q(c * k) for m, c in a.d.items()}) if k else ZERO


def mul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2)
            v = q(d.get(m, 0) + c1 * c2)
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return reduce_inv(Num(d))


def lead(p):
    """canonical leading monomial"""
    return max(p.d, key=lambda m: (sum(e for _, e in m), [(skey(a), e) for a, e in m]))


def mono_div(m, n):
    d = dict(m)
    for a, e in n:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: (skey(x[0]), x[1])))


def min_exponents(p, negative_only=False):
    """monomial of the smallest exponent of every atom over the terms of p (absent counts as 0)"""
    out = None
    for m in p.d:
        d = dict(m)
        if out is None:
            out = dict(d)
            continue
        for a in list(out):
            out[a] = min(out[a], d.get(a, 0))
        for a, e in m:
            if a not in out:
                out[a] = min(0, e)
    return {a: e for a, e in (out or {}).items() if e < 0 or (e > 0 and not negative_only)}


def mono_of(d):
    return tuple(sorted(d.items(), key=lambda x: (skey(x[0]), x[1])))


def poly_divide(p, b):
    """q with p == q*b, or None (b has no negative exponents)"""
    low = min_exponents(p, True)
    if low:
        up = Num({mono_of({a: -e for a, e in low.items()}): 1})
        quo = poly_divide(Num({mono_mul(m, list(up.d)[0]): c for m, c in p.d.items()}), b)
        return None if quo is None else Num({mono_mul(m, mono_of(low)): c for m, c in quo.d.items()})
    lm = lead(b)
    lc = b.d[lm]
    quo = {}
    r = dict(p.d)
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        # any term divisible by the leading monomial
        hit = None
        rm = lead(Num(r))
        t = mono_div(rm, lm)
        if t is None:
            return None
        k = qdiv(r[rm], lc)
        quo[t] = q(quo.get(t, 0) + k)
        for m, c in b.d.items():
            mm = mono_mul(m, t)
            v = q(r.get(mm, 0) - k * c)
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return Num({m: c for m, c in quo.items() if c})


def reduce_inv(p):
    """replace q*b*b^-1 by q where the coefficient of b^-1 is a multiple of b"""
    bases = None
    for m in p.d:
        for a, e in m:
            if isinstance(a, Base):
                bases = bases or {}
                bases[a] = 1
    if not bases:
        return p
    for b in bases:
        for e in (-3, -2, -1):
            part = {}
            for m, c in p.d.items():
                if dict(m).get(b) == e:
                    part[tuple(x for x in m if x[0] != b)] = c
            if len(part) < 2:
                continue
            quo = poly_divide(Num(part), b.p)
            if quo is not None:
                d = {m: c for m, c in p.d.items() if dict(m).get(b) != e}
                rest = Num(d)
                inv = Num({((b, e + 1),): 1}) if e + 1 else C(1)
                return add(rest, mul(quo, inv))
    return p


def inverse(b):
    """1/b (b nonzero by a separate obligation)"""
    c = b.const()
    if c is not None:
        if c == 0:
            raise Unsupported("division by the constant 0")
        return C(qdiv(1, c))
    if len(b.d) == 1:
        (m, c), = b.d.items()
        return Num({tuple((a, -e) for a, e in m): qdiv(1, c)})
    # common monomial factor out (no negative exponents are left), then scale
    g = min_exponents(b)
    g = {a: e for a, e in g.items()}
    if g:
        gi = mono_of({a: -e for a, e in g.items()})
        b = Num({mono_mul(m, gi): c for m, c in b.d.items()})
    lm = lead(b)
    lc = b.d[lm]
    nb = scale(b, qdiv(1, lc))
    r = Num({((Base(nb), -1),): qdiv(1, lc)})
    return Num({mono_mul(m, gi): c for m, c in r.d.items()}) if g else r


# ---------------------------------------------------------------- conditions

class Cond(metaclass=Interned):
    __slots__ = ("key", "vars")

    def __init__(self, key, vars):
        self.key, self.vars = key, vars

    def __repr__(self):
        return str(self)


class Const(Cond):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        Cond.__init__(self, ("c", v), frozenset())

    def __str__(self):
        return str(self.v)


TRUE, FALSE = Const(True), Const(False)


class Cmp(Cond):
    """p op 0, op in  '<' '<=' '=='"""
    __slots__ = ("op", "p")

    def __init__(self, op, p):
        self.op, self.p = op, p
        Cond.__init__(self, ("m", op, p), p.vars)

    def __str__(self):
        return "(%s %s 0)" % (self.p, self.op)


class Not(Cond):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c
        Cond.__init__(self, ("n", c), c.vars)

    def __str__(self):
        return "not %s" % self.c


class And(Cond):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)
        Cond.__init__(self, ("&", self.cs), frozenset().union(*[c.vars for c in self.cs]))

    def __str__(self):
        return "(%s)" % " & ".join(map(str, self.cs))


class Or(Cond):
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = tuple(cs)
        Cond.__init__(self, ("|", self.cs), frozenset().union(*[c.vars for c in self.cs]))

    def __str__(self):
        return "(%s)" % " | ".join(map(str, self.cs))


class BApp(Cond):
    __slots__ = ("f", "args")

    def __init__(self, f, args=()):
        self.f, self.args = f, tuple(args)
        vs = frozenset().union(*[a.vars for a in self.args]) if self.args else frozenset([f])
        Cond.__init__(self, ("p", f, self.args), vs)

    def __str__(self):
        return "%s(%s)" % (self.f, ", ".join(map(str, self.args))) if self.args else self.f


def cmp0(op, p):
    """canonical condition p op 0"""
    c = p.const()
    if c is not None:
        return Const({"<": c < 0, "<=": c <= 0, "==": c == 0}[op])
    # scale: coefficients to coprime integers; for == the sign of the leading coefficient is positive
    from math import gcd
    den = 1
    for v in p.d.values():
        den = den * v.denominator // gcd(den, v.denominator)
    num = 0
    for v in p.d.values():
        num = gcd(num, int(v * den))
    k = q(Fraction(den, num))
    if op == "==":
        if p.d[lead(p)] < 0:
            k = -k
        return Cmp("==", scale(p, k))
    p = scale(p, k)
    if p.is_int and op == "<":
        p = add(p, C(1))       # p < 0  <=>  p + 1 <= 0
        op = "<="
    return Cmp(op, p)


def lt(a, b):
    return cmp0("<", add(a, b, -1))


def le(a, b):
    return cmp0("<=", add(a, b, -1))


def eq(a, b):
    return cmp0("==", add(a, b, -1))


def neg(c):
    if isinstance(c, Const):
        return FALSE if c.v else TRUE
    if isinstance(c, Not):
        return c.c
    if isinstance(c, Cmp) and c.op != "==":
        m = scale(c.p, -1)
        return cmp0("<", m) if c.op == "<=" else cmp0("<=", m)
    if isinstance(c, And):
        return disj(*[neg(x) for x in c.cs])
    if isinstance(c, Or):
        return conj(*[neg(x) for x in c.cs])
    return Not(c)


def conj(*cs):
    out = []
    for c in cs:
        if isinstance(c, Const):
            if not c.v:
                return FALSE
            continue
        for x in (c.cs if isinstance(c, And) else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if neg_simple(x) in out:
            return FALSE
    return TRUE if not out else out[0] if len(out) == 1 else And(out)


def neg_simple(x):
    return neg(x) if isinstance(x, (Cmp, Not, BApp)) else None


def disj(*cs):
    out = []
    for c in cs:
        if isinstance(c, Const):
            if c.v:
                return TRUE
            continue
        for x in (c.cs if isinstance(c, Or) else (c,)):
            if x not in out:
                out.append(x)
    for x in out:
        if neg_simple(x) in out:
            return TRUE
    return FALSE if not out else out[0] if len(out) == 1 else Or(out)


def implies(a, b):
    return disj(neg(a), b)


def iff(a, b):
    return conj(implies(a, b), implies(b, a))


def ite(c, a, b):
    if isinstance(c, Const):
        return a if c.v else b
    if a.same(b):
        return a
    if isinstance(c, Not):
        return ite(c.c, b, a)
    return A(Ite(c, a, b))


# ---------------------------------------------------------------- traversal

def rebuild(x, f, memo):
    """bottom-up map over atoms and conditions: f(atom or condition) -> Num/Cond or None to rebuild from children"""
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, Num):
        out = ZERO
        changed = False
        acc = {}
        for m, c in x.d.items():
            t = None
            for a, e in m:
                n = rebuild(a, f, memo)
                if n is not a and not (isinstance(n, Num) and len(n.d) == 1 and n.d.get(((a, 1),)) == 1):
                    changed = True
                t = t or []
                t.append((a, e, n))
            acc[m] = (c, t)
        if not changed:
            r = x
        else:
            for m, (c, t) in acc.items():
                p = C(c)
                for a, e, n in (t or ()):
                    n = n if isinstance(n, Num) else A(n)
                    if e < 0:
                        n = inverse(n)
                    for _ in range(abs(e)):
                        p = mul(p, n)
                out = add(out, p)
            r = out
    elif isinstance(x, Atom):
        r = f(x)
        if r is None:
            r = rebuild_atom(x, f, memo)
    else:
        r = f(x)
        if r is None:
            r = rebuild_cond(x, f, memo)
    memo[x] = r
    return r


def rebuild_atom(a, f, memo):
    if isinstance(a, Var):
        return a
    if isinstance(a, App):
        args = [rebuild(t, f, memo) for t in a.args]
        if all(x is y for x, y in zip(args, a.args)):
            return a
        return A(mk_app(a.f, args, a.is_int))
    if isinstance(a, Ite):
        c = rebuild(a.c, f, memo)
        if isinstance(c, Const):
            return rebuild(a.a if c.v else a.b, f, memo)
        p, q = rebuild(a.a, f, memo), rebuild(a.b, f, memo)
        if c is a.c and p is a.a and q is a.b:
            return a
        return ite(c, p, q)
    if isinstance(a, Floor):
        x = rebuild(a.x, f, memo)
        return a if x is a.x else floor(x)
    if isinstance(a, IDiv):
        x, n = rebuild(a.x, f, memo), rebuild(a.n, f, memo)
        return a if x is a.x and n is a.n else idiv(x, n)
    if isinstance(a, Base):
        p = rebuild(a.p, f, memo)
        if p is a.p:
            return a
        # only used with negative exponents: the caller inverts what we return
        return p
    if isinstance(a, PSum):
        ps = [rebuild(t, f, memo) for t in a.params]
        us = [rebuild(t, f, memo) for t in a.uppers]
        if all(x is y for x, y in zip(ps + us, a.params + a.uppers)):
            return a
        if any(u.const() == 0 for u in us):
            return ZERO
        return A(PSum(a.body, ps, us))
    raise Unsupported("atom %r" % type(a))


SIMPLIFIERS = {}


def mk_app(f, args, is_int):
    return App(f, args, is_int)


def rebuild_cond(c, f, memo):
    if isinstance(c, Const):
        return c
    if isinstance(c, Cmp):
        p = rebuild(c.p, f, memo)
        return c if p is c.p else cmp0(c.op, p)
    if isinstance(c, Not):
        x = rebuild(c.c, f, memo)
        return c if x is c.c else neg(x)
    if isinstance(c, And):
        return conj(*[rebuild(x, f, memo) for x in c.cs])
    if isinstance(c, Or):
        return disj(*[rebuild(x, f, memo) for x in c.cs])
    if isinstance(c, BApp):
        args = [rebuild(t, f, memo) for t in c.args]
        return c if all(x is y for x, y in zip(args, c.args)) else BApp(c.f, args)
    raise Unsupported("condition %r" % type(c))


def subst(x, m):
    """replace variables (by name) with Nums"""
    names = frozenset(m)

    def f(a):
        if isinstance(a, Var):
            return m.get(a.name)
        if not (a.vars & names):
            return a
        return None
    return rebuild(x, f, {}) if (x.vars & names) else x


def floor(x):
    if x.is_int:
        return x
    c = x.const()
    if c is not None:
        import math
        return C(math.floor(c))
    # pull integer parts out
    ints = {m: v for m, v in x.d.items() if v.denominator == 1 and all(a.is_int and e > 0 for a, e in m)}
    if ints:
        rest = Num({m: v for m, v in x.d.items() if m not in ints})
        if not rest.d:
            return x
        return add(Num(ints), floor(rest))
    return A(Floor(x))


def idiv(x, n):
    cx, cn = x.const(), n.const()
    if cx is not None and cn is not None:
        return C(cx // cn)
    if cn == 1:
        return x
    # multiples of n out of the numerator
    quo = ZERO
    if len(n.d) == 1:
        (nm, nc), = n.d.items()
        rest = {}
        for m, c in x.d.items():
            t = mono_div(m, nm)
            if t is not None and qdiv(c, nc).denominator == 1:
                quo = add(quo, Num({t: qdiv(c, nc)}))
            else:
                rest[m] = c
        x = Num(rest)
        if not x.d:
            return quo
        cx = x.const()
        if cx is not None and cn is not None:
            return add(quo, C(cx // cn))
    return add(quo, A(IDiv(x, n)))


def atoms(x, seen=None, inside_sums=False):
    """all atoms (and BApps) in a term or condition"""
    seen = seen if seen is not None else {}
    stack = [x]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        if isinstance(t, Num):
            seen[t] = 0
            for m in t.d:
                for a, _ in m:
                    stack.append(a)
        elif isinstance(t, Atom):
            seen[t] = 1
            if isinstance(t, App):
                stack.extend(t.args)
            elif isinstance(t, Ite):
                stack.extend((t.c, t.a, t.b))
            elif isinstance(t, Floor):
                stack.append(t.x)
            elif isinstance(t, IDiv):
                stack.extend((t.x, t.n))
            elif isinstance(t, Base):
                stack.append(t.p)
            elif isinstance(t, PSum):
                stack.extend(t.params)
                stack.extend(t.uppers)
        else:
            seen[t] = 2
            if isinstance(t, Cmp):
                stack.append(t.p)
            elif isinstance(t, Not):
                stack.append(t.c)
            elif isinstance(t, (And, Or)):
                stack.extend(t.cs)
            elif isinstance(t, BApp):
                stack.extend(t.args)
    return seen


def unfold_sums(x):
    """sums over at most three terms are written out"""
    def f(a):
        if isinstance(a, PSum) and a.uppers[0].const() is not None and 0 <= a.uppers[0].const() <= 3:
            r = ZERO
            for k in range(int(a.uppers[0].const())):
                m = {"%%p%d" % i: p for i, p in enumerate(a.params)}
                m["%b"] = C(k)
                r = add(r, subst(a.body, m))
            return unfold_sums(r)
        return None
    return rebuild(x, f, {})
