"""Path exploration, facts, and discharge of obligations.

Code under verification is executed on symbolic values.  A branch on a symbolic condition is explored both ways (by
re-execution); every obligation is decided by z3 (then cvc5) under the facts of its path."""
import os, subprocess, sys, tempfile, time
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3
from . import terms as T
from .terms import Num, Cond, Const, TRUE, FALSE, C, ZERO, Unsupported


class EndPath(Exception):
    """the rest of this path is not of interest (or infeasible)"""


class CodeError(Exception):
    """the code under verification raises an exception that its contract excludes"""


# ------------------------------------------------------------------ z3 encoding (all numbers are reals; integer
# comparisons are tightened before they get here)

class Enc:
    """ints: integer atoms are of sort Int (slower, exact); otherwise real numbers.  Encodings are kept between queries;
    cur collects the axioms that the encoded terms need"""
    count = 0

    def __init__(self, ints=False, linear=False):
        """linear: products are unknowns of which only the sign is known (weaker, so what it refutes is refuted)"""
        self.ints, self.linear = ints, linear
        self.memo = {}
        self.funs = {}
        self.cur = {}

    @property
    def axioms(self):
        return list(self.cur.values())

    def begin(self):
        self.cur = {}
        return self

    def ax(self, e):
        Enc.count += 1
        self.cur[Enc.count] = e

    def name(self, s):
        Enc.count += 1
        return "%s!%d" % (s, Enc.count)

    def memoised(self, key, f, x):
        r = self.memo.get(key)
        if r is None:
            saved, self.cur = self.cur, {}
            try:
                e = f(x)
                r = self.memo[key] = (e, self.cur)
            finally:
                self.cur = saved
        if r[1]:
            self.cur.update(r[1])
        return r[0]

    def fun(self, name, n, bool_=False):
        k = (name, n, bool_)
        f = self.funs.get(k)
        if f is None:
            f = self.funs[k] = z3.Function("%s/%d" % (name, n), *([z3.RealSort()] * n + [z3.BoolSort() if bool_ else z3.RealSort()]))
        return f

    def num(self, t):
        return self.memoised(t, self._num, t)

    def atom(self, a):
        return self.memoised(a, self._atom, a)

    def inv(self, a):
        return self.memoised(("inv", a), self._inv, a)

    def cond(self, c, top=False):
        r = self.memoised(c, self._cond, c)
        if not top:
            self.tight(c)
        return r

    def tight(self, c):
        """an integer comparison below a connective: its negation is tightened too"""
        if isinstance(c, T.Cmp) and c.p.is_int:
            self.memoised(("tight", c), self._tight, c)

    def _num(self, t):
        parts = []
        for m, c in t.d.items():
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c)))
            for a, e in m:
                x = self.atom(a) if e > 0 else self.inv(a)
                fs += [x] * abs(e)
            if self.linear and sum(abs(e) for a, e in m) > 1:
                p = self.memoised(("product", m), self._product, m)
                parts.append(z3.RealVal(str(c)) * p if c != 1 else p)
                continue
            p = fs[0]
            for f in fs[1:]:
                p = p * f
            parts.append(p)
        return z3.Sum(parts) if len(parts) > 1 else parts[0] if parts else z3.RealVal(0)

    def _product(self, m):
        r = z3.Real(self.name("product"))
        fs = [self.atom(a) if e > 0 else self.inv(a) for a, e in m if e % 2]
        self.ax(z3.Implies(z3.And([x >= 0 for x in fs]), r >= 0))
        self.ax(z3.Implies(z3.And([x > 0 for x in [self.atom(a) if e > 0 else self.inv(a) for a, e in m]]), r > 0))
        self.ax(z3.Implies(z3.Or([self.atom(a) == 0 for a, e in m if e > 0] + [z3.BoolVal(False)]), r == 0))
        return r

    def _inv(self, a):
        r = z3.Real(self.name("inv"))
        x = self.num(a.p) if isinstance(a, T.Base) else self.atom(a)
        if not self.linear:
            self.ax(z3.Implies(x != 0, x * r == 1))
        self.ax(z3.Implies(x > 0, r > 0))
        self.ax(z3.Implies(x < 0, r < 0))
        return r

    def _atom(self, a):
        if isinstance(a, T.Var):
            return z3.ToReal(z3.Int(a.name)) if self.ints and a.is_int else z3.Real(a.name)
        if isinstance(a, T.App):
            args = [self.num(x) for x in a.args]
            r = self.fun(a.f, len(args))(*args) if args else z3.Real(a.f)
            if self.ints and a.is_int:
                self.ax(z3.ToReal(z3.Int(self.name("int"))) == r)
            return r
        if isinstance(a, T.Ite):
            return z3.If(self.cond(a.c), self.num(a.a), self.num(a.b))
        if isinstance(a, T.Floor):
            r = z3.Real(self.name("floor"))
            x = self.num(a.x)
            self.ax(r <= x)
            self.ax(x < r + 1)
            return r
        if isinstance(a, T.IDiv):
            r = z3.Real(self.name("idiv"))
            x, n = self.num(a.x), self.num(a.n)
            self.ax(z3.Implies(n > 0, z3.And(n * r <= x, x <= n * r + n - 1)))
            return r
        if isinstance(a, T.PSum):
            args = [self.num(x) for x in a.params + a.uppers]
            return self.fun("sum:%s" % a.body, len(args))(*args)
        if isinstance(a, T.Base):
            return self.num(a.p)
        raise Unsupported("atom")

    def _tight(self, c):
        x = self.num(c.p)
        self.ax(z3.Or(x <= -1, x >= 1, x == 0) if c.op == "==" else z3.Or(x <= 0, x >= 1))

    def _cond(self, c):
        if isinstance(c, Const):
            return z3.BoolVal(c.v)
        if isinstance(c, T.Cmp):
            x = self.num(c.p)
            return x < 0 if c.op == "<" else x <= 0 if c.op == "<=" else x == 0
        if isinstance(c, T.Not):
            if isinstance(c.c, T.Cmp) and c.c.op == "==" and c.c.p.is_int:
                x = self.num(c.c.p)
                return z3.Or(x <= -1, x >= 1)
            return z3.Not(self.cond(c.c))
        if isinstance(c, T.And):
            return z3.And(*[self.cond(x) for x in c.cs])
        if isinstance(c, T.Or):
            return z3.Or(*[self.cond(x) for x in c.cs])
        if isinstance(c, T.BApp):
            return self.fun(c.f, len(c.args), True)(*[self.num(x) for x in c.args]) if c.args else z3.Bool(c.f)
        raise Unsupported("condition")


ENC = {False: Enc(), True: Enc(True), "linear": Enc(False, True)}


def assert_all(s, es):
    r = s.ctx.ref()
    for e in es:
        z3.Z3_solver_assert(r, s.solver, e.as_ast())


def check(enc, allc, ms):
    enc = ENC[enc].begin()
    s = z3.Solver() if enc.linear is False else z3.SimpleSolver()
    s.set("timeout", ms)
    assert_all(s, [enc.cond(c, True) for c in allc])
    assert_all(s, enc.axioms)
    STATS["queries"] += 1
    return str(s.check()), s


# ------------------------------------------------------------------ facts

class Fact:
    """for all arguments: fn(*args), instantiated for every application of `trigger` in a query"""

    def __init__(self, trigger, fn, name=""):
        self.trigger, self.fn, self.name, self.memo = trigger, fn, name, {}

    def inst(self, k, *a):
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = cond(self.fn(*a))
        return r


class ForInt:
    """for all integers i: fn(i), instantiated at the index terms of a query and the seeds of the path"""

    def __init__(self, fn, name="", n=1):
        self.fn, self.name, self.memo = fn, name, {}
    inst = Fact.inst


STATS = {"z3": 0, "cvc5": 0, "normaliser": 0, "solver_seconds": 0.0, "queries": 0, "paths": 0}


class Ctx:
    def __init__(self, prefix=(), parent=None):
        self.prefix = list(prefix)
        self.trace = []            # decisions taken (bool, alternative_open)
        self.conds = []            # path facts (Cond)
        self.facts = []            # quantified facts
        self.seeds = []            # index terms
        self.key = 0
        self.n_facts = 0
        self.obligations = []      # (name, ok, info)
        self.events = []
        self.in_body = 0
        self.pure = 0

    # ---- facts
    def assume(self, c):
        c = cond(c)
        if c == FALSE:
            raise EndPath()
        if c == TRUE or c in self.conds:
            return
        self.conds.append(c)
        self.key = hash((self.key, c))

    def add_fact(self, f):
        """facts are told apart by their number on the path: the same decisions give the same facts"""
        c = CUR[0] if CUR else self
        c.n_facts += 1
        f.no = (c.n_facts, tuple(v for x in CUR for v, _ in x.trace))
        self.facts.append(f)
        self.key = hash((self.key, f.no, f.name))

    def forall(self, trigger, fn, name=""):
        self.add_fact(Fact(trigger, fn, name))

    def forint(self, fn, name=""):
        self.add_fact(ForInt(fn, name))

    def seed(self, *ts):
        for t in ts:
            t = num(t)
            if t not in self.seeds:
                self.seeds.append(t)
                self.key = hash((self.key, t))

    # ---- decisions
    def decide(self, c):
        c = cond(c)
        if isinstance(c, Const):
            return c.v
        if c in self.conds:
            return True
        n = T.neg(c)
        if n in self.conds:
            return False
        if self.pure:
            raise Unsupported("decision while facts are instantiated: %s" % str(c)[:200])
        for v in c.vars:
            if len(v) > 1 and v[1] == "~" and not (self.in_body and (v[0] == "o" or any(b.name == v or v.startswith("s~%s~" % b.name[2:]) for b in self.bound))):
                raise Unsupported("decision on the bound variable %s: %s" % (v, str(c)[:200]))
        k = len(self.trace)
        if k < len(self.prefix):
            v, open_ = self.prefix[k]
            self.trace.append((v, open_))
        else:
            t = self.possible(c)
            f = self.possible(n) if t else True
            if not t and not f:
                raise EndPath()
            v, open_ = (True, f) if t else (False, False)
            self.trace.append((v, open_))
        self.decisions.append(c if v else n)
        self.assume(c if v else n)
        return v

    def possible(self, c):
        """False only if c contradicts the path facts"""
        r = query(self, self.conds + [c], 1500, "possible")
        if r == "unknown" and check("linear", self.conds + [c], 500)[0] == "unsat":
            # the path facts contradict each other, without what can be instantiated
            return False
        return r != "unsat"

    def entails(self, c, ms=3000):
        c = cond(c)
        if isinstance(c, Const):
            return c.v
        if c in self.conds:
            return True
        return query(self, self.conds + [T.neg(c)], ms, "entails") == "unsat"

    def resolve(self, c):
        """True, False or None by the linear integer facts alone (fast)"""
        if isinstance(c, Const):
            return c.v
        if c in self.conds:
            return True
        n = T.neg(c)
        if n in self.conds:
            return False
        k = (self.key, c, "r")
        if k in QCACHE:
            return QCACHE[k]
        r = None
        if quick_unsat(self, n):
            r = True
        elif quick_unsat(self, c):
            r = False
        QCACHE[k] = r
        return r

    # ---- obligations
    def prove(self, name, c, ms=8000, hints=()):
        c = cond(c)
        if isinstance(c, Const) and c.v:
            STATS["normaliser"] += 1
            self.obligations.append((name, True, "normaliser"))
            return True
        if isinstance(c, T.And):
            ok = True
            for i, x in enumerate(c.cs):
                ok = self.prove(name, x, ms, hints) and ok
            return ok
        k = (self.key, CUR[0].perm[-1].no if CUR[0].perm else 0, c, "p")
        if k in QCACHE:
            ok, info = QCACHE[k]
        else:
            t0 = time.time()
            m = equalities(self.conds)
            goal = [T.neg(T.unfold_sums(T.subst(c, m)) if m else c)]
            if goal[0] == FALSE:
                STATS["normaliser"] += 1
                self.obligations.append((name, True, "normaliser"))
                return True
            r = "unsat" if light(self, goal[0]) else query(self, self.conds + goal, ms, "prove", want_model=True)
            ok, info = r == "unsat", LAST["backend"]
            if r == "sat" and not genuine(self, goal[0]):
                r = "unknown, as no model has its sums written out: sat"
            elif r == "sat" and getattr(CUR[0], "havoc", False):
                r = "unknown, as what a while loop computes is known only by its condition: sat"
            if not ok:
                info = "%s; goal %s; path %s; model %s" % (r, str(c)[:600], [str(x)[:200] for x in self.conds[-12:]], LAST.get("model", "")[:1500])
            QCACHE[k] = (ok, info)
        self.obligations.append((name, ok, info))
        if ok:
            STATS[info] = STATS.get(info, 0) + 1
            self.assume(c)
        return ok


def equalities(cs):
    """{variable: term} from the integer equalities among the path facts"""
    le = set()
    eqs = []
    for c in cs:
        if isinstance(c, T.Cmp) and c.p.is_int:
            if c.op == "==":
                eqs.append(c.p)
            elif c.op == "<=":
                if T.scale(c.p, -1) in le:
                    eqs.append(c.p)
                le.add(c.p)
    out = {}
    for p in eqs:
        p = T.subst(p, out)
        best = None
        for m, k in p.d.items():
            if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], T.Var) and abs(k) == 1:
                v = m[0][0]
                rest = T.add(p, T.scale(T.A(v), k), -1)
                if v.name not in rest.vars and (best is None or len(v.name) > len(best[0])):
                    best = (v.name, T.scale(rest, -k))
        if best:
            out = {k: T.subst(t, dict([best])) for k, t in out.items()}
            out[best[0]] = best[1]
    return out


QCACHE = {}
LAST = {"backend": "z3", "model": ""}


def conds_key(cs):
    return hash(tuple(cs))


def has_int(c):
    return isinstance(c, T.Cmp) and c.p.is_int or (isinstance(c, T.Not) and has_int(c.c)) or \
        (isinstance(c, (T.And, T.Or)) and all(has_int(x) for x in c.cs))


def quick_unsat(ctx, c):
    """conjunction of the integer path facts and c is unsatisfiable"""
    if not has_int(c):
        return False
    k = (ctx.key, c, "q")
    if k in QCACHE:
        return QCACHE[k]
    enc = ENC[False].begin()
    s = z3.SimpleSolver()
    s.set("timeout", 500)
    assert_all(s, [enc.cond(x, True) for x in ctx.conds if has_int(x)] + [enc.cond(c, True)])
    assert_all(s, enc.axioms)
    STATS["queries"] += 1
    t0 = time.time()
    r = s.check() == z3.unsat
    STATS["solver_seconds"] += time.time() - t0
    QCACHE[k] = r
    return r


AXIOM_HOOKS = []      # functions (list of atoms, ctx) -> [Cond], for uninterpreted functions


_atoms = {}


def atoms_of(c):
    r = _atoms.get(c)
    if r is None:
        r = _atoms[c] = {a: k for a, k in T.atoms(c).items() if k}
    return r


def instantiate(ctx, cs, rounds=3, limit=1500, seeds=True):
    out = list(cs)
    have = set(out)
    done = set()
    seen = {}
    pos = 0
    for rnd in range(rounds):
        while pos < len(out):
            seen.update(atoms_of(out[pos]))
            pos += 1
        apps = {}
        ints = {}
        for a, k in seen.items():
            if k == 1 and isinstance(a, T.App) or k == 2 and isinstance(a, T.BApp):
                apps.setdefault(a.f, []).append(a)
                for x in a.args:
                    if x.is_int and not any(v.startswith("%") for v in x.vars):
                        ints[x] = 1
        for s in ctx.seeds if seeds else ():
            ints[s] = 1
        new = []
        for i, f in enumerate(ctx.facts + (CUR[0].perm if CUR else [])):
            if type(f).__name__ == "FactPair":
                ap = [a for a in apps.get(f.trigger, ()) if not any(v.startswith("%") for v in a.vars)]
                for a in ap:
                    for b in ap:
                        if a is not b and (i, a, b) not in done:
                            done.add((i, a, b))
                            new.append(f.inst((a, b), a.args[0], b.args[0]))
            elif type(f).__name__ == "Fact2":
                for a in apps.get(f.trigger, ()):
                    if any(v.startswith("%") for v in a.vars):
                        continue
                    for x in list(ints):
                        if (i, a, x) not in done:
                            done.add((i, a, x))
                            new.append(f.inst((a, x), a.args, x))
            elif isinstance(f, Fact):
                for a in apps.get(f.trigger, ()):
                    if any(v.startswith("%") for v in a.vars):
                        continue
                    key = (i, a)
                    if key not in done:
                        done.add(key)
                        new.append(f.inst(a, *a.args))
            else:
                for x in list(ints):
                    key = (i, x)
                    if key not in done:
                        done.add(key)
                        new.append(f.inst(x, x))
        for h in AXIOM_HOOKS:
            new += h([a for a, k in seen.items() if k == 1], ctx, done)
        n = 0
        for c in new:
            c = cond(c)
            if c != TRUE and c not in have:
                have.add(c)
                out.append(c)
                n += 1
        if not n or len(out) > limit:
            break
    return out


def light(ctx, goal):
    """the goal (negated) contradicts the path facts that share atoms with it and the integer facts alone"""
    at = set(atoms_of(goal))
    sums = any(isinstance(x, T.PSum) for x in at)
    # the facts over the goal's atoms (and their quotients) alone
    few = [c for c in ctx.conds if all(x in at or isinstance(x, T.Base) for x in atoms_of(c))]
    if few and not has_int(goal):
        LAST["backend"] = "z3"
        if check("linear", few + [goal], 100)[0] == "unsat" or check(False, few + [goal], 300)[0] == "unsat":
            return True
    cs = []
    for c in ctx.conds:
        d = atoms_of(c)
        if len(d) > 40 or (not sums and any(isinstance(x, T.PSum) for x in d)):
            continue
        if has_int(c) or any(x in at for x in d):
            cs.append(c)
    if len(cs) == len(ctx.conds):
        return False
    ctx.pure += 1
    try:
        allc = instantiate(ctx, cs + [goal], rounds=2, limit=400, seeds=False)
    finally:
        ctx.pure -= 1
    if FALSE in allc:
        LAST["backend"] = "normaliser"
        return True
    t0 = time.time()
    r = check("linear", allc, 300)[0] == "unsat" or check(False, allc, 700)[0] == "unsat"
    STATS["solver_seconds"] += time.time() - t0
    LAST["backend"] = "z3"
    return r


PROFILE = {}


LEFT_OPEN = [0]      # obligations of this proof that the solvers left open: later ones get less time


def query(ctx, cs, ms, kind, want_model=False):
    if kind == "prove" and LEFT_OPEN[0] >= 3:
        ms = min(ms, 1500)
    key = (ctx.key, CUR[0].perm[-1].no if CUR and CUR[0].perm else 0, conds_key(cs[len(ctx.conds):]), kind)
    if key in QCACHE:
        return QCACHE[key]
    t0 = time.time()
    ctx.pure += 1
    try:
        allc = instantiate(ctx, cs)
    finally:
        ctx.pure -= 1
    if FALSE in allc:
        QCACHE[key] = "unsat"
        LAST["backend"] = "normaliser"
        return "unsat"
    r, s = check("linear", allc, 500 if kind == "prove" else 300)
    if os.environ.get("VC_SLOW"):
        PROFILE.setdefault((kind, "lin", r), []).append(time.time() - t0)
    if r != "unsat" and kind != "reach" and (kind == "prove" or len(allc) < 100):
        r, s = check(False, allc, ms if kind == "prove" else 300)
        if os.environ.get("VC_SLOW"):
            PROFILE.setdefault((kind, "non", r), []).append(time.time() - t0)
    LAST["backend"] = "z3"
    LAST["model"] = ""
    if r == "sat" and want_model:
        LAST["model"] = str(s.model())
    if r == "sat" and kind == "prove":
        # the real relaxation of the integers may have a model where the integers have none
        r, s = check(True, allc, ms)
        LAST["model"] = str(s.model()) if r == "sat" else ""
    if r == "unknown" and kind == "prove":
        r2 = cvc5(s, ms)
        if r2 in ("unsat",):
            r = r2
            LAST["backend"] = "cvc5"
        else:
            LEFT_OPEN[0] += 1
    STATS["solver_seconds"] += time.time() - t0
    if os.environ.get("VC_SLOW") and time.time() - t0 > 2:
        print("  slow", kind, "%.1f" % (time.time() - t0), r, str(cs[-1])[:300], len(allc), file=sys.stderr)
    QCACHE[key] = r
    return r


def written_out(c, m, limit=8):
    """the integer variables replaced by numbers, and the sums with numbers as bounds expanded"""
    def f(a):
        if isinstance(a, T.PSum) and len(a.uppers) == 1:
            u = T.rebuild(a.uppers[0], f, {}).const()
            if u is not None and u.denominator == 1 and -limit <= u <= limit:
                ps = {"%%p%d" % i: T.rebuild(p, f, {}) for i, p in enumerate(a.params)}
                r = ZERO
                for k in range(int(min(u, 0)), int(max(u, 0))):
                    r = T.add(r, T.subst(a.body, dict(ps, **{"%b": C(k)})), 1 if u > 0 else -1)
                return T.rebuild(r, f, {})
        return None
    return T.rebuild(T.subst(c, m), f, {})


def genuine(ctx, goal, tries=5, ms=4000):
    """False if the model of the negated goal is only one of the abstraction: for the sizes of the model, and of further ones,
    nothing is left of it once the sums are expanded and the facts instantiated at every index"""
    c0 = [c for c in ctx.conds] + [goal]
    ctx.pure += 1
    try:
        base = instantiate(ctx, c0)
        if not any(isinstance(a, T.PSum) for c in base for a in atoms_of(c)):
            return True
        ints = sorted({a for c in base for a in atoms_of(c) if isinstance(a, T.Var) and a.is_int and a.name[0] != "%"}, key=str)
        small = [T.conj(T.le(C(-2), T.A(a)), T.le(T.A(a), C(4))) for a in ints]
        blocked = []
        for _ in range(tries):
            r, s = check(True, base + small + blocked, ms)
            if r == "unsat":
                return not blocked
            if r != "sat":
                return True
            mod = s.model()
            enc = ENC[True]
            m = {}
            for a in ints:
                v = mod.eval(enc.num(T.A(a)), model_completion=True)
                m[a.name] = C(int(v.as_long()) if z3.is_int_value(v) else Fraction(v.numerator_as_long(), v.denominator_as_long()))
            cs = [written_out(c, m) for c in c0]
            seeds = ctx.seeds
            ctx.seeds = [C(k) for k in range(-1, 5)]
            try:
                for _ in range(3):
                    if FALSE in cs:
                        break
                    n = len(cs)
                    cs = list(dict.fromkeys(written_out(c, m) for c in instantiate(ctx, cs, rounds=1, limit=6000)))
                    if len(cs) == n:
                        break
            finally:
                ctx.seeds = seeds
            r = "unsat" if FALSE in cs else check("linear", cs, ms)[0]
            if r != "unsat":
                r = check(False, cs, ms)[0]
            if os.environ.get("VC_GENUINE"):
                print("  genuine?", r, len(cs), {k: str(v) for k, v in m.items()}, file=sys.stderr)
            if r != "unsat":
                return True
            blocked.append(T.neg(T.conj(*[T.eq(T.A(a), m[a.name]) for a in ints])))
        return False
    except Unsupported:
        return True
    finally:
        ctx.pure -= 1


def cvc5(s, ms):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + s.to_smt2())
    try:
        o = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--nl-ext=full", f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000 + 10)
        return o.stdout.decode().strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)


# ------------------------------------------------------------------ exploration

CUR = []      # stack of contexts


def ctx():
    return CUR[-1]


class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = []
        self.unsupported = []
        self.ended = 0


def explore(fn, max_paths=3000, max_seconds=600):
    """run fn() on every feasible path; obligations are proved as they arise"""
    res = Result()
    work = [[]]
    t0 = time.time()
    while work:
        work += run_path(fn, work.pop(), res)
        if res.paths > max_paths or time.time() - t0 > max_seconds:
            res.unsupported.append("too many paths (%d)" % res.paths)
            break
    return res


def contradictory(c):
    """no state takes this path"""
    return check("linear", c.conds, 1000)[0] == "unsat" or query(c, list(c.conds), 3000, "reach") == "unsat"


def run_path(fn, prefix, res):
    """the path that takes the decisions of the prefix first; returns the prefixes of the paths that it leaves open"""
    T.reset_ids()
    c = Ctx(prefix)
    CUR.append(c)
    from . import arrays
    mark = arrays.log_mark()
    try:
        fn()
    except EndPath:
        res.ended += 1
    except Unsupported as e:
        if contradictory(c):
            res.ended += 1
        else:
            res.unsupported.append(str(e) + " | " + where())
    except RecursionError:
        res.unsupported.append("recursion limit")
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        in_code = bool(tb) and tb[-1].filename.startswith("<vc:")
        if type(e).__name__ == "CodeErr" or (in_code and isinstance(e, (ValueError, AssertionError, ZeroDivisionError)) or (in_code and type(e) is Exception)):
            c.obligations.append(("no exception", False, "the code raises %s: %s at %s" % (type(e).__name__, e, where())))
        else:
            res.unsupported.append("%s: %s | %s" % (type(e).__name__, e, where()))
            if os.environ.get("VC_TB"):
                traceback.print_exc()
    finally:
        CUR.pop()
        arrays.log_undo(mark)
    res.paths += 1
    STATS["paths"] += 1
    res.obligations += c.obligations
    # open alternatives beyond the prefix
    out = []
    for k in range(len(c.trace) - 1, len(prefix) - 1, -1):
        v, open_ = c.trace[k]
        if open_:
            out.append([(x, False) for x, _ in c.trace[:k]] + [(not v, False)])
    return out


def where():
    import traceback
    tb = traceback.extract_tb(sys.exc_info()[2])
    return " > ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-6:])


def sub_explore(fn, max_paths=200):
    """All paths of fn() from the current state: [(conditions, result)].  Array writes are undone after each path."""
    outer = ctx()
    out = []
    work = [[]]
    ids0 = next(T._ids)
    from . import arrays
    while work:
        prefix = work.pop()
        c = Ctx(prefix)
        c.conds = list(outer.conds)
        c.facts = list(outer.facts)
        c.seeds = list(outer.seeds)
        c.key = hash((outer.key, "sub"))
        c.in_body = outer.in_body + 1
        c.pure, c.bound, c.merge, c.wrap, c.reads, c.defs, c.tracer = outer.pure, outer.bound, outer.merge, outer.wrap, outer.reads, outer.defs, outer.tracer
        n0 = len(c.conds)
        mark = arrays.log_mark()
        CUR.append(c)
        try:
            r = fn()
            out.append((list(c.decisions), r, c.facts[len(outer.facts):], arrays.log_since(mark)))
        except EndPath:
            pass
        finally:
            CUR.pop()
            arrays.log_undo(mark)
            outer.obligations += c.obligations
        for k in range(len(c.trace) - 1, len(prefix) - 1, -1):
            v, open_ = c.trace[k]
            if open_:
                work.append([(x, False) for x, _ in c.trace[:k]] + [(not v, False)])
        if len(out) > max_paths:
            raise Unsupported("too many paths in a loop body")
    return out


# ------------------------------------------------------------------ symbolic scalars

def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, N):
        return x.t
    if isinstance(x, B):
        return bool_num(x.c)
    if isinstance(x, bool):
        return C(int(x))
    if isinstance(x, (int, Fraction)):
        return C(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite number")
        return C(x)
    if isinstance(x, Cond):
        return bool_num(x)
    if hasattr(x, "item") and not hasattr(x, "buf"):
        return num(x.item())
    if hasattr(x, "scalar_term"):
        return x.scalar_term()
    raise Unsupported("not a number: %s" % type(x).__name__)


def bool_num(c):
    return T.ite(c, C(1), ZERO)


def cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, B):
        return x.c
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, N):
        return T.neg(T.eq(x.t, ZERO))
    if isinstance(x, int):
        return TRUE if x else FALSE
    if isinstance(x, Num):
        return T.neg(T.eq(x, ZERO))
    if type(x).__name__ == "bool_":
        return TRUE if x else FALSE
    raise Unsupported("not a condition: %s" % type(x).__name__)


def wrapb(c):
    return c.v if isinstance(c, Const) else B(c)


def wrapn(t):
    c = t.const()
    if c is not None and c.denominator == 1 and t.is_int and not FLOATY.get(id(t)):
        return int(c)
    return N(t)


FLOATY = {}


class B:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ctx().decide(self.c)

    def __and__(self, o):
        return wrapb(T.conj(self.c, cond(o)))
    __rand__ = __and__

    def __or__(self, o):
        return wrapb(T.disj(self.c, cond(o)))
    __ror__ = __or__

    def __invert__(self):
        return wrapb(T.neg(self.c))

    def __eq__(self, o):
        if isinstance(o, (B, bool)):
            return wrapb(T.iff(self.c, cond(o)))
        return N(bool_num(self.c)) == o

    def __ne__(self, o):
        r = self == o
        return wrapb(T.neg(cond(r)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic boolean")

    def __mul__(self, o):
        return N(bool_num(self.c)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return N(bool_num(self.c)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return N(bool_num(self.c)) - o

    def __rsub__(self, o):
        return o - N(bool_num(self.c))

    def __repr__(self):
        return "B(%s)" % self.c


def is_scalar(o):
    return isinstance(o, (int, float, N, B, Fraction, bool)) or (type(o).__module__ == "numpy" and not hasattr(o, "__len__"))


class N:
    """a symbolic number (float arithmetic is treated as real arithmetic)"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if isinstance(o, X):
            return NotImplemented
        if not is_scalar(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return NotImplemented
        return N(f(self.t, num(o)))

    def __add__(self, o):
        return self._bin(o, T.add)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: T.add(b, a))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: T.add(a, b, -1))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: T.add(b, a, -1))

    def __mul__(self, o):
        if isinstance(o, list):
            return list_times(o, self.t)
        return self._bin(o, T.mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, divide)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: divide(b, a))

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: floordiv(b, a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: T.add(a, T.mul(b, floordiv(a, b)), -1))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: T.add(b, T.mul(a, floordiv(b, a)), -1))

    def __pow__(self, o):
        if not is_scalar(o):
            return NotImplemented
        return N(power(self.t, num(o)))

    def __rpow__(self, o):
        return N(power(num(o), self.t))

    def __neg__(self):
        return N(T.scale(self.t, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return N(T.ite(simp(T.lt(self.t, ZERO)), T.scale(self.t, -1), self.t))

    def _cmp(self, o, f):
        if not is_scalar(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            raise Unsupported("comparison with infinity")
        return wrapb(f(self.t, num(o)))

    def __lt__(self, o):
        return self._cmp(o, T.lt)

    def __le__(self, o):
        return self._cmp(o, T.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, T.eq)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: T.neg(T.eq(a, b)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return ctx().decide(T.neg(T.eq(self.t, ZERO)))

    def __float__(self):
        raise Unsupported("float() of a symbolic number in a library")

    def __int__(self):
        raise Unsupported("int() of a symbolic number in a library")

    def __index__(self):
        c = self.t.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic number used as an index of a concrete sequence")

    def __round__(self, n=None):
        raise Unsupported("round()")

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "N(%s)" % self.t


def list_times(o, n):
    """[v] * n for a symbolic n"""
    from . import arrays
    if len(o) != 1:
        raise Unsupported("repetition of a list of %d elements" % len(o))
    n = n if simp(T.le(ZERO, n)) == TRUE else arrays.smax0(n)
    return arrays.SymList(n, lambda i: o[0])


def simp(c):
    """replace a condition by its truth value where the integer facts decide it"""
    if isinstance(c, Const) or not CUR:
        return c
    r = ctx().resolve(c)
    return c if r is None else (TRUE if r else FALSE)


def need(what, c):
    """the code's own safety condition (index in range, nonzero divisor)"""
    if isinstance(c, Const) and c.v:
        return
    cx = ctx()
    if cx.pure:
        return
    cx.prove((cx.tracer.tag if cx.tracer is not None else "") + "safety: " + what, c)


def divide(a, b):
    if b.const() is None:
        for v in b.vars:
            if v.startswith("%"):
                break
        else:
            need("division by zero of %s" % str(b)[:80], T.neg(T.eq(b, ZERO)))
    elif b.const() == 0:
        need("division by zero", FALSE)
        raise EndPath()
    return T.mul(a, T.inverse(b))


def floordiv(a, b):
    if a.is_int and b.is_int:
        cb = b.const()
        if cb is None:
            need("positive integer divisor %s" % b, T.lt(ZERO, b))
        elif cb <= 0:
            raise Unsupported("floor division by a non-positive constant")
        else:
            return T.idiv(a, b)
        q = T.idiv(a, b)
        if any(isinstance(x, T.IDiv) for x in T.atoms(q)):
            return small_quotient(a, b, q)
        return q
    return T.floor(divide(a, b))


def small_quotient(a, b, q):
    """a // b by cases, where it is known to be between -3 and 3"""
    cx = ctx()
    if cx.pure:
        return q
    for k in (0, 1, -1):
        if cx.resolve(T.conj(T.le(T.scale(b, k), a), T.lt(a, T.scale(b, k + 1)))) is True:
            return C(k)
    if not cx.entails(T.conj(T.le(T.scale(b, -3), a), T.lt(a, T.scale(b, 4)))):
        return q
    for k in range(-3, 3):
        if cx.decide(T.lt(a, T.scale(b, k + 1))):
            return C(k)
    return C(3)


def power(a, b):
    cb = b.const()
    if cb is not None and cb.denominator == 1 and 0 <= cb <= 6:
        r = C(1)
        for _ in range(int(cb)):
            r = T.mul(r, a)
        return r
    ca = a.const()
    if ca == 1:
        return C(1)
    return T.app("POW", a, b)


def exp(t):
    if t.const() == 0:
        return C(1)
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if len(m) == 1 and isinstance(m[0][0], T.App) and m[0][0].f == "LOG" and m[0][1] == 1 and c == 1:
            need("logarithm argument positive", T.lt(ZERO, m[0][0].args[0]))
            return m[0][0].args[0]
    return T.app("EXP", t)


def log(t):
    if t.const() == 1:
        return ZERO
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if len(m) == 1 and isinstance(m[0][0], T.App) and m[0][0].f == "EXP" and m[0][1] == 1 and c == 1:
            return m[0][0].args[0]
    return T.app("LOG", t)


def sqrt(t):
    return T.app("SQRT", t)


def analytic_axioms(ats, ctx, done):
    out = []
    exps = [a for a in ats if isinstance(a, T.App) and a.f == "EXP" and not any(v.startswith("%") for v in a.vars)]
    for a in exps:
        if ("exp", a) in done:
            continue
        done.add(("exp", a))
        x, y = a.args[0], T.A(a)
        out += [T.lt(ZERO, y), T.implies(T.le(x, ZERO), T.le(y, C(1))), T.implies(T.le(ZERO, x), T.le(C(1), y)),
                T.implies(T.lt(x, ZERO), T.lt(y, C(1))), T.implies(T.lt(ZERO, x), T.lt(C(1), y)), T.le(T.add(C(1), x), y)]
    for i, a in enumerate(exps):
        for b in exps[i + 1:]:
            if ("exp2", a, b) in done:
                continue
            done.add(("exp2", a, b))
            x, y = a.args[0], b.args[0]
            out += [T.implies(T.le(x, y), T.le(T.A(a), T.A(b))), T.implies(T.le(y, x), T.le(T.A(b), T.A(a))),
                    T.implies(T.eq(T.A(a), T.A(b)), T.eq(x, y))]
            z = T.App("EXP", [T.add(x, y)])
            if z in exps or T.add(x, y).const() == 0:
                out.append(T.eq(exp(T.add(x, y)), T.mul(T.A(a), T.A(b))))
    logs = [a for a in ats if isinstance(a, T.App) and a.f == "LOG" and not any(v.startswith("%") for v in a.vars)]
    for a in logs:
        if ("log", a) in done:
            continue
        done.add(("log", a))
        x = a.args[0]
        out.append(T.implies(T.lt(ZERO, x), T.eq(T.app("EXP", T.A(a)), x)))
        out.append(T.implies(T.conj(T.lt(ZERO, x), T.le(x, C(1))), T.le(T.A(a), ZERO)))
    pows = [a for a in ats if isinstance(a, T.App) and a.f == "POW" and not any(v.startswith("%") for v in a.vars)]
    for a in pows:
        if ("pow", a) in done:
            continue
        done.add(("pow", a))
        x, p = a.args
        y = T.A(a)
        pre = T.conj(T.le(ZERO, x), T.lt(ZERO, p))
        out += [T.implies(pre, T.le(ZERO, y)), T.implies(T.conj(pre, T.le(x, C(1))), T.le(y, C(1))),
                T.implies(T.conj(pre, T.eq(x, ZERO)), T.eq(y, ZERO)), T.implies(T.eq(x, C(1)), T.eq(y, C(1))),
                T.implies(T.conj(pre, T.lt(ZERO, x)), T.lt(ZERO, y)), T.implies(T.eq(p, C(1)), T.eq(y, x))]
    for i, a in enumerate(pows):
        for b in pows[i + 1:]:
            if a.args[1] == b.args[1] and ("pow2", a, b) not in done:
                done.add(("pow2", a, b))
                pre = T.conj(T.lt(ZERO, a.args[1]), T.le(ZERO, a.args[0]), T.le(ZERO, b.args[0]))
                out += [T.implies(T.conj(pre, T.le(a.args[0], b.args[0])), T.le(T.A(a), T.A(b))),
                        T.implies(T.conj(pre, T.le(b.args[0], a.args[0])), T.le(T.A(b), T.A(a)))]
    return out


AXIOM_HOOKS.append(analytic_axioms)


# ------------------------------------------------------------------ extended reals (only for infinite capture rates)

class X:
    """value t where finite; pinf / ninf / nan are conditions (operations are in arrays.py)"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __repr__(self):
        return "X(%s, inf=%s/%s, nan=%s)" % (self.t, self.pinf, self.ninf, self.nan)

    def __deepcopy__(self, memo):
        return self


def sym(name, is_int=False):
    """a fresh symbolic input with a stable name"""
    return N(T.V(name, is_int))


# ------------------------------------------------------------------ more context state
def _ctx_init(self, prefix=(), parent=None):
    _ctx_init0(self, prefix, parent)
    self.perm = []
    self.bound, self.merge, self.wrap, self.reads = [], False, True, None
    self.defs, self.scatters = {}, []
    self.decisions = []
    self.tracer = None
    self.nz, self.extrema = [], []
    self.outer = parent


_ctx_init0 = Ctx.__init__
Ctx.__init__ = _ctx_init


class Fact2(Fact):
    """for all arguments of the trigger and all integers i"""


class FactPair(Fact):
    """for all pairs of single arguments of the trigger"""


def _forall2(self, trigger, fn, name=""):
    self.add_fact(Fact2(trigger, fn, name))


def _forpair(self, trigger, fn, name=""):
    self.add_fact(FactPair(trigger, fn, name))


Ctx.forall2 = _forall2
Ctx.forpair = _forpair


class Perm:
    """definitional facts about functions of bound variables: they outlive every scope of the path"""

    def __init__(self, top):
        self.top, self.facts, self.key = top, top.perm, 0
    forall, forall2, forint, forpair, add_fact = Ctx.forall, _forall2, Ctx.forint, _forpair, Ctx.add_fact


def _fact_target(self):
    return Perm(CUR[0])


Ctx.fact_target = _fact_target
