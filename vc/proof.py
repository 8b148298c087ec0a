"""Registry of proofs, and helpers to write contracts."""
import json, os, time
from . import core, terms as T, arrays, sums, load, objects
from .core import ctx, num, cond, sym, N, B, X
from .terms import C, ZERO, TRUE, FALSE, Unsupported

PROOFS = {}       # property -> [Proof]


class Proof:
    def __init__(self, name, fn, functions, spec):
        self.name, self.fn, self.functions, self.spec = name, fn, functions, spec


def proof(*props, functions=(), name=None):
    """fn(L): assumes the precondition, runs the code, proves the postcondition"""
    def deco(fn):
        p = Proof(name or fn.__name__, fn, list(functions), (fn.__doc__ or "").strip())
        for q in props:
            PROOFS.setdefault(q, []).append(p)
        return fn
    return deco


class Run:
    """the exploration of one proof, path by path"""

    def __init__(self, p, L):
        self.p, self.L, self.res, self.reached, self.seconds, self.cache = p, L, core.Result(), 0, 0.0, {}
        self.left_open = [0]
        self.stats = {"z3": 0, "cvc5": 0, "normaliser": 0, "solver_seconds": 0.0, "queries": 0, "paths": 0}

    def refuted(self, pid):
        return any(not ok and not info.startswith("unknown") and for_property(name, pid) for name, ok, info in self.res.obligations)

    def path(self, prefix):
        t0 = time.time()
        core.QCACHE, core.STATS, core.LEFT_OPEN = self.cache, self.stats, self.left_open

        def go():
            self.p.fn(self.L)
            # reachability of the end of the path (a contradictory precondition would make every obligation hold)
            c = ctx()
            if core.query(c, list(c.conds), 1500, "reach") != "unsat":
                self.reached += 1
        try:
            return core.run_path(go, prefix, self.res)
        except Exception:
            import traceback
            self.res.unsupported.append("engine: %s" % traceback.format_exc()[-800:])
            return []
        finally:
            self.seconds += time.time() - t0


def for_property(name, pid):
    """an obligation whose name starts with properties in brackets belongs to these only"""
    return not name.startswith("[") or pid is None or pid in name[1:name.index("]")].split()


def summary(p, pid, runs):
    """one proof's result, over the runs that share its paths"""
    failed, undecided = [], []
    n = d = 0
    for r in runs:
        undecided += r.res.unsupported
        for name, ok, info in r.res.obligations:
            n += 1
            if ok:
                d += 1
            elif info.startswith("unknown"):
                undecided.append("%s: %s" % (name, info[:300]))
            elif not for_property(name, pid):
                undecided.append("rests on an obligation that fails, %s: %s" % (name, info[:300]))
            else:
                failed.append({"obligation": "%s: %s" % (p.name, name), "reason": info[:1200]})
    stats = {}
    for r in runs:
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
    return {"name": p.name, "functions": p.functions, "contract": p.spec, "obligations": n, "discharged": d, "failed": failed,
            "undecided": undecided, "seconds": round(sum(r.seconds for r in runs), 2), "paths": sum(r.res.paths for r in runs),
            "reached": sum(r.reached for r in runs), "stats": stats}


def run(p, L, pid=None):
    r = Run(p, L)
    work = [[]]
    while work:
        work += r.path(work.pop())
    return summary(p, pid, [r])


def fact(c):
    ctx().assume(c)


def R(name):
    return T.V(name)


def I(name):
    return T.V(name, True)


def prove(name, c, **k):
    return ctx().prove(name, cond(c), **k)


def pos(*ts):
    for t in ts:
        fact(T.lt(ZERO, num(t)))


def nonneg(*ts):
    for t in ts:
        fact(T.le(ZERO, num(t)))


def eq(a, b):
    return T.eq(num(a), num(b))


def le(a, b):
    return T.le(num(a), num(b))


def lt(a, b):
    return T.lt(num(a), num(b))


def add(*ts):
    r = ZERO
    for t in ts:
        r = T.add(r, num(t))
    return r


def sub(a, b):
    return T.add(num(a), num(b), -1)


def mul(*ts):
    r = C(1)
    for t in ts:
        r = T.mul(r, num(t))
    return r


def div(a, b):
    return T.mul(num(a), T.inverse(num(b)))


def exp(t):
    return core.exp(num(t))


def finite(name, x):
    """proves that an extended real is finite, and returns it"""
    if isinstance(x, X):
        prove(name + " is finite", T.neg(T.disj(x.pinf, x.ninf, x.nan)))
        return x.t
    return x
