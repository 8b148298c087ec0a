"""Loops of the code under verification.

Concrete iterables run as they are.  A loop over a symbolic number of items is summarised exactly, with the justification
checked on every run from the body's behaviour in one arbitrary iteration: additive accumulators (closed form by the sum
calculus), values chosen by minimum or maximum, values overwritten in every iteration, element writes to arrays at an index
that determines the iteration (with a proof that no iteration reads what an earlier one wrote), and exits at the first
iteration that satisfies the exit condition.  Anything else is Unsupported."""
from . import terms as T
from .terms import Num, Cond, Const, C, ZERO, TRUE, FALSE, Unsupported
from . import core, arrays, sums
from .core import ctx, N, B, X, num, cond, wrapn, wrapb, simp, need


class Poison:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        raise Unsupported("use of the loop variable %s after a symbolic loop" % self._n)

    def __bool__(self):
        raise Unsupported("use of the loop variable %s after a symbolic loop" % self._n)


def run(where, it, body, get, set_, names):
    tr = ctx().tracer
    if tr is not None:
        r = tr.loop(where, it, body, get, set_, names)
        if r is not None:
            return r
    if not arrays.is_sym_iter(it):
        for x in it:
            r = body(x)
            if r[0] != "c":
                return r
        return ("c", None)
    n, item = arrays.iter_parts(it)
    r = build_list(where, n, item, body, get, set_, names)
    return r if r is not None else summarise(where, n, item, body, get, set_, names)


class Spy:
    """a list in an arbitrary iteration: what is appended"""

    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)

    def __getattr__(self, a):
        raise Unsupported("use of a list while it is built")

    def __len__(self):
        raise Unsupported("use of a list while it is built")
    __iter__ = __getitem__ = __bool__ = __len__


def build_list(where, n, item, body, get, set_, names):
    """a loop of which every iteration appends one element to one list, and carries nothing else to the next iterations"""
    cx = ctx()
    n = num(n)
    v0 = get()
    lists = [k for k, v in enumerate(v0) if type(v) is list]
    if len(lists) != 1:
        return None
    k = lists[0]
    if n.const() == 0 or simp(T.lt(ZERO, n)) == FALSE:
        return None
    cells = body.__closure__ or ()
    env = [(c, c.cell_contents) for c in cells if filled(c)]
    first = list(v0[k])

    def element(i):
        saved = [(c, c.cell_contents) for c, _ in env]
        for c, v in env:
            c.cell_contents = v
        spy = Spy()
        set_(tuple(spy if m == k else Poison(x) for m, x in enumerate(names)))
        mark, new = arrays.log_mark(), next(arrays.Buf._n)
        try:
            r = body(item(i))
            after = get()[k]
        finally:
            for c, v in saved:
                c.cell_contents = v
        if any(x[0].id < new for x in arrays.log_since(mark)):
            raise Unsupported("an array is written in the loop at %s" % where)
        if r[0] != "c" or after is not spy or len(spy.items) != 1:
            raise Unsupported("the loop at %s does not append one element in every iteration" % where)
        return spy.items[0]

    b = T.A(T.Var("j~%d" % next(T._ids), True))
    if not appends(where, b, n, item, body, get, set_, names, k):
        return None
    with sums.scope():
        cx.assume(T.le(ZERO, b))
        cx.assume(T.lt(b, n))
        cx.seed(b)
        cx.bound.append(next(iter(b.d))[0][0])
        try:
            core.sub_explore(lambda: element(b) and None)
        finally:
            cx.bound.pop()
    if n.const() is None and not cx.decide(T.lt(ZERO, n)):
        return ("c", None)
    m = len(first)
    out = arrays.SymList(T.add(n, C(m)), lambda i: first[int(i.const())] if i.const() is not None and i.const() < m else later(i))

    def later(i):
        if m and not ctx().decide(T.le(C(m), i)):
            for q in range(m):
                if ctx().decide(T.eq(i, C(q))):
                    return first[q]
        return element(T.add(i, C(-m)))
    set_(tuple(out if q == k else Poison(x) for q, x in enumerate(names)))
    return ("c", None)


def filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def appends(where, b, n, item, body, get, set_, names, k):
    """whether an iteration appends to the list"""
    v0 = get()
    seen = []

    def go():
        spy = Spy()
        set_(tuple(spy if m == k else v for m, v in enumerate(v0)))
        try:
            body(item(b))
        finally:
            if spy.items:
                seen.append(1)
            set_(v0)
    cx = ctx()
    with sums.scope():
        cx.assume(T.le(ZERO, b))
        cx.assume(T.lt(b, n))
        cx.seed(b)
        cx.bound.append(next(iter(b.d))[0][0])
        try:
            core.sub_explore(go)
        except Unsupported:
            pass
        finally:
            cx.bound.pop()
            set_(v0)
    return bool(seen)


def comp(it, f, conds, kind):
    if not arrays.is_sym_iter(it):
        return [f(x) for x in it if all(c(x) for c in conds)]
    n, item = arrays.iter_parts(it)
    if conds:
        tm = arrays.merged(lambda i: as_condition([c(item(i)) for c in conds]), n)
        idx = arrays.nonzero_of(tm, n)
        s = idx.snap()
        cnt = idx._shape[0]
        return lazy(cnt, lambda e: f(item(s(e))))
    return lazy(n, lambda i: f(item(i)))


def as_condition(vs):
    return wrapb(T.conj(*[cond(v) for v in vs]))


def lazy(n, g):
    """a list with g(i) evaluated once for a bound index where its value is a number or condition"""
    try:
        tm = arrays.merged(g, n)
    except Unsupported as e:
        return arrays.SymList(n, g)
    return arrays.SymList(n, lambda i: arrays.wrap(tm(i), "i" if isinstance(tm(i), Num) and tm(i).is_int else "f"))


def scalar(v):
    return isinstance(v, (int, float, N, B)) and not isinstance(v, X)


def term_of(v):
    """(term, is_cond)"""
    if isinstance(v, (bool, B)):
        return cond(v)
    return num(v)


def vars_of(t):
    return t.vars


def rename(t, m):
    return T.subst(t, m)


class Loop:
    pass


def summarise(where, n, item, body, get, set_, names):
    cx = ctx()
    n = num(n)
    c = simp(T.lt(ZERO, n))
    if c == FALSE or (c != TRUE and not cx.decide(c)):
        return ("c", None)
    v0 = get()
    carried = [(k, nm) for k, nm in enumerate(names) if scalar(v0[k])]
    ints = {nm: (isinstance(v0[k], int) and not isinstance(v0[k], bool)) or (isinstance(v0[k], N) and v0[k].t.is_int) for k, nm in carried}
    ints0 = dict(ints)
    buf0 = next(arrays.Buf._n)
    for attempt in range(3):
        S = one_iteration(where, n, item, body, get, set_, names, v0, carried, ints)
        again = False
        for k, nm in carried:
            if ints[nm] and any(isinstance(vals[k], (N, float)) and not num(vals[k]).is_int for _, _, vals, _ in S.paths if scalar(vals[k])):
                ints[nm] = False
                again = True
        if not again:
            break
    return close(where, n, item, body, get, set_, names, v0, carried, S, buf0)


def one_iteration(where, n, item, body, get, set_, names, v0, carried, ints):
    cx = ctx()
    S = Loop()
    ident = next(T._ids)
    S.ident = ident
    S.bv = T.Var("j~%d" % ident, True)
    b = T.A(S.bv)
    S.place = {}
    state = list(v0)
    for k, nm in carried:
        if isinstance(v0[k], (bool, B)):
            p = T.BApp("s~%d~%s" % (ident, nm))
            S.place[nm] = p
            state[k] = B(p)
        else:
            p = T.V("s~%d~%s" % (ident, nm), ints[nm])
            S.place[nm] = p
            state[k] = N(p)
    S.reads = []

    def go():
        set_(tuple(state))
        r = body(item(b))
        return r, get()
    with sums.scope():
        cx.assume(T.le(ZERO, b))
        cx.assume(T.lt(b, n))
        cx.seed(b)
        cx.bound.append(S.bv)
        old, cx.reads = cx.reads, S.reads
        try:
            paths = core.sub_explore(go)
        finally:
            cx.bound.pop()
            cx.reads = old
            set_(v0)
    if old is not None:
        for r in S.reads:
            old.append(r)
    S.ids1 = next(T._ids)
    S.paths = []
    for dec, (r, vals), facts, log in paths:
        if facts:
            raise Unsupported("loop body at %s introduces unresolved choices" % where)
        S.paths.append((T.conj(*dec), r, vals, log))
    return S


def leftover(t, S):
    return [v for v in t.vars if v.startswith("s~%d~" % S.ident)]


def fresh_in(t, S):
    for v in t.vars:
        if "!" in v:
            k = v.rsplit("!", 1)[1]
            if k.isdigit() and S.ident < int(k) < S.ids1:
                return True
    return False


def close(where, n, item, body, get, set_, names, v0, carried, S, buf0):
    cx = ctx()
    bv, b = S.bv, T.A(S.bv)
    idx = {nm: k for k, nm in carried}
    closed = {}          # name -> function of iteration number: value at the start of that iteration
    final = {}           # name -> value after n iterations (for min/max)
    minmax = set()
    pending = [nm for k, nm in carried]

    def resolve_term(t):
        """substitute the closed forms (at iteration b) of resolved placeholders"""
        m = {}
        with sums.scope():
            cx.assume(T.le(ZERO, b))
            cx.assume(T.lt(b, n))
            for v in leftover(t, S):
                nm = v.split("~", 2)[2]
                if nm in closed:
                    m[v] = closed[nm](b)
        if m:
            t = subst_any(t, m)
        if fresh_in(t, S):
            raise Unsupported("value chosen inside the loop at %s" % where)
        return t

    def at(t, i):
        return subst_any(t, {bv.name: i})

    progress = True
    while pending and progress:
        progress = False
        for nm in list(pending):
            k = idx[nm]
            p = S.place[nm]
            vals = []
            ok = True
            for dec, r, vs, log in S.paths:
                v = vs[k]
                if not scalar(v):
                    ok = False
                    break
                vals.append((resolve_term(dec), term_of(v), r))
            if not ok:
                raise Unsupported("variable %s changes type in the loop at %s" % (nm, where))
            if all(same(v, p) for _, v, r in vals):
                closed[nm] = const_fn(term_of(v0[k]))
            elif isinstance(p, Cond) or any(isinstance(v, Cond) for _, v, _ in vals):
                if all(not leftover(v, S) for _, v, _ in vals) and all(not leftover(d, S) for d, _, _ in vals):
                    closed[nm] = overwritten(term_of(v0[k]), vals, at)
                else:
                    continue
            else:
                cont = [(d, v) for d, v, r in vals if r[0] == "c"]
                deltas = [(d, resolve_term(T.add(v, p, -1))) for d, v in cont]
                if all(not leftover(x, S) for _, x in deltas) and (len({x for _, x in deltas}) <= 1 or all(not leftover(d, S) for d, _ in deltas)):
                    delta = merge(deltas)
                    closed[nm] = additive(num(v0[k]), delta, at)
                elif all(not leftover(resolve_term(v), S) for _, v in cont) and all(not leftover(d, S) for d, _ in cont):
                    closed[nm] = overwritten(num(v0[k]), [(d, resolve_term(v), None) for d, v in cont], at)
                else:
                    mm = min_or_max(nm, p, cont, S, resolve_term, n, num(v0[k]), at, cx)
                    if mm is None:
                        continue
                    final[nm] = mm
                    minmax.add(nm)
            pending.remove(nm)
            progress = True
    if pending:
        raise Unsupported("loop at %s: no summary of %s" % (where, ", ".join(pending)))

    exits = [(resolve_term(d), r) for d, r, vs, log in S.paths if r[0] != "c"]
    effects = array_effects(where, n, S, resolve_term, buf0, cx)

    def state_at(i):
        out = list(v0)
        for k, nm in enumerate(names):
            if nm in closed:
                out[k] = back(closed[nm](i))
            elif nm in final:
                out[k] = back(final[nm]) if same(i, n) else Poison(nm)
            elif any(vs[k] is not v0[k] for _, _, vs, _ in S.paths):
                out[k] = last_value(nm, k, S, i, resolve_term, at)
        return tuple(out)

    if exits:
        if minmax:
            raise Unsupported("exit and selection in one loop at %s" % where)
        e = T.disj(*[d for d, _ in exits])
        if leftover(e, S):
            raise Unsupported("exit condition of the loop at %s" % where)
        k = first_exit(lambda i: at(e, i), n, cx)
        if cx.decide(T.lt(k, n)):
            cx.assume(at(e, k))
            effects(k)
            set_(state_at(k))
            r = body(item(k))
            if r[0] == "c":
                raise Unsupported("exit of the loop at %s" % where)
            return r
        # no exit: every iteration continues
        effects(n)
        set_(state_at(n))
        return ("c", None)
    effects(n)
    set_(state_at(n))
    return ("c", None)


def last_value(nm, k, S, i, resolve_term, at):
    vals = [vs[k] for _, _, vs, _ in S.paths]
    if len(vals) >= 1 and all(scalar(v) for v in vals):
        try:
            t = None
            for dec, r, vs, log in reversed(S.paths):
                v = resolve_term(term_of(vs[k]))
                d = resolve_term(dec)
                t = v if t is None else arrays.eite(d, v, t)
            if not leftover(t, S):
                return back(at(t, T.add(i, C(-1))))
        except Unsupported:
            pass
    return Poison(nm)


def same(a, b):
    return type(a) is type(b) and a == b


def subst_any(t, m):
    m2 = {k: v for k, v in m.items() if not isinstance(v, Cond)}
    mc = {k: v for k, v in m.items() if isinstance(v, Cond)}
    if mc:
        def f(x):
            if isinstance(x, T.BApp) and not x.args and x.f in mc:
                return mc[x.f]
            return None
        t = T.rebuild(t, f, {})
    return T.subst(t, m2) if m2 else t


def back(t):
    return wrapb(t) if isinstance(t, Cond) else wrapn(t)


def const_fn(t):
    return lambda i: t


def merge(vals):
    out = None
    for d, v in reversed(vals):
        out = v if out is None else arrays.eite(d, v, out)
    return out


def additive(v0, delta, at):
    return lambda i: T.add(v0, sums.total(ZERO, i, lambda j: at(delta, j)))


def overwritten(v0, vals, at):
    m = merge([(d, v) for d, v, _ in vals])

    def f(i):
        c = simp(T.eq(i, ZERO))
        if c == TRUE:
            return v0
        last = at(m, T.add(i, C(-1)))
        if c == FALSE or simp(T.lt(ZERO, i)) == TRUE:
            return last
        return arrays.eite(c, v0, last)
    return f


def min_or_max(nm, p, cont, S, resolve_term, n, v0, at, cx):
    """final value of s where every path keeps s or takes the smaller (larger) of s and a candidate e under a guard"""
    es = []
    for d, v in cont:
        v = resolve_term(v)
        if v != p:
            if leftover(v, S):
                return None
            if v not in es:
                es.append(v)
    if len(es) != 1:
        return None
    e = es[0]
    name = list(p.vars)[0]

    def drop(c):
        """(guard without s)"""
        parts = c.cs if isinstance(c, T.And) else (c,)
        return T.conj(*[x for x in parts if name not in x.vars])
    G = T.disj(*[drop(d) for d, v in cont if v != p])
    if leftover(G, S):
        return None
    for sign in (1, -1):
        better = T.lt(e, p) if sign == 1 else T.lt(p, e)
        with sums.scope():
            b = T.A(S.bv)
            cx.assume(T.le(ZERO, b))
            cx.assume(T.lt(b, n))
            good = True
            for d, v in cont:
                want = T.ite(T.conj(G, better), e, p)
                with sums.scope():
                    try:
                        cx.assume(d)
                    except core.EndPath:
                        continue
                    if not cx.entails(T.eq(v, want)):
                        good = False
                        break
        if not good:
            continue
        if cx.bound:
            raise Unsupported("selection in a nested loop")
        r = T.fresh("sel", p.is_int and e.is_int and v0.is_int)
        w = T.fresh("selat", True)
        took = T.BApp("took%d" % next(T._ids))
        le = T.le if sign == 1 else (lambda x, y: T.le(y, x))
        cx.assume(T.implies(took, T.conj(T.le(ZERO, w), T.lt(w, n), at(G, w), T.eq(r, at(e, w)))))
        cx.assume(T.implies(T.neg(took), T.eq(r, v0)))
        cx.assume(le(r, v0))
        cx.seed(w, r)
        cx.forint(lambda i: T.implies(T.conj(T.le(ZERO, i), T.lt(i, n), at(G, i)), le(r, at(e, i))), "selection")
        cx.seed(T.add(w, C(-1)), T.add(r, C(-1)) if r.is_int else w)
        return r
    return None


def first_exit(E, n, cx):
    bound = list(cx.bound)
    name = "exit%d" % next(T._ids)
    if not bound:
        k = T.V(name, True)
        cx.assume(T.le(ZERO, k))
        cx.assume(T.le(k, n))
        cx.assume(T.implies(T.lt(k, n), E(k)))
        cx.forint(lambda i: T.implies(T.conj(T.le(ZERO, i), T.lt(i, k)), T.neg(E(i))), name)
        cx.seed(k, T.add(k, C(-1)))
        return k
    tmpl = T.V("x~", True)
    et = E(tmpl)
    names = [v.name for v in bound]
    args0 = [T.A(v) for v in bound]

    def inst(t, args, x=None):
        m = dict(zip(names, args))
        if x is not None:
            m["x~"] = x
        return T.subst(t, m)
    k = lambda args: T.app(name, *args, is_int=True)

    def f1(*args):
        return T.conj(T.le(ZERO, k(args)), T.le(k(args), inst(n, args)), T.implies(T.lt(k(args), inst(n, args)), inst(et, args, k(args))))

    def f2(args, x):
        return T.implies(T.conj(T.le(ZERO, x), T.lt(x, k(args))), T.neg(inst(et, args, x)))
    cx.fact_target().forall(name, f1, name)
    cx.fact_target().forall2(name, f2, name)
    return k(args0)


def array_effects(where, n, S, resolve_term, buf0, cx):
    """function of the number of completed iterations that applies the writes of the loop"""
    bv, b = S.bv, T.A(S.bv)
    per = {}
    for dec, r, vs, log in S.paths:
        for buf, old, (axes, shape, mask, value) in log:
            if buf.id > buf0:
                continue
            per.setdefault(buf, []).append((dec, axes, shape, mask, value, r))
    if not per:
        return lambda k: None
    plans = []
    for buf, ws in per.items():
        axis = sign = off = None
        for dec, axes, shape, mask, value, r in ws:
            hit = None
            for a, x in enumerate(axes):
                if x[0] == "i" and bv.name in x[1].vars:
                    kr = sums.linear_in(x[1], bv)
                    if kr and abs(kr[0]) == 1 and not leftover(kr[1], S):
                        hit = (a, kr[0], kr[1])
                        break
            if hit is None:
                raise Unsupported("loop at %s writes an array at an index that does not determine the iteration" % where)
            if axis is None:
                axis, sign, off = hit
            elif hit != (axis, sign, off):
                raise Unsupported("loop at %s writes an array at several indices" % where)
        # dependence: what an iteration reads was not written by an earlier one
        e = T.fresh("earlier", True)
        with sums.scope():
            cx.assume(T.le(ZERO, e))
            cx.assume(T.lt(e, b))
            cx.assume(T.lt(b, n))
            w = T.add(T.scale(e, sign), off)
            for rb, raxes, rshape in S.reads:
                if rb is not buf:
                    continue
                x = raxes[axis]
                if x[0] == "i":
                    g = T.neg(T.eq(x[1], w))
                else:
                    _, kk, s, st = x
                    m = rshape[kk]
                    last = T.add(s, T.scale(T.add(m, C(-1)), st))
                    lo, hi = (s, last) if st > 0 else (last, s)
                    g = T.disj(T.lt(w, lo), T.lt(hi, w), T.le(m, ZERO))
                # another axis may separate them
                if not cx.entails(g):
                    sep = False
                    for a, y in enumerate(raxes):
                        if a != axis and y[0] == "i":
                            if all(wa[1][a][0] == "i" and bv.name not in wa[1][a][1].vars and cx.entails(T.neg(T.eq(y[1], wa[1][a][1]))) for wa in ws):
                                sep = True
                    if not sep:
                        raise Unsupported("loop at %s: an iteration may read what an earlier one wrote" % where)
        plans.append((buf, axis, sign, off, ws))

    def apply(k):
        for buf, axis, sign, off, ws in plans:
            for dec, axes, shape, mask, value, r in ws:
                one_write(buf, axis, sign, off, dec, axes, shape, mask, value, k)

    def one_write(buf, axis, sign, off, dec, axes, shape, mask, value, k):
        # a write of the whole loop: view axis 0 is the iteration number, the others are the axes of the body's write
        new_axes, new_shape = [], [k]
        where_i = {}            # buffer axis -> view axis
        for a, x in enumerate(axes):
            if a == axis:
                new_axes.append(("d", 0, off, sign))
            elif x[0] == "i" and bv.name not in resolve_term(x[1]).vars:
                new_axes.append(("i", resolve_term(x[1])))
            elif x[0] == "d" and bv.name not in resolve_term(x[2]).vars and bv.name not in resolve_term(shape[x[1]]).vars:
                where_i[a] = len(new_shape)
                new_axes.append(("d", len(new_shape), resolve_term(x[2]), x[3]))
                new_shape.append(resolve_term(shape[x[1]]))
            else:
                where_i[a] = len(new_shape)
                new_axes.append(("d", len(new_shape), ZERO, 1))
                new_shape.append(buf.shape[a])
        dec = resolve_term(dec)

        def inner(vi):
            """(condition, view index of the body's write) at iteration vi[0]"""
            sub = {bv.name: vi[0]}
            cs, out = [subst_any(dec, sub)], [None] * len(shape)
            for a, x in enumerate(axes):
                if a == axis:
                    continue
                if x[0] == "i":
                    e = resolve_term(x[1])
                    if bv.name in e.vars:
                        cs.append(T.eq(vi[where_i[a]], T.subst(e, sub)))
                else:
                    _, kk, s0, st = x
                    s1, sh = resolve_term(s0), resolve_term(shape[kk])
                    if bv.name in s1.vars or bv.name in sh.vars:
                        j = T.scale(T.add(vi[where_i[a]], T.subst(s1, sub), -1), st)
                        cs += [T.le(ZERO, j), T.lt(j, T.subst(sh, sub))]
                        out[kk] = j
                    else:
                        out[kk] = vi[where_i[a]]
            return cs, out

        def mask2(*vi):
            cs, out = inner(vi)
            cs = [simp(c) for c in cs]
            if FALSE in cs:
                return FALSE
            m = mask(*out)
            if not isinstance(m, Const):
                m = subst_any(resolve_term(m), {bv.name: vi[0]})
            return T.conj(*(cs + [m]))

        def value2(*vi):
            cs, out = inner(vi)
            v = value(*out)
            if isinstance(v, X):
                raise Unsupported("infinite value written in a loop")
            return subst_any(resolve_term(v), {bv.name: vi[0]})
        arrays.Arr(buf, new_axes, new_shape).write(mask2, value2)
    return apply
