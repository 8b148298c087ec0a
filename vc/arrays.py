"""Arrays of symbolic shape, and stand-ins for the parts of numpy and of the builtins that the code uses.

An array is a view (start, step per axis) of a buffer; a buffer's content is a function from index terms to an element
(Num, Cond, or extended real X).  Elementwise operations capture the contents at the time of the call."""
import builtins, itertools, math
from fractions import Fraction
from . import terms as T
from .terms import Num, Cond, Const, C, ZERO, TRUE, FALSE, Unsupported
from . import core
from .core import ctx, N, B, X, num, cond, wrapn, wrapb, simp, need
from . import sums

MEMBER = [None]  # contract used for membership in an array, if set
LOG = []       # (buffer, previous content, region, value)


def log_mark():
    return len(LOG)


def log_since(m):
    return list(LOG[m:])


def log_undo(m):
    while len(LOG) > m:
        buf, old = LOG.pop()[:2]
        buf.fn = old


# ------------------------------------------------------------------ elements

def elem(v):
    if isinstance(v, (Num, Cond, X)):
        return v
    if isinstance(v, B):
        return v.c
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float) and v in (float("inf"), float("-inf")):
        return core.xlift(v)
    return num(v)


def as_num(e):
    if isinstance(e, Cond):
        return core.bool_num(e)
    if isinstance(e, X):
        raise Unsupported("infinite value as a number")
    return e


def as_cond(e):
    if isinstance(e, Cond):
        return e
    return T.neg(T.eq(as_num(e), ZERO))


def wrap(e, dtype="f"):
    """element -> value seen by the code"""
    if isinstance(e, Cond):
        return wrapb(e)
    if isinstance(e, X):
        return e
    return wrapn(e) if dtype == "i" else N(e)


def eite(c, a, b):
    if isinstance(c, Const):
        return a if c.v else b
    if isinstance(a, Cond) and isinstance(b, Cond):
        return T.disj(T.conj(c, a), T.conj(T.neg(c), b))
    if isinstance(a, X) or isinstance(b, X):
        a, b = xl(a), xl(b)
        return xc(X(T.ite(c, a.t, b.t), (c2(c, a.pinf, b.pinf), c2(c, a.ninf, b.ninf)), c2(c, a.nan, b.nan)))
    return T.ite(c, as_num(a), as_num(b))


def c2(c, a, b):
    return T.disj(T.conj(c, a), T.conj(T.neg(c), b))


def _xinit(self, t, inf=(FALSE, FALSE), nan=FALSE):
    self.t, self.nan = t, nan
    self.pinf, self.ninf = inf if isinstance(inf, tuple) else (inf, FALSE)


X.__init__ = _xinit


def xl(v):
    return v if isinstance(v, X) else X(as_num(v))


def xlift(v):
    if isinstance(v, X):
        return v
    if isinstance(v, float) and v in (float("inf"), float("-inf")):
        return X(ZERO, (TRUE, FALSE) if v > 0 else (FALSE, TRUE))
    return X(as_num(elem(v)))


core.xlift = xlift


def sdisj(*cs):
    return simp(T.disj(*cs))


def xc(x):
    return x.t if x.pinf == FALSE and x.ninf == FALSE and x.nan == FALSE else x


def xadd(a, b):
    a, b = xl(a), xl(b)
    nan = T.disj(a.nan, b.nan, T.conj(a.pinf, b.ninf), T.conj(a.ninf, b.pinf))
    return xc(X(T.add(a.t, b.t), (T.conj(T.neg(nan), T.disj(a.pinf, b.pinf)), T.conj(T.neg(nan), T.disj(a.ninf, b.ninf))), nan))


def xneg(a):
    a = xl(a)
    return xc(X(T.scale(a.t, -1), (a.ninf, a.pinf), a.nan))


def xfin(a):
    return T.neg(T.disj(a.pinf, a.ninf, a.nan))


def xpos(a):
    return T.disj(a.pinf, T.conj(xfin(a), T.lt(ZERO, a.t)))


def xngv(a):
    return T.disj(a.ninf, T.conj(xfin(a), T.lt(a.t, ZERO)))


def xzero(a):
    return T.conj(xfin(a), T.eq(a.t, ZERO))


def xmul(a, b):
    a, b = xl(a), xl(b)
    ai, bi = T.disj(a.pinf, a.ninf), T.disj(b.pinf, b.ninf)
    nan = T.disj(a.nan, b.nan, T.conj(ai, xzero(b)), T.conj(bi, xzero(a)))
    inf = T.conj(T.neg(nan), T.disj(ai, bi))
    same = T.disj(T.conj(xpos(a), xpos(b)), T.conj(xngv(a), xngv(b)))
    return xc(X(T.mul(a.t, b.t), (T.conj(inf, same), T.conj(inf, T.neg(same))), nan))


def xdiv(a, b):
    a, b = xl(a), xl(b)
    ai, bi = T.disj(a.pinf, a.ninf), T.disj(b.pinf, b.ninf)
    need("division by zero", T.disj(T.neg(xfin(b)), T.neg(T.eq(b.t, ZERO))))
    nan = T.disj(a.nan, b.nan, T.conj(ai, bi))
    inf = T.conj(T.neg(nan), ai)
    pos = T.disj(T.conj(a.pinf, xpos(b)), T.conj(a.ninf, xngv(b)))
    fin = T.ite(bi, ZERO, T.mul(a.t, T.inverse(b.t)))
    return xc(X(fin, (T.conj(inf, pos), T.conj(inf, T.neg(pos))), nan))


def xexp(a):
    a = xl(a)
    return xc(X(T.ite(a.ninf, ZERO, core.exp(a.t)), (a.pinf, FALSE), a.nan))


def e_add(a, b):
    if isinstance(a, X) or isinstance(b, X):
        return xadd(a, b)
    return T.add(as_num(a), as_num(b))


def e_sub(a, b):
    if isinstance(a, X) or isinstance(b, X):
        return xadd(a, xneg(b))
    return T.add(as_num(a), as_num(b), -1)


def e_mul(a, b):
    if isinstance(a, X) or isinstance(b, X):
        return xmul(a, b)
    return T.mul(as_num(a), as_num(b))


def e_div(a, b):
    if isinstance(a, X) or isinstance(b, X):
        return xdiv(a, b)
    return core.divide(as_num(a), as_num(b))


def e_floordiv(a, b):
    return core.floordiv(as_num(a), as_num(b))


def e_mod(a, b):
    a, b = as_num(a), as_num(b)
    return T.add(a, T.mul(b, core.floordiv(a, b)), -1)


def e_pow(a, b):
    return core.power(as_num(a), as_num(b))


def e_lt(a, b):
    return T.lt(as_num(a), as_num(b))


def e_le(a, b):
    return T.le(as_num(a), as_num(b))


def e_eq(a, b):
    if isinstance(a, Cond) and isinstance(b, Cond):
        return T.iff(a, b)
    return T.eq(as_num(a), as_num(b))


def e_ne(a, b):
    return T.neg(e_eq(a, b))


def e_and(a, b):
    return T.conj(as_cond(a), as_cond(b))


def e_or(a, b):
    return T.disj(as_cond(a), as_cond(b))


# X arithmetic as seen by the code (scalars)
def _xop(f):
    def op(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return wrap(f(xl(self), xlift(o)))
    return op


def _xrop(f):
    def op(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return wrap(f(xlift(o), xl(self)))
    return op


for _n, _f in (("add", xadd), ("mul", xmul), ("truediv", xdiv), ("sub", lambda a, b: xadd(a, xneg(b)))):
    setattr(X, "__%s__" % _n, _xop(_f))
    setattr(X, "__r%s__" % _n, _xrop(_f))
X.__neg__ = lambda self: wrap(xneg(self))


# ------------------------------------------------------------------ arrays

class Buf:
    _n = itertools.count()

    def __init__(self, shape, fn, dtype):
        self.shape, self.fn, self.dtype = tuple(shape), fn, dtype
        self.id = next(Buf._n)
        if core.CUR and core.CUR[-1].tracer is not None:
            core.CUR[-1].tracer.made(self)


def smax0(t):
    """max(t, 0) where decidable"""
    r = simp(T.le(ZERO, t))
    if r == TRUE:
        return t
    if r == FALSE:
        return ZERO
    if ctx().decide(r):
        return t
    return ZERO


def smin(a, b):
    r = simp(T.le(a, b))
    if isinstance(r, Const):
        return a if r.v else b
    return a if ctx().decide(r) else b


def smax(a, b):
    r = simp(T.le(b, a))
    if isinstance(r, Const):
        return a if r.v else b
    return a if ctx().decide(r) else b


class Arr:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, buf, axes=None, shape=None):
        self.buf = buf
        self.axes = axes if axes is not None else [("d", k, ZERO, 1) for k in range(len(buf.shape))]
        self._shape = tuple(shape) if shape is not None else buf.shape

    # ---- construction
    @staticmethod
    def make(shape, fn, dtype="f"):
        return Arr(Buf([num(s) for s in shape], fn, dtype))

    @property
    def dtype(self):
        return {"f": float, "i": int, "b": bool}[self.buf.dtype]

    @property
    def shape(self):
        return tuple(wrapn(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = C(1)
        for s in self._shape:
            r = T.mul(r, s)
        return wrapn(r)

    @property
    def T(self):
        n = len(self._shape)
        return Arr(self.buf, [(a[0], n - 1 - a[1], a[2], a[3]) if a[0] == "d" else a for a in self.axes], self._shape[::-1])

    def __len__(self):
        c = self._shape[0].const()
        if c is None:
            raise Unsupported("len() of an array of symbolic size in a library")
        return int(c)

    def base_index(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "i":
                out.append(a[1])
            else:
                _, k, s, st = a
                out.append(T.add(s, T.scale(idx[k], st)))
        return tuple(out)

    def snap(self):
        """the content now, as a function of the index"""
        fn = self.buf.fn
        if core.CUR and core.ctx().reads is not None:
            core.ctx().reads.append((self.buf, list(self.axes), list(self._shape)))
        return lambda *idx: fn(*self.base_index(idx))

    def at(self, *idx):
        return self.buf.fn(*self.base_index([num(i) for i in idx]))

    # ---- indexing
    def _index(self, key):
        """a new view, or None where a gather / mask is needed"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            fill = len(self._shape) - (len(key) - 1)
            key = key[:i] + (slice(None),) * fill + key[i + 1:]
        if any(k is None for k in key):
            raise Unsupported("new axis in an assignment")
        if len(key) > len(self._shape):
            need("too many indices", FALSE)
            raise core.EndPath()
        key = key + (slice(None),) * (len(self._shape) - len(key))
        trans = []      # per view axis: ("i", Num) or ("d", start, step, len)
        for n, k in zip(self._shape, key):
            if isinstance(k, slice):
                trans.append(("d",) + slice_of(k, n))
            elif isinstance(k, (Arr, SymRange, range, list)) or (hasattr(k, "shape") and getattr(k, "shape", None) != ()):
                return None
            else:
                i = num(k)
                if not i.is_int:
                    raise Unsupported("non-integer index")
                if core.ctx().wrap:
                    r = simp(T.le(ZERO, i))
                    if r == FALSE or (r != TRUE and not core.ctx().decide(r)):
                        i = T.add(i, n)
                need("index %s within %s" % (str(i)[:60], str(n)[:60]), T.conj(T.le(ZERO, i), T.lt(i, n)))
                trans.append(("i", i))
        axes, shape, pos = [], [], {}
        for k, t in enumerate(trans):
            if t[0] == "d":
                pos[k] = len(shape)
                shape.append(t[3])
        for a in self.axes:
            if a[0] == "i":
                axes.append(a)
            else:
                _, k, s, st = a
                t = trans[k]
                if t[0] == "i":
                    axes.append(("i", T.add(s, T.scale(t[1], st))))
                else:
                    axes.append(("d", pos[k], T.add(s, T.scale(t[1], st)), st * t[2]))
        return Arr(self.buf, axes, shape)

    def __getitem__(self, key):
        if key is None or isinstance(key, tuple) and any(k is None for k in key):
            return new_axes(self, key if isinstance(key, tuple) else (key,))
        v = self._index(key)
        if v is None:
            return gather(self, key)
        if not v._shape:
            rd = core.ctx().reads
            if rd is not None:
                rd.append((v.buf, list(v.axes), []))
            return wrap(v.at(), self.buf.dtype)
        return v

    def __setitem__(self, key, value):
        if isinstance(key, Arr) and key.buf.dtype == "b" and len(key._shape) == len(self._shape):
            m = key.snap()
            if isinstance(value, Arr):
                raise Unsupported("mask assignment of an array")
            e = elem(value)
            self.write(lambda *idx: m(*idx), lambda *idx: e)
            return
        v = self._index(key)
        if v is None:
            return scatter(self, key, value)
        v.assign(value)

    def assign(self, value):
        if isinstance(value, Arr) and value.buf is self.buf and value.axes == self.axes:
            return
        if isinstance(value, (list, tuple, SymList, SymRange, range)):
            value = NP.array(value)
        if isinstance(value, Arr):
            f = broadcast_to(value, self._shape)
        elif hasattr(value, "shape") and getattr(value, "shape", ()) != ():
            f = broadcast_to(from_numpy(value), self._shape)
        else:
            e = elem(value)
            f = lambda *idx: e
        self.write(lambda *idx: TRUE, f)

    def write(self, mask, value):
        """set the elements of this view where mask holds"""
        buf = self.buf
        old = buf.fn
        axes, shape = self.axes, self._shape
        dt = buf.dtype

        def conv(e):
            if dt == "b":
                return as_cond(e)
            if isinstance(e, X):
                return e
            e = as_num(e)
            if dt == "i" and not e.is_int:
                raise Unsupported("float stored in an integer array")
            return e

        def region(*bidx):
            """(condition, view index)"""
            cs = []
            vi = [None] * len(shape)
            for a, i in zip(axes, bidx):
                if a[0] == "i":
                    cs.append(T.eq(i, a[1]))
                else:
                    _, k, s, st = a
                    if st == 1:
                        j = T.add(i, s, -1)
                    elif st == -1:
                        j = T.add(s, i, -1)
                    else:
                        raise Unsupported("strided write")
                    vi[k] = j
                    if not (s.const() == 0 and st == 1 and shape[k] == buf.shape[axes.index(a)]):
                        cs += [T.le(ZERO, j), T.lt(j, shape[k])]
            return cs, vi

        def fn(*bidx):
            cs, vi = region(*bidx)
            out = []
            for c in cs:
                c = simp(c)
                if c == FALSE:
                    return old(*bidx)
                if c != TRUE:
                    out.append(c)
            m = mask(*vi)
            m = simp(m) if not isinstance(m, Const) else m
            if m == FALSE:
                return old(*bidx)
            if m != TRUE:
                out.append(m)
            c = T.conj(*out)
            if c == TRUE:
                return conv(value(*vi))
            if c == FALSE:
                return old(*bidx)
            return eite(c, conv(value(*vi)), old(*bidx))
        LOG.append((buf, old, (axes, shape, mask, value)))
        buf.fn = fn

    def __iter__(self):
        n = self._shape[0].const()
        if n is None:
            raise Unsupported("iteration over an array of symbolic size")
        return iter([self[i] for i in range(int(n))])

    # ---- elementwise
    def _map(self, f, dtype=None):
        s = self.snap()
        return Arr.make(self._shape, lambda *i: f(s(*i)), dtype or self.buf.dtype)

    def _bin(self, o, f, dtype=None, swap=False):
        if isinstance(o, (list, tuple)) or (hasattr(o, "shape") and not isinstance(o, Arr) and o.shape != ()):
            o = NP.array(o)
        if isinstance(o, Arr):
            shape, fa, fb = broadcast(self, o)
            dt = dtype or join(self.buf.dtype, o.buf.dtype)
            if swap:
                fa, fb = fb, fa
            return Arr.make(shape, lambda *i: f(fa(*i), fb(*i)), dt)
        if o is None:
            raise Unsupported("array and None")
        e = elem(o)
        s = self.snap()
        dt = dtype or join(self.buf.dtype, "b" if isinstance(e, Cond) else "i" if isinstance(e, Num) and e.is_int and not isinstance(o, float) else "f")
        g = (lambda *i: f(e, s(*i))) if swap else (lambda *i: f(s(*i), e))
        return Arr.make(self._shape, g, dt)

    def __add__(self, o):
        return self._bin(o, e_add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, e_sub)

    def __rsub__(self, o):
        return self._bin(o, e_sub, swap=True)

    def __mul__(self, o):
        return self._bin(o, e_mul)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, e_div, "f")

    def __rtruediv__(self, o):
        return self._bin(o, e_div, "f", swap=True)

    def __floordiv__(self, o):
        return self._bin(o, e_floordiv)

    def __mod__(self, o):
        return self._bin(o, e_mod)

    def __pow__(self, o):
        return self._bin(o, e_pow)

    def __neg__(self):
        return self._map(lambda e: xneg(e) if isinstance(e, X) else T.scale(as_num(e), -1))

    def __abs__(self):
        return self._map(lambda e: T.ite(simp(T.lt(e, ZERO)), T.scale(e, -1), e))

    def __invert__(self):
        return self._map(lambda e: T.neg(as_cond(e)), "b")

    def __and__(self, o):
        return self._bin(o, e_and, "b")
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, e_or, "b")
    __ror__ = __or__

    def __lt__(self, o):
        return self._bin(o, e_lt, "b")

    def __le__(self, o):
        return self._bin(o, e_le, "b")

    def __gt__(self, o):
        return self._bin(o, e_lt, "b", swap=True)

    def __ge__(self, o):
        return self._bin(o, e_le, "b", swap=True)

    def __eq__(self, o):
        return self._bin(o, e_eq, "b")

    def __ne__(self, o):
        return self._bin(o, e_ne, "b")

    def __hash__(self):
        return id(self)

    def __iadd__(self, o):
        return self._inplace(o, e_add)

    def __isub__(self, o):
        return self._inplace(o, e_sub)

    def __imul__(self, o):
        return self._inplace(o, e_mul)

    def __itruediv__(self, o):
        return self._inplace(o, e_div)

    def _inplace(self, o, f):
        if isinstance(o, (list, tuple)) or (hasattr(o, "shape") and not isinstance(o, Arr) and o.shape != ()):
            o = NP.array(o)
        s = self.snap()
        if isinstance(o, Arr):
            g = broadcast_to(o, self._shape)
        else:
            e = elem(o)
            g = lambda *i: e
        if getattr(self, "origin", None):
            # a gathered copy: the operation must not write to the source
            buf = Arr.make(self._shape, lambda *i: f(s(*i), g(*i)), self.buf.dtype)
            return buf
        self.write(lambda *i: TRUE, lambda *i: f(s(*i), g(*i)))
        return self

    def __bool__(self):
        raise Unsupported("truth value of an array")

    def __contains__(self, v):
        # v in arr (one axis): exists i: arr[i] == v
        if len(self._shape) != 1:
            raise Unsupported("membership in a 2D array")
        s = self.snap()
        e = num(v)
        if MEMBER[0]:
            return MEMBER[0](self, e)
        return bool(wrapb(exists(lambda i: T.eq(as_num(s(i)), e), self._shape[0], "in")))

    # ---- methods
    def fill(self, v):
        self.assign(v)

    def copy(self):
        return NP.array(self)

    def astype(self, t, copy=True):
        t = dtype_of(t)
        if not copy and t == self.buf.dtype:
            return self
        s = self.snap()
        if t == "f":
            return Arr.make(self._shape, lambda *i: s(*i) if isinstance(s(*i), X) else as_num(s(*i)), "f")
        if t == "b":
            return Arr.make(self._shape, lambda *i: as_cond(s(*i)), "b")
        if self.buf.dtype in ("i", "b"):
            return Arr.make(self._shape, lambda *i: as_num(s(*i)), "i")
        return Arr.make(self._shape, lambda *i: trunc(as_num(s(*i))), "i")

    def flatten(self):
        return NP.flatten(self)
    ravel = flatten

    def sum(self, axis=None):
        return NP.sum(self, axis)

    def cumsum(self, axis=None):
        return NP.cumsum(self, axis)

    def min(self):
        return BI["min"](self)

    def max(self):
        return BI["max"](self)

    def tolist(self):
        return list(self)

    def __deepcopy__(self, memo):
        return NP.array(self)

    def __copy__(self):
        return NP.array(self)

    def __repr__(self):
        return "Arr%s" % (tuple(str(s) for s in self._shape),)


def trunc(e):
    r = simp(T.le(ZERO, e))
    if r == TRUE:
        return T.floor(e)
    up = T.scale(T.floor(T.scale(e, -1)), -1)
    return T.ite(r, T.floor(e), up)


def join(a, b):
    return "f" if "f" in (a, b) else "i" if "i" in (a, b) else "i" if a == b == "i" else "b"


def slice_of(k, n):
    """(start, step, length) of a Python slice of a sequence of length n"""
    step = 1 if k.step is None else k.step
    if isinstance(step, N):
        raise Unsupported("symbolic slice step")
    if step == -1 and k.start is None and k.stop is None:
        return T.add(n, C(-1)), -1, n
    if step != 1:
        raise Unsupported("slice step")

    def norm(x, default):
        if x is None:
            return default
        x = num(x)
        r = simp(T.le(ZERO, x))
        if r == FALSE or (r != TRUE and not ctx().decide(r)):
            x = T.add(x, n)
            return smax0(x)
        return smin(x, n)
    a = norm(k.start, ZERO)
    b = norm(k.stop, n)
    return a, 1, smax0(T.add(b, a, -1))


def new_axes(a, key):
    """indexing with np.newaxis, as a copy"""
    if any(k is not None and not isinstance(k, slice) for k in key):
        raise Unsupported("new axis with other indices")
    if sum(k is not None for k in key) > len(a._shape):
        need("too many indices", FALSE)
        raise core.EndPath()
    b = a[tuple(k for k in key if k is not None)] if any(k is not None for k in key) else a
    at = [k is None for k in key] + [False] * (len(b._shape) - sum(k is not None for k in key))
    s, old = b.snap(), iter(b._shape)
    shape = [C(1) if x else next(old) for x in at]
    return Arr.make(shape, lambda *idx: s(*[i for i, x in zip(idx, at) if not x]), b.buf.dtype)


def broadcast_shapes(s1, s2):
    n = max(len(s1), len(s2))
    a = (C(1),) * (n - len(s1)) + tuple(s1)
    b = (C(1),) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
        elif x.const() == 1:
            out.append(y)
        elif y.const() == 1:
            out.append(x)
        else:
            # numpy also allows one of them to be 1 at run time
            if not core.ctx().pure and not ctx().entails(T.eq(x, y)):
                if ctx().decide(T.eq(y, C(1))):
                    out.append(x)
                    continue
                if ctx().decide(T.eq(x, C(1))):
                    out.append(y)
                    continue
                need("shapes match: %s, %s" % (x, y), T.eq(x, y))
            out.append(x)
    return out


def one(n):
    """the axis has length 1"""
    if n.const() is not None:
        return n.const() == 1
    return n in () or T.eq(n, C(1)) in ctx().conds


def expand(arr, shape):
    f = arr.snap()
    k = len(shape) - len(arr._shape)
    flags = [one(m) and not n == m for n, m in zip(shape[k:], arr._shape)]

    def g(*idx):
        return f(*[ZERO if fl else i for fl, i in zip(flags, idx[k:])])
    return g


def broadcast(a, b):
    shape = broadcast_shapes(a._shape, b._shape)
    return shape, expand(a, shape), expand(b, shape)


def broadcast_to(a, shape):
    s = a._shape
    while len(s) > len(shape) and s[0].const() == 1:
        a = Arr(a.buf, *drop_axis0(a))
        s = a._shape
    if len(s) > len(shape):
        raise Unsupported("assignment of more dimensions")
    k = len(shape) - len(s)
    for n, m in zip(shape[k:], s):
        if n == m or m.const() == 1:
            continue
        if ctx().resolve(T.eq(n, m)) is True:
            continue
        if ctx().entails(T.eq(n, m)):
            continue
        if not ctx().decide(T.eq(m, C(1))):
            need("shapes match: %s, %s" % (n, m), T.eq(n, m))
    return expand(a, list(shape))


def drop_axis0(a):
    axes = []
    for x in a.axes:
        if x[0] == "d" and x[1] == 0:
            axes.append(("i", x[2]))
        elif x[0] == "d":
            axes.append(("d", x[1] - 1, x[2], x[3]))
        else:
            axes.append(x)
    return axes, a._shape[1:]


def index_fn(k):
    """(function of position, length) for a fancy index"""
    if isinstance(k, (SymRange, range)):
        r = k if isinstance(k, SymRange) else SymRange(k.start, k.stop, k.step)
        return (lambda i: T.add(r.a, T.scale(i, r.step))), r.length()
    if isinstance(k, (list, tuple)) or not isinstance(k, Arr):
        k = NP.array(k)
    if k.buf.dtype != "i" or len(k._shape) != 1:
        raise Unsupported("fancy index")
    s = k.snap()
    return (lambda i: s(i)), k._shape[0]


def fancy_axis(arr, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = key + (slice(None),) * (len(arr._shape) - len(key))
    fancy = [k for k, x in enumerate(key) if isinstance(x, (Arr, SymRange, range, list)) or (hasattr(x, "shape") and x.shape != ())]
    if len(fancy) != 1:
        raise Unsupported("more than one fancy index")
    ax = fancy[0]
    f, n = index_fn(key[ax])
    rest = key[:ax] + (slice(None),) + key[ax + 1:]
    if any(not isinstance(r, slice) for r in rest):
        raise Unsupported("fancy index mixed with integers")
    return ax, f, n, rest


def gather(arr, key):
    if isinstance(key, Arr) and key.buf.dtype == "b":
        raise Unsupported("selection by a mask")
    ax, f, n, rest = fancy_axis(arr, key)
    v = arr._index(rest)
    size = v._shape[ax]
    with sums.scope() as cx:
        i = sums.arbitrary(ZERO, n, "g")
        need("fancy index within range", T.conj(T.le(ZERO, f(i)), T.lt(f(i), size)))
    s = v.snap()
    shape = list(v._shape)
    shape[ax] = n
    r = Arr.make(shape, lambda *idx: s(*[f(i) if k == ax else i for k, i in enumerate(idx)]), arr.buf.dtype)
    r.origin = True
    return r


def scatter(arr, key, value):
    ax, f, n, rest = fancy_axis(arr, key)
    v = arr._index(rest)
    size = v._shape[ax]
    with sums.scope():
        i = sums.arbitrary(ZERO, n, "g")
        need("fancy index within range", T.conj(T.le(ZERO, f(i)), T.lt(f(i), size)))
    # distinct targets: strictly increasing or decreasing; of repeated ones the last value stays
    def monotone(up):
        with sums.scope() as cx:
            i = T.fresh("g", True)
            cx.assume(T.le(ZERO, i))
            cx.assume(T.lt(T.add(i, C(1)), n))
            cx.seed(i, T.add(i, C(1)))
            return cx.entails(T.lt(f(i), f(T.add(i, C(1)))) if up else T.lt(f(T.add(i, C(1))), f(i)))
    distinct = monotone(True) or monotone(False)
    tmpl = f(T.V("scat~", True))
    for g, k, h, v2 in ctx().scatters:
        if k == n and g(T.V("scat~", True)) == tmpl:
            hit, inv = h, v2
            break
    else:
        hit, inv = inverse(f, n, distinct)
    shape = list(v._shape)
    shape[ax] = n
    if isinstance(value, Arr):
        g = broadcast_to(value, shape)
    else:
        e = elem(value)
        g = lambda *i: e
    v.write(lambda *idx: hit(idx[ax]), lambda *idx: g(*[inv(i) if k == ax else i for k, i in enumerate(idx)]))


def inverse(f, n, distinct):
    """(whether f has a value, the last index with this value)"""
    name = "inv%d" % next(T._ids)
    inv = lambda r: T.app(name, r, is_int=True)
    hit = lambda r: T.BApp(name + "?", (r,))
    # for every target row: either it is f(inv) with inv in range, or no i maps to it
    def nested(x):
        return any(k == 1 and isinstance(a, T.App) and a.f == name for a, k in T.atoms(x).items())

    def fact(r):
        if nested(r):
            return TRUE
        return T.conj(T.implies(hit(r), T.conj(T.le(ZERO, inv(r)), T.lt(inv(r), n), T.eq(f(inv(r)), r))))
    ctx().forall(name + "?", fact, "inverse")

    def fact2(i):
        if nested(i) or any(k == 1 and isinstance(a, T.Ite) for a, k in T.atoms(i).items()):
            return TRUE
        j = inv(f(i))
        return T.implies(T.conj(T.le(ZERO, i), T.lt(i, n)), T.conj(hit(f(i)), T.eq(j, i) if distinct else T.le(i, j)))
    ctx().forint(fact2, "inverse of image")
    ctx().scatters.append((f, n, hit, inv))
    return hit, inv


def exists(c, n, name):
    """a condition equivalent to: some 0 <= i < n has c(i)"""
    k = "%s%d" % (name, next(T._ids))
    e = T.BApp(k)
    w = T.V(k + "w", True)
    ctx().seed(w)
    ctx().assume(T.implies(e, T.conj(T.le(ZERO, w), T.lt(w, n), c(w))))
    ctx().forint(lambda i: T.implies(T.conj(T.neg(e), T.le(ZERO, i), T.lt(i, n)), T.neg(c(i))), k)
    return e


def from_numpy(a):
    import numpy as np
    a = np.asarray(a)
    dt = "b" if a.dtype == bool else "i" if a.dtype.kind in "iu" else "f"
    vals = a

    def fn(*idx):
        cs = [i.const() for i in idx]
        if all(c is not None for c in cs):
            return elem(vals[tuple(int(c) for c in cs)].item())
        # case split over the concrete entries
        out = None
        for pos in np.ndindex(*vals.shape):
            e = elem(vals[pos].item())
            out = e if out is None else eite(T.conj(*[simp(T.eq(i, C(p))) for i, p in zip(idx, pos)]), e, out)
        return out
    return Arr.make(a.shape, fn, dt)


# ------------------------------------------------------------------ symbolic sequences

class SymRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = num(a), num(b), step
        if step not in (1, -1):
            raise Unsupported("range step")

    def length(self):
        d = T.scale(T.add(self.b, self.a, -1), self.step)
        return smax0(d)

    def at(self, i):
        return T.add(self.a, T.scale(i, self.step))

    def __getitem__(self, k):
        if isinstance(k, slice):
            s, st, n = slice_of(k, self.length())
            if st != 1:
                raise Unsupported("slice of a range")
            a = self.at(s)
            return SymRange(a, T.add(a, T.scale(n, self.step)), self.step)
        i = num(k)
        n = self.length()
        r = simp(T.le(ZERO, i))
        if r == FALSE or (r != TRUE and not ctx().decide(r)):
            i = T.add(i, n)
        need("index %s of a range" % i, T.conj(T.le(ZERO, i), T.lt(i, n)))
        return wrapn(self.at(i))

    @property
    def start(self):
        return wrapn(self.a)

    @property
    def stop(self):
        return wrapn(self.b)

    def __iter__(self):
        n = self.length().const()
        if n is None:
            raise Unsupported("iteration over a symbolic range")
        return iter([wrapn(self.at(C(i))) for i in range(int(n))])

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "range(%s, %s, %s)" % (self.a, self.b, self.step)


class SymList:
    """a list of symbolic length: item(i) for a term i"""

    def __init__(self, n, item, dtype="f"):
        self.n, self.item_fn, self.dtype = num(n), item, dtype

    def length(self):
        return self.n

    def at(self, i):
        return self.item_fn(i)

    def __getitem__(self, k):
        if isinstance(k, slice):
            s, st, n = slice_of(k, self.n)
            return SymList(n, lambda i: self.item_fn(T.add(s, i)))
        i = num(k)
        r = simp(T.le(ZERO, i))
        if r == FALSE or (r != TRUE and not ctx().decide(r)):
            i = T.add(i, self.n)
        need("list index", T.conj(T.le(ZERO, i), T.lt(i, self.n)))
        return self.item_fn(i)

    def __iter__(self):
        n = self.n.const()
        if n is None:
            raise Unsupported("iteration over a symbolic list")
        return iter([self.item_fn(C(i)) for i in range(int(n))])

    def __add__(self, o):
        if isinstance(o, (list, SymList)):
            return concat_lists(self, o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, SymList)):
            return concat_lists(o, self)
        return NotImplemented

    def __mul__(self, k):
        raise Unsupported("list repetition")

    def __eq__(self, o):
        raise Unsupported("list comparison")

    def extend(self, o):
        r = concat_lists(SymList(self.n, self.item_fn, self.dtype), o)
        self.n, self.item_fn = r.n, r.item_fn

    def append(self, o):
        self.extend([o])

    def __deepcopy__(self, memo):
        if getattr(self, "copier", None):
            return self.copier()
        return SymList(self.n, self.item_fn, self.dtype)


def seq(x):
    """(length term, item function of a term) for list-like values"""
    if isinstance(x, (SymList, SymRange)):
        return x.length(), (lambda i: x.at(i) if isinstance(x, SymList) else wrapn(x.at(i)))
    if isinstance(x, Arr):
        if len(x._shape) == 1:
            return x._shape[0], (lambda i: wrap(x.at(i), x.buf.dtype))
        return x._shape[0], (lambda i: x[wrapn(i)])
    if isinstance(x, (list, tuple, range)):
        xs = list(x)

        def item(i):
            c = i.const()
            if c is not None:
                return xs[int(c)]
            out = elem(xs[-1])
            for k in range(len(xs) - 2, -1, -1):
                out = eite(simp(T.eq(i, C(k))), elem(xs[k]), out)
            return wrap(out)
        return C(len(xs)), item
    raise Unsupported("sequence of type %s" % type(x).__name__)


def concat_lists(a, b):
    (n, f), (m, g) = seq(a), seq(b)

    def item(i):
        c = simp(T.lt(i, n))
        if c == TRUE:
            return f(i)
        if c == FALSE:
            return g(T.add(i, n, -1))
        return wrap(eite(c, elem(f(i)), elem(g(T.add(i, n, -1)))))
    return SymList(T.add(n, m), item)


def is_sym_iter(x):
    if isinstance(x, SymRange):
        return x.length().const() is None
    if isinstance(x, SymList):
        return x.n.const() is None
    if isinstance(x, Arr):
        return x._shape[0].const() is None
    return isinstance(x, SymIter)


class SymIter:
    """a lazily evaluated iterable: n items"""

    def __init__(self, n, item):
        self.n, self.item = n, item

    def __iter__(self):
        n = self.n.const()
        if n is None:
            raise Unsupported("iteration over a symbolic iterable")
        return iter([self.item(C(i)) for i in range(int(n))])


def iter_parts(x):
    if isinstance(x, SymIter):
        return x.n, x.item
    return seq(x)


# ------------------------------------------------------------------ numpy

def dtype_of(t):
    import numpy as np
    if t in (float, "float", "float64", np.float64, "f") or t is N:
        return "f"
    if t in (int, "int", np.int64, np.int32, "i") or t is BI_INT:
        return "i"
    if t in (bool, np.bool_, "b", "bool", np.uint8):
        return "b"
    if t is None:
        return "f"
    if hasattr(t, "_real"):
        return dtype_of(t._real)
    raise Unsupported("dtype %r" % (t,))


class _NP:
    """numpy as seen by the code under verification"""
    ndarray_cls = Arr

    def __init__(self):
        import numpy as np
        self._np = np
        for n in ("float64", "int64", "bool_", "uint8", "inf", "nan", "pi", "newaxis", "float32", "int32"):
            setattr(self, n, getattr(np, n))

    def __getattr__(self, n):
        raise Unsupported("numpy.%s" % n)

    @staticmethod
    def _shape(s):
        if isinstance(s, (tuple, list)):
            return [num(x) for x in s]
        return [num(s)]

    def zeros(self, shape, dtype=float):
        d = dtype_of(dtype)
        sh = self._shape(shape)
        for s in sh:
            need("array size non-negative", T.le(ZERO, s))
        return Arr.make(sh, lambda *i: FALSE if d == "b" else ZERO, d)

    def ones(self, shape, dtype=float):
        d = dtype_of(dtype)
        return Arr.make(self._shape(shape), lambda *i: TRUE if d == "b" else C(1), d)

    def full(self, shape, v, dtype=None):
        e = elem(v)
        d = dtype_of(dtype) if dtype is not None else "b" if isinstance(e, Cond) else "i" if isinstance(v, int) else "f"
        return Arr.make(self._shape(shape), lambda *i: e, d)

    def zeros_like(self, a, dtype=None):
        return self.zeros(list(a._shape), dtype if dtype is not None else a.dtype)

    def ones_like(self, a, dtype=None):
        return self.ones(list(a._shape), dtype if dtype is not None else a.dtype)

    def empty(self, shape, dtype=float):
        # uninitialised contents: arbitrary
        d = dtype_of(dtype)
        k = next(T._ids)
        return Arr.make(self._shape(shape), lambda *i: T.BApp("uninit%d" % k, i) if d == "b" else T.app("uninit%d" % k, *i, is_int=d == "i"), d)

    def ndarray(self, shape, dtype=float):
        for s in self._shape(shape):
            need("array size non-negative", T.le(ZERO, s))
        return self.empty(shape, dtype)

    def array(self, x, dtype=None, copy=True):
        if isinstance(x, SymRange) or isinstance(x, range):
            x = SymList(*seq(x))
        if isinstance(x, Arr):
            if not copy and (dtype is None or dtype_of(dtype) == x.buf.dtype):
                return x
            s = x.snap()
            r = Arr.make(x._shape, s, x.buf.dtype)
            return r if dtype is None else r.astype(dtype)
        if isinstance(x, SymList):
            probe = None
            f = x.item_fn
            d = dtype_of(dtype) if dtype is not None else x.dtype
            if dtype is None:
                with sums.scope():
                    e = elem(f(sums.arbitrary(ZERO, x.n, "a"))) if x.n.const() != 0 else ZERO
                d = "b" if isinstance(e, Cond) else "i" if isinstance(e, Num) and e.is_int else "f"
            if d == "b":
                return Arr.make([x.n], lambda i: as_cond(elem(f(i))), "b")
            if d == "i":
                return Arr.make([x.n], lambda i: as_num(elem(f(i))), "i")
            return Arr.make([x.n], lambda i: elem(f(i)) if not isinstance(elem(f(i)), Cond) else as_num(elem(f(i))), "f")
        if isinstance(x, (list, tuple)):
            if x and isinstance(x[0], (list, tuple, Arr)):
                rows = [self.array(r) for r in x]
                sh = rows[0]._shape

                def fn(*idx):
                    out = rows[-1].at(*idx[1:])
                    for k in range(len(rows) - 2, -1, -1):
                        out = eite(simp(T.eq(idx[0], C(k))), rows[k].at(*idx[1:]), out)
                    return out
                d = rows[0].buf.dtype
                for r in rows[1:]:
                    d = join(d, r.buf.dtype)
                r = Arr.make([C(len(rows))] + list(sh), fn, d)
                return r if dtype is None else r.astype(dtype)
            n, f = seq(list(x))
            es = [elem(v) for v in x]
            d = "f"
            if es and all(isinstance(e, Cond) for e in es):
                d = "b"
            elif es and all(isinstance(e, Num) and e.is_int and not isinstance(v, float) for e, v in zip(es, x)):
                d = "i"

            def fn1(i):
                c = i.const()
                if c is not None and 0 <= c < len(es):
                    return es[int(c)]
                out = es[-1] if es else ZERO
                for k in range(len(es) - 2, -1, -1):
                    out = eite(simp(T.eq(i, C(k))), es[k], out)
                return out
            r = Arr.make([C(len(es))], fn1, d)
            return r if dtype is None else r.astype(dtype)
        if isinstance(x, (int, float, N, B)):
            e = elem(x)
            r = Arr.make([], lambda: e, "f" if not (isinstance(e, Num) and e.is_int) else "i")
            return r
        if hasattr(x, "shape"):
            r = from_numpy(x)
            return r if dtype is None else r.astype(dtype)
        raise Unsupported("np.array of %s" % type(x).__name__)

    def asarray(self, x, dtype=None):
        if isinstance(x, Arr) and dtype is None:
            return x
        return self.array(x, dtype, copy=False)

    def ascontiguousarray(self, x, dtype=None):
        # the argument itself if it is contiguous
        return self.array(x, dtype, copy=False)

    def copy(self, x):
        return self.array(x)

    def arange(self, *args, dtype=None):
        if len(args) == 1:
            a, b = ZERO, num(args[0])
        elif len(args) == 2:
            a, b = num(args[0]), num(args[1])
        else:
            if args[2] != 1:
                raise Unsupported("arange step")
            a, b = num(args[0]), num(args[1])
        if not (a.is_int and b.is_int):
            raise Unsupported("arange of floats")
        d = dtype_of(dtype) if dtype is not None else "i"
        return Arr.make([smax0(T.add(b, a, -1))], lambda i: T.add(a, i), d)

    def identity(self, n, dtype=float):
        n = num(n)
        return Arr.make([n, n], lambda i, j: T.ite(simp(T.eq(i, j)), C(1), ZERO), dtype_of(dtype))

    def eye(self, n, dtype=float):
        return self.identity(n, dtype)

    def flipud(self, a):
        return a[::-1]

    def flip(self, a, axis=None):
        if axis == 0 or (axis is None and a.ndim == 1):
            return a[::-1]
        raise Unsupported("flip")

    def concatenate(self, parts, axis=0):
        parts = [p if isinstance(p, Arr) else self.array(p) for p in parts]
        if axis != 0:
            raise Unsupported("concatenate axis")
        d = parts[0].buf.dtype
        for p in parts[1:]:
            d = join(d, p.buf.dtype)
        offs, o = [], ZERO
        for p in parts:
            offs.append(o)
            o = T.add(o, p._shape[0])
        for p in parts[1:]:
            for a, b in zip(p._shape[1:], parts[0]._shape[1:]):
                if a != b:
                    need("shapes match", T.eq(a, b))
        fs = [p.snap() for p in parts]

        def fn(*idx):
            out = None
            for k in range(len(parts) - 1, -1, -1):
                local = (T.add(idx[0], offs[k], -1),) + idx[1:]
                if out is None:
                    c = simp(T.le(offs[k], idx[0])) if k else TRUE
                    if c == FALSE:
                        continue
                    out = fs[k](*local)
                else:
                    c = simp(T.lt(idx[0], offs[k + 1]))
                    if c == FALSE:
                        continue
                    if c == TRUE:
                        out = fs[k](*local)
                    else:
                        out = eite(c, fs[k](*local), out)
            return out
        return Arr.make([o] + list(parts[0]._shape[1:]), fn, d)

    def vstack(self, parts):
        return self.concatenate(parts)

    def append(self, a, b):
        return self.concatenate((a, b))

    def roll(self, a, shift, axis=None):
        if axis not in (0,) and not (axis is None and a.ndim == 1):
            raise Unsupported("roll axis")
        n = a._shape[0]
        k = num(shift)
        # result[i] = a[(i - k) mod n], for |k| <= n
        s = a.snap()
        r = simp(T.le(ZERO, k))
        if r == FALSE or (r != TRUE and not ctx().decide(r)):
            m = T.scale(k, -1)
            need("roll by at most the length", T.le(m, n))

            def fn(i, *rest):
                src = T.add(i, m)
                c = simp(T.lt(src, n))
                if c == TRUE:
                    return s(src, *rest)
                if c == FALSE:
                    return s(T.add(src, n, -1), *rest)
                return eite(c, s(src, *rest), s(T.add(src, n, -1), *rest))
        else:
            need("roll by at most the length", T.le(k, n))

            def fn(i, *rest):
                c = simp(T.le(k, i))
                if c == TRUE:
                    return s(T.add(i, k, -1), *rest)
                if c == FALSE:
                    return s(T.add(T.add(i, k, -1), n), *rest)
                return eite(c, s(T.add(i, k, -1), *rest), s(T.add(T.add(i, k, -1), n), *rest))
        return Arr.make(a._shape, fn, a.buf.dtype)

    def flatten(self, a):
        if a.ndim == 1:
            return self.array(a)
        lead = list(a._shape)
        while len(lead) > 1 and lead[0].const() == 1:
            lead.pop(0)
        if len(lead) == 1:
            s = a.snap()
            k = a.ndim - 1
            return Arr.make(lead, lambda i: s(*([ZERO] * k + [i])), a.buf.dtype)
        raise Unsupported("flatten")

    def sum(self, a, axis=None):
        if isinstance(a, (list, tuple, SymList)):
            a = self.array(a)
        s = a.snap()
        dt = "i" if a.buf.dtype in ("i", "b") else "f"
        if a.ndim == 1 and axis in (None, 0, -1):
            return wrap(sums.total(ZERO, a._shape[0], lambda i: as_num(s(i))), dt)
        if a.ndim == 2 and axis is None:
            return wrap(sums.total(ZERO, a._shape[0], lambda i: sums.total(ZERO, a._shape[1], lambda j: as_num(s(i, j)))), dt)
        if a.ndim == 2 and axis in (1, -1):
            n = a._shape[1]
            return Arr.make([a._shape[0]], once(lambda i: sums.total(ZERO, n, lambda j: as_num(s(i, j))), a._shape[0]), dt)
        if a.ndim == 2 and axis == 0:
            n = a._shape[0]
            return Arr.make([a._shape[1]], once(lambda j: sums.total(ZERO, n, lambda i: as_num(s(i, j))), a._shape[1]), dt)
        raise Unsupported("sum axis")

    def cumsum(self, a, axis=None):
        if isinstance(a, (list, tuple, SymList)):
            a = self.array(a)
        s = a.snap()
        dt = "i" if a.buf.dtype in ("i", "b") else "f"
        if a.ndim == 1:
            return Arr.make(a._shape, lambda i: sums.total(ZERO, T.add(i, C(1)), lambda k: as_num(s(k))), dt)
        if a.ndim == 2 and axis == 0:
            return Arr.make(a._shape, lambda i, j: sums.total(ZERO, T.add(i, C(1)), lambda k: as_num(s(k, j))), dt)
        raise Unsupported("cumsum axis")

    def diff(self, a):
        if isinstance(a, (list, tuple, SymList)):
            a = self.array(a)
        s = a.snap()
        return Arr.make([smax0(T.add(a._shape[0], C(-1)))], lambda i: T.add(as_num(s(T.add(i, C(1)))), as_num(s(i)), -1), a.buf.dtype)

    def argmax(self, a, axis=None):
        if isinstance(a, Arr) and a.buf.dtype == "b" and a.ndim == 1:
            s = a.snap()
            return wrapn(first_true(s, a._shape[0], "argmax"))
        raise Unsupported("argmax of numbers")

    def nonzero(self, a):
        if a.ndim != 1:
            raise Unsupported("nonzero")
        s = a.snap()
        return (nonzero_of(lambda i: as_cond(s(i)), a._shape[0]),)

    def where(self, c, *ab):
        if not ab:
            return self.nonzero(c)
        a, b = [x if isinstance(x, Arr) else None for x in ab]
        shape = c._shape
        cs = c.snap()
        fa = broadcast_to(a, shape) if a is not None else (lambda *i: elem(ab[0]))
        fb = broadcast_to(b, shape) if b is not None else (lambda *i: elem(ab[1]))
        return Arr.make(shape, lambda *i: eite(as_cond(cs(*i)), fa(*i), fb(*i)), "f")

    def any(self, a):
        if a.ndim == 1:
            s = a.snap()
            return wrapb(exists(lambda i: as_cond(s(i)), a._shape[0], "any"))
        raise Unsupported("any")

    def all(self, a):
        if a.ndim == 1:
            s = a.snap()
            return wrapb(T.neg(exists(lambda i: T.neg(as_cond(s(i))), a._shape[0], "all")))
        raise Unsupported("all")

    def isnan(self, a):
        f = lambda e: xl(e).nan if isinstance(e, X) else FALSE
        if isinstance(a, Arr):
            return a._map(f, "b")
        return wrapb(f(elem(a)))

    def isinf(self, a):
        f = lambda e: T.disj(xl(e).pinf, xl(e).ninf) if isinstance(e, X) else FALSE
        if isinstance(a, Arr):
            return a._map(f, "b")
        return wrapb(f(elem(a)))

    def _u(self, x, f, dtype="f"):
        if isinstance(x, (list, tuple, SymList)):
            x = self.array(x)
        if isinstance(x, Arr):
            return x._map(f, dtype)
        return wrap(f(elem(x)))

    def exp(self, x):
        return self._u(x, lambda e: xexp(e) if isinstance(e, X) else core.exp(as_num(e)))

    def log(self, x):
        return self._u(x, lambda e: core.log(as_num(e)))

    def sqrt(self, x):
        return self._u(x, lambda e: core.sqrt(as_num(e)))

    def ceil(self, x):
        return self._u(x, lambda e: T.scale(T.floor(T.scale(as_num(e), -1)), -1))

    def floor(self, x):
        return self._u(x, lambda e: T.floor(as_num(e)))

    def round(self, x, n=0):
        return self._u(x, round_half_even)
    rint = around = round

    def abs(self, x):
        return self._u(x, lambda e: T.ite(simp(T.lt(e, ZERO)), T.scale(e, -1), e))

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return self.abs(a - b) <= atol + rtol * self.abs(b)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return self.all(self.isclose(a, b, rtol, atol))

    def minimum(self, a, b):
        return self._two(a, b, lambda x, y: T.ite(simp(T.le(x, y)), x, y))

    def maximum(self, a, b):
        return self._two(a, b, lambda x, y: T.ite(simp(T.le(y, x)), x, y))

    def clip(self, a, lo, hi):
        return self.minimum(self.maximum(a, lo), hi)

    def _two(self, a, b, f):
        if isinstance(a, Arr):
            return a._bin(b, lambda x, y: f(as_num(x), as_num(y)))
        if isinstance(b, Arr):
            return b._bin(a, lambda x, y: f(as_num(x), as_num(y)), swap=True)
        return wrap(f(num(a), num(b)))

    def min(self, a):
        return BI["min"](a)

    def max(self, a):
        return BI["max"](a)
    amin, amax = min, max

    def unique(self, a):
        """sorted distinct values"""
        a = a if isinstance(a, Arr) else NP.array(a)
        n = a.size
        n = num(n)
        c = ctx()
        k = n.const()
        if k is not None and len(a._shape) == 1 and k <= 64:
            vs = [as_num(a.at(C(i))).const() for i in range(int(k))]
            if None not in vs:
                vs = sorted(set(vs))
                out = NP.array([N(C(v)) for v in vs])
                return out.astype(int) if a.buf.dtype == "i" else out
        if len(a._shape) != 1 or c.bound or c.in_body or c.pure:
            raise Unsupported("unique")
        s, isint = a.snap(), a.buf.dtype == "i"
        name = "unique%d" % next(T._ids)
        cnt = T.V(name + "n", True)
        u = lambda e: T.app(name, e, is_int=isint)
        src = lambda e: T.app(name + "src", e, is_int=True)
        pos = lambda i: T.app(name + "pos", i, is_int=True)
        c.assume(T.le(ZERO, cnt))
        c.assume(T.le(cnt, n))
        c.assume(T.implies(T.lt(ZERO, n), T.lt(ZERO, cnt)))
        c.forall(name, lambda e: T.implies(T.conj(T.le(ZERO, e), T.lt(e, cnt)), T.conj(T.le(ZERO, src(e)), T.lt(src(e), n), T.eq(u(e), as_num(s(src(e)))))), name)
        c.forint(lambda i: T.implies(T.conj(T.le(ZERO, i), T.lt(i, n)), T.conj(T.le(ZERO, pos(i)), T.lt(pos(i), cnt), T.eq(u(pos(i)), as_num(s(i))))), name)
        c.forpair(name, lambda x, y: T.implies(T.conj(T.le(ZERO, x), T.lt(x, y), T.lt(y, cnt)), T.lt(u(x), u(y))), name)
        return Arr.make([cnt], u, a.buf.dtype)


def round_half_even(e):
    e = as_num(e)
    if e.is_int:
        return e
    # contract of round: an integer within 1/2 of e
    k = T.app("ROUND", e, is_int=True)
    return k


def round_axioms(ats, cx, done):
    out = []
    for a in ats:
        if isinstance(a, T.App) and a.f == "ROUND" and ("round", a) not in done and not any(v.startswith("%") for v in a.vars):
            done.add(("round", a))
            x, r = a.args[0], T.A(a)
            h = C(Fraction(1, 2))
            out += [T.le(T.add(r, h, -1), x), T.le(x, T.add(r, h))]
            # integers round to themselves
            fl = T.floor(x)
            out.append(T.implies(T.eq(x, fl), T.eq(r, fl)))
    rs = [a for a in ats if isinstance(a, T.App) and a.f == "ROUND" and not any(v.startswith("%") for v in a.vars)]
    for i, a in enumerate(rs):
        for b in rs[i + 1:]:
            if ("round2", a, b) not in done:
                done.add(("round2", a, b))
                out += [T.implies(T.le(a.args[0], b.args[0]), T.le(T.A(a), T.A(b))),
                        T.implies(T.le(b.args[0], a.args[0]), T.le(T.A(b), T.A(a)))]
    return out


core.AXIOM_HOOKS.append(round_axioms)


def first_true(s, n, name):
    """numpy's argmax of a boolean array: the first true index, 0 if none"""
    c = ctx()
    bound = list(c.bound)
    k = "%s%d" % (name, next(T._ids))
    args = tuple(T.A(v) for v in bound)
    template = T.V("i~", True)
    body = as_cond(s(template))
    ren = lambda args, i: T.subst(body, dict([("i~", i)] + [(v.name, a) for v, a in zip(bound, args)]))

    def size(args):
        return T.subst(n, {v.name: a for v, a in zip(bound, args)})
    am = lambda args: T.app(k, *args, is_int=True) if args else T.V(k, True)
    none = lambda args: T.BApp(k + "none", args)

    def f1(*args):
        r = am(args)
        return T.conj(T.le(ZERO, r), T.implies(T.lt(ZERO, size(args)), T.lt(r, size(args))),
                      T.disj(T.conj(none(args), T.eq(r, ZERO)), ren(args, r)))

    def f2(args, i):
        return T.conj(T.implies(T.conj(T.le(ZERO, i), T.lt(i, am(args))), T.neg(ren(args, i))),
                      T.implies(T.conj(none(args), T.le(ZERO, i), T.lt(i, size(args))), T.neg(ren(args, i))))
    target = c.fact_target()
    if bound:
        target.forall(k, f1, k)
        target.forall2(k, f2, k)
    else:
        c.assume(f1())
        c.forint(lambda i: f2((), i), k)
        c.seed(am(()))
    c.defs[k] = (ren, size, none)
    return am(args)


def nonzero_of(cf, n):
    """indices of true entries, ascending: (n_true, idx) with idx strictly increasing, cf(idx(e)), and every true i is idx(rank(i))"""
    c = ctx()
    known = known_nonzero(cf, n)
    if known is not None:
        return known
    k = "nz%d" % next(T._ids)
    cnt = T.V(k + "n", True)
    idx = lambda e: T.app(k, e, is_int=True)
    rank = lambda i: T.app(k + "r", i, is_int=True)
    c.assume(T.le(ZERO, cnt))
    c.assume(T.le(cnt, n))

    def f1(e):
        return T.implies(T.conj(T.le(ZERO, e), T.lt(e, cnt)), T.conj(T.le(ZERO, idx(e)), T.lt(idx(e), n), cf(idx(e)), T.eq(rank(idx(e)), e), T.le(e, idx(e))))
    c.forall(k, f1, k)

    def f2(i):
        return T.implies(T.conj(T.le(ZERO, i), T.lt(i, n), cf(i)), T.conj(T.le(ZERO, rank(i)), T.lt(rank(i), cnt), T.eq(idx(rank(i)), i)))
    if c.tracer is None:
        c.forint(f2, k)
    # strictly increasing: for every pair
    c.forpair(k, lambda a, b: T.implies(T.conj(T.le(ZERO, a), T.lt(a, b), T.lt(b, cnt)), T.lt(idx(a), idx(b))), k)
    if c.in_body == 0 and c.pure == 0:
        c.nz.append((n, cf, cnt, idx, c.facts[-1]))
    return Arr.make([cnt], lambda e: idx(e), "i")


def known_nonzero(cf, n):
    """the increasing enumeration of a set of indices is unique: found again where the condition is equivalent to a known one"""
    c = ctx()
    if c.in_body or c.pure or c.bound:
        return None
    c.nz = [x for x in c.nz if any(f is x[4] for f in c.facts)]
    for m, df, cnt, idx, _ in c.nz:
        if m != n and not c.entails(T.eq(m, n)):
            continue
        with sums.scope():
            x = T.fresh("nzi", True)
            c.assume(T.le(ZERO, x))
            c.assume(T.lt(x, n))
            p, q = cf(x), df(x)
            same = p == q or (c.entails(T.implies(p, q)) and c.entails(T.implies(q, p)))
        if same:
            return Arr.make([cnt], lambda e: idx(e), "i")
    return None


NP = _NP()


# ------------------------------------------------------------------ builtins

BI_INT = None


def b_len(x):
    if isinstance(x, SymList):
        return wrapn(x.n)
    if isinstance(x, SymRange):
        return wrapn(x.length())
    if isinstance(x, Arr):
        return wrapn(x._shape[0])
    return len(x)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    step = a[2] if len(a) == 3 else 1
    if isinstance(step, N):
        step = step.__index__()
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    lo, hi = num(lo), num(hi)
    if not (lo.is_int and hi.is_int):
        raise Unsupported("range of non-integers")
    if lo.const() is not None and hi.const() is not None:
        return range(int(lo.const()), int(hi.const()), step)
    return SymRange(lo, hi, step)


def two_min(a, b):
    if not (isinstance(a, (N, B)) or isinstance(b, (N, B))):
        return min(a, b)
    x, y = num(a), num(b)
    c = simp(T.le(x, y))
    if isinstance(c, Const):
        return a if c.v else b
    if ctx().merge:
        return wrap(T.ite(c, x, y))
    return a if ctx().decide(c) else b


def two_max(a, b):
    if not (isinstance(a, (N, B)) or isinstance(b, (N, B))):
        return max(a, b)
    x, y = num(a), num(b)
    c = simp(T.le(y, x))
    if isinstance(c, Const):
        return a if c.v else b
    if ctx().merge:
        return wrap(T.ite(c, x, y))
    return a if ctx().decide(c) else b


def extremum(x, sign):
    """min (sign 1) or max (-1) of a symbolic sequence: a new value with its defining facts"""
    if isinstance(x, SymRange):
        n = x.length()
        need("min/max of an empty sequence", T.lt(ZERO, n))
        last = T.add(n, C(-1))
        return wrapn(x.at(last) if (sign == 1) == (x.step == -1) else x.at(ZERO))
    n, item = iter_parts(x)
    need("min/max of an empty sequence", T.lt(ZERO, n))
    c = ctx()
    if isinstance(x, Arr):
        for buf, fn, axes, sg, f, r in c.extrema:
            if buf is x.buf and fn is x.buf.fn and axes == x.axes and sg == sign and any(f is g for g in c.facts):
                return wrapn(r)
    w = T.fresh("minat", True)
    c.assume(T.le(ZERO, w))
    c.assume(T.lt(w, n))
    c.seed(w)
    v = elem(item(w))
    r = T.fresh("min" if sign == 1 else "max", v.is_int)
    c.assume(T.eq(r, as_num(v)))
    c.seed(r)
    tmpl = merged(item, n)

    def fact(i):
        e = as_num(tmpl(i))
        return T.implies(T.conj(T.le(ZERO, i), T.lt(i, n)), T.le(r, e) if sign == 1 else T.le(e, r))
    v = T.Var("x~", True)
    e = as_num(tmpl(T.A(v)))
    f = next(iter(e.d))[0][0] if len(e.d) == 1 and len(next(iter(e.d))) == 1 else None
    if c.tracer is not None and isinstance(f, T.App) and tuple(f.args) == (T.A(v),):
        c.forall(f.f, fact, "extremum")
    else:
        c.forint(fact, "extremum")
    if isinstance(x, Arr):
        c.extrema.append((x.buf, x.buf.fn, x.axes, sign, c.facts[-1], r))
    return wrapn(r)


def merged(item, n):
    """item evaluated once for a bound index, without branching; returns a function of the index"""
    v = T.Var("m~%d" % len(ctx().bound), True)
    c = ctx()
    with sums.scope():
        c.assume(T.le(ZERO, T.A(v)))
        c.assume(T.lt(T.A(v), n))
        c.bound.append(v)
        try:
            e = merge_eval(lambda: elem(item(T.A(v))))
        finally:
            c.bound.pop()
    return lambda i: esubst(e, {v.name: i})


def once(f, n):
    """f, evaluated once for an arbitrary index where that works"""
    if n.const() is not None or ctx().pure:
        return f
    try:
        return merged(f, n)
    except Unsupported:
        return f


def esubst(e, m):
    if isinstance(e, X):
        return xc(X(T.subst(e.t, m), (T.subst(e.pinf, m), T.subst(e.ninf, m)), T.subst(e.nan, m)))
    return T.subst(e, m)


def merge_eval(f):
    """value of f() with branches merged into a conditional term"""
    paths = core.sub_explore(f)
    if not paths:
        raise core.EndPath()
    out = None
    for conds, r, facts, log in reversed(paths):
        if log:
            raise Unsupported("side effect in an expression under a bound variable")
        out = r if out is None else eite(T.conj(*conds), r, out)
    return out


def b_min(*a, **k):
    if k:
        raise Unsupported("min with keywords")
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Arr) and x.ndim == 1 or isinstance(x, (SymList, SymRange, SymIter)):
            n = iter_parts(x)[0] if not isinstance(x, SymRange) else x.length()
            if n.const() is None or isinstance(x, SymRange):
                return extremum(x, 1)
        xs = list(x)
    else:
        xs = list(a)
    if not xs:
        raise CodeErr("min of an empty sequence")
    r = xs[0]
    for y in xs[1:]:
        r = two_min(r, y)
    return r


def b_max(*a, **k):
    if k:
        raise Unsupported("max with keywords")
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Arr) and x.ndim == 1 or isinstance(x, (SymList, SymRange, SymIter)):
            n = iter_parts(x)[0] if not isinstance(x, SymRange) else x.length()
            if n.const() is None or isinstance(x, SymRange):
                return extremum(x, -1)
        xs = list(x)
    else:
        xs = list(a)
    if not xs:
        raise CodeErr("max of an empty sequence")
    r = xs[0]
    for y in xs[1:]:
        r = two_max(r, y)
    return r


class CodeErr(Exception):
    pass


def b_sum(x, start=0):
    if is_sym_iter(x) or isinstance(x, (Arr, SymList)):
        if isinstance(x, Arr) and x.ndim == 2:
            n = x._shape[0].const()
            if n is None:
                s = x.snap()
                rows = x._shape[0]
                return Arr.make([x._shape[1]], lambda j: sums.total(ZERO, rows, lambda i: as_num(s(i, j))), x.buf.dtype)
        n, item = iter_parts(x)
        e0 = sums.total(ZERO, n, lambda i: as_num(elem(item(i))))
        return wrapn(T.add(num(start), e0))
    r = start
    for y in x:
        r = r + y
    return r


def b_abs(x):
    return x.__abs__() if isinstance(x, (N, Arr)) else abs(x)


class _int(type):
    def __instancecheck__(cls, x):
        if isinstance(x, N):
            return x.t.is_int
        return builtins.isinstance(x, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class b_int(metaclass=_int):
    _real = int

    def __new__(cls, x=0):
        if isinstance(x, N):
            if x.t.is_int:
                return x
            return wrapn(trunc(x.t))
        if isinstance(x, B):
            return wrapn(core.bool_num(x.c))
        if isinstance(x, Arr):
            return cls(wrap(x.at()))
        return int(x)


BI_INT = b_int


class _float(type):
    def __instancecheck__(cls, x):
        if isinstance(x, N):
            return not x.t.is_int
        return builtins.isinstance(x, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class b_float(metaclass=_float):
    _real = float

    def __new__(cls, x=0.0):
        if isinstance(x, (N, X)):
            return x
        if isinstance(x, B):
            return N(core.bool_num(x.c))
        if isinstance(x, Arr):
            return cls(wrap(x.at()))
        return float(x)


class _list(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (list, SymList))

    def __eq__(cls, o):
        return o is list or o is cls

    def __hash__(cls):
        return hash(list)


class b_list(list, metaclass=_list):
    _real = list

    def __new__(cls, x=()):
        if isinstance(x, (SymList, SymRange, SymIter)) or (isinstance(x, Arr) and x._shape[0].const() is None):
            n, item = iter_parts(x)
            return SymList(n, item)
        return list(x)


class _range(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (range, SymRange))


class range_cls(metaclass=_range):
    def __new__(cls, *a):
        return b_range(*a)


class _bool(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (bool, B))


class b_bool(metaclass=_bool):
    _real = bool

    def __new__(cls, x=False):
        if isinstance(x, B):
            return x
        if isinstance(x, N):
            return wrapb(cond(x))
        return bool(x)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if k in (int, float, list, bool, range):
            k = {int: b_int, float: b_float, list: b_list, bool: b_bool, range: range_cls}[k]
        if hasattr(x, "_cls") and isinstance(k, type):
            if issubclass(x._cls, k):
                return True
            continue
        if isinstance(x, k):
            return True
    return False


def b_enumerate(x, start=0):
    if is_sym_iter(x):
        n, item = iter_parts(x)
        return SymIter(n, lambda i: (wrapn(T.add(i, num(start))), item(i)))
    return enumerate(x, start)


def b_reversed(x):
    if is_sym_iter(x):
        n, item = iter_parts(x)
        return SymIter(n, lambda i: item(T.add(T.add(n, i, -1), C(-1))))
    return reversed(list(x))


def b_zip(*xs):
    if any(is_sym_iter(x) for x in xs):
        ps = [iter_parts(x) for x in xs]
        n = ps[0][0]
        for m, _ in ps[1:]:
            n = smin(n, m)
        return SymIter(n, lambda i: tuple(f(i) for _, f in ps))
    return zip(*xs)


def b_map(f, *xs):
    if len(xs) == 1 and is_sym_iter(xs[0]):
        n, item = iter_parts(xs[0])
        return SymIter(n, lambda i: f(item(i)))
    return map(f, *xs)


def b_any(x):
    if is_sym_iter(x):
        n, item = iter_parts(x)
        tm = merged(item, n)
        return wrapb(exists(lambda i: as_cond(tm(i)), n, "any"))
    for y in x:
        if y:
            return True
    return False


def b_all(x):
    if is_sym_iter(x):
        n, item = iter_parts(x)
        tm = merged(item, n)
        return wrapb(T.neg(exists(lambda i: T.neg(as_cond(tm(i))), n, "all")))
    for y in x:
        if not y:
            return False
    return True


def b_round(x, n=None):
    if isinstance(x, N):
        return wrapn(round_half_even(x.t))
    return round(x) if n is None else round(x, n)


class _math:
    inf, nan, pi = math.inf, math.nan, math.pi

    def ceil(self, x):
        return wrapn(T.scale(T.floor(T.scale(x.t, -1)), -1)) if isinstance(x, N) else math.ceil(x)

    def floor(self, x):
        return wrapn(T.floor(x.t)) if isinstance(x, N) else math.floor(x)

    def exp(self, x):
        return N(core.exp(num(x))) if isinstance(x, N) else math.exp(x)

    def log(self, x):
        return N(core.log(num(x))) if isinstance(x, N) else math.log(x)

    def isnan(self, x):
        return NP.isnan(x)

    def __getattr__(self, n):
        raise Unsupported("math.%s" % n)


MATH = _math()


def deepcopy(x, memo=None):
    """copy.deepcopy: symbolic values are immutable, arrays are copied"""
    import copy
    return copy.deepcopy(x, memo)


BI = {"len": b_len, "range": range_cls, "min": b_min, "max": b_max, "sum": b_sum, "abs": b_abs, "int": b_int, "float": b_float,
      "isinstance": b_isinstance, "enumerate": b_enumerate, "reversed": b_reversed, "zip": b_zip, "map": b_map, "any": b_any,
      "all": b_all, "round": b_round, "list": b_list, "bool": b_bool}
