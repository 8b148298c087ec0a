"""A list of symbolic length of objects of one class of the code under verification (e.g. trap species).

The object's attributes are what the class's real constructor sets for symbolic arguments; its methods and properties are the
real ones.  Attribute writes go to one array per attribute."""
import copy
from . import terms as T
from .terms import C, ZERO, TRUE, FALSE, Num, Cond, Unsupported
from . import core, arrays, sums
from .core import N, B, X, num, ctx


class Obj:
    def __init__(self, store, i):
        object.__setattr__(self, "_store", store)
        object.__setattr__(self, "_i", i)
        object.__setattr__(self, "_cls", store.cls)

    def __getattr__(self, n):
        st = self._store
        if n in st.arr:
            a = st.arr[n]
            rd = ctx().reads
            if rd is not None:
                rd.append((a.buf, [("i", self._i)], []))
            return arrays.wrap(a.at(self._i), a.buf.dtype)
        if n in st.const:
            return st.const[n]
        for k in st.cls.__mro__:
            if n in k.__dict__:
                v = k.__dict__[n]
                if isinstance(v, property):
                    return v.fget(self)
                if isinstance(v, staticmethod):
                    return v.__func__
                if isinstance(v, classmethod):
                    return v.__func__.__get__(st.cls)
                if hasattr(v, "__get__"):
                    return v.__get__(self)
                return v
        raise AttributeError("%s has no attribute %s" % (st.cls.__name__, n))

    def __setattr__(self, n, v):
        st = self._store
        for k in st.cls.__mro__:
            w = k.__dict__.get(n)
            if isinstance(w, property):
                w.fset(self, v)
                return
        if n in st.arr:
            a = st.arr[n]
            arrays.Arr(a.buf, [("i", self._i)], []).assign(v)
            return
        raise Unsupported("new attribute %s of a species" % n)

    def __deepcopy__(self, memo):
        return Obj(copy.deepcopy(self._store, memo), self._i)


class Store:
    def __init__(self, cls, n, arr, const):
        self.cls, self.n, self.arr, self.const = cls, n, arr, const

    def __deepcopy__(self, memo):
        s = Store(self.cls, self.n, {k: arrays.NP.array(a) for k, a in self.arr.items()}, dict(self.const))
        memo[id(self)] = s
        return s


def obj_list(store):
    l = arrays.SymList(store.n, lambda i: Obj(store, i))
    l.store = store

    def copier():
        return obj_list(copy.deepcopy(store))
    l.copier = copier
    return l


def make(cls, n, args):
    """a list of n objects; args(i) gives the constructor's keyword arguments for index i"""
    n = num(n)
    v = T.Var("o~%s" % cls.__name__, True)
    i = T.A(v)
    cx = ctx()
    with sums.scope():
        cx.assume(T.le(ZERO, i))
        cx.assume(T.lt(i, n))
        cx.seed(i)
        paths = core.sub_explore(lambda: vars(cls(**args(i))))
    arr, const = {}, {}
    names = list(paths[0][1])
    for k in names:
        vals = [(T.conj(*d), r[k]) for d, r, _, _ in paths]
        if all(isinstance(x, (int, float, N, B, X)) for _, x in vals):
            out = None
            for d, x in reversed(vals):
                e = arrays.elem(x)
                out = e if out is None else arrays.eite(d, e, out)
            dt = "b" if isinstance(out, Cond) else "f"
            arr[k] = arrays.Arr.make([n], (lambda out: lambda j: arrays.esubst(out, {v.name: j}))(out), dt)
        else:
            const[k] = vals[0][1]
    return obj_list(Store(cls, n, arr, const))
