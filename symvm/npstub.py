"""A numpy front end whose arrays may hold symbolic values (object arrays)."""
import types
import numpy as np
from . import vals
from .vals import SymArr, SYM, SymNum, SymBool, AND, OR, NOT, ITE, EQ, SUM, resolve, contains_marker

_proxy = None


def has_sym(a):
    if isinstance(a, SymArr):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, SYM):
        return True
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return contains_marker(a)


def clean(a):
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            if isinstance(x, vals.Opt):
                if not bool(x.g):
                    continue
                x = x.v
            out.append(clean(resolve(x)))
        return type(a)(out)
    return resolve(a)


def typed(a, kind):
    r = SymArr(a)
    r._kind = kind
    return r


def astype(a, t):
    a = clean(a)
    kind = vals.kind_of(t)
    f = vals.CONV.get(kind, lambda v: v)
    flat = np.asarray(a, dtype=object)
    out = np.empty(flat.shape, dtype=object)
    for i in np.ndindex(*flat.shape):
        out[i] = f(flat[i])
    return typed(out, kind)


def _dim(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(resolve(x)) for x in s)
    return int(resolve(s))


def _fill(shape, v):
    a = np.empty(_dim(shape), dtype=object)
    a[...] = v
    return SymArr(a)


def _zero(dtype):
    k = vals.kind_of(dtype)
    if dtype is object:
        return None
    return False if k == "b" else 0 if k and k[0] in "iu" else 0.0


def zeros(shape, dtype=float, **kw):
    return typed(_fill(shape, _zero(dtype)), vals.kind_of(dtype))


def ones(shape, dtype=float, **kw):
    z = _zero(dtype)
    return typed(_fill(shape, True if z is False else z + 1), vals.kind_of(dtype))


def empty(shape, dtype=float, **kw):
    return zeros(shape, dtype)


def full(shape, fill_value, dtype=None, **kw):
    r = _fill(shape, resolve(fill_value))
    return r if dtype is None else astype(r, dtype)


def _like(a, v, dtype):
    if dtype is not None:
        return full(np.shape(a), v, dtype)
    r = _fill(np.shape(a), v)
    r._kind = getattr(a, "_kind", None) if isinstance(a, SymArr) else vals.kind_of(getattr(a, "dtype", None))
    return r


def zeros_like(a, dtype=None, **kw):
    return _like(a, 0, dtype)


def ones_like(a, dtype=None, **kw):
    return _like(a, 1, dtype)


def full_like(a, v, dtype=None, **kw):
    return _like(a, resolve(v), dtype)


def array(data, dtype=None, copy=True, **kw):
    data = clean(data)
    r = SymArr(np.array(data, dtype=object))
    if dtype is not None:
        r = astype(r, dtype)
    return r


def asarray(data, dtype=None, **kw):
    data = resolve(data)
    if isinstance(data, SymArr) and dtype is None:
        return data
    return array(data, dtype)


def _reduce(a, axis, f):
    a = np.asarray(clean(a), dtype=object)
    if axis is None:
        return f(list(a.ravel()))
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(list(a[i]))
    return SymArr(out)


def _b(v):
    return v if isinstance(v, (bool, SymBool)) else vals.wrapbool(vals.tobool(v))


def any_(a, axis=None, **kw):
    p = _guarded(a)
    if p is not None:
        return OR([AND(g, _b(x)) for g, x in p])
    return _reduce(a, axis, lambda l: OR([_b(x) for x in l]) if l else False)


def all_(a, axis=None, **kw):
    p = _guarded(a)
    if p is not None:
        return AND([OR(NOT(g), _b(x)) for g, x in p])
    return _reduce(a, axis, lambda l: AND([_b(x) for x in l]) if l else True)


def sum_(a, axis=None, **kw):
    p = _guarded(a)
    if p is not None:
        return SUM([ITE(g, x, 0) for g, x in p])
    return _reduce(a, axis, SUM)


def prod(a, axis=None, **kw):
    def f(l):
        r = 1
        for x in l:
            r = r * vals.num(x)
        return r
    return _reduce(a, axis, f)


def mean(a, axis=None, **kw):
    return _reduce(a, axis, lambda l: SUM(l) / len(l))


def _ext(l, less):
    r = l[0]
    for x in l[1:]:
        c = (x < r) if less else (x > r)
        r = ITE(c, x, r)
    return r


def _arg(l, less):
    r, k = l[0], 0
    for i, x in enumerate(l[1:], 1):
        c = (x < r) if less else (x > r)
        r, k = ITE(c, x, r), ITE(c, i, k)
    return k


def min_(a, axis=None, **kw):
    return _reduce(a, axis, lambda l: _ext(l, True))


def max_(a, axis=None, **kw):
    return _reduce(a, axis, lambda l: _ext(l, False))


def argmin(a, axis=None, **kw):
    return _reduce(a, axis, lambda l: _arg(l, True))


def argmax(a, axis=None, **kw):
    return _reduce(a, axis, lambda l: _arg(l, False))


def maximum(a, b):
    return _ufunc2(lambda x, y: ITE(x >= y, x, y), a, b)


def minimum(a, b):
    return _ufunc2(lambda x, y: ITE(x <= y, x, y), a, b)


def _ufunc2(f, a, b):
    a, b = clean(a), clean(b)
    r = np.frompyfunc(f, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return SymArr(r) if isinstance(r, np.ndarray) else r


def where(c, *ab):
    c = clean(c)
    if not ab:
        return nonzero(c)
    a, b = (clean(x) for x in ab)
    r = np.frompyfunc(lambda x, y, z: ITE(_b(x), y, z), 3, 1)(
        np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    return SymArr(r) if isinstance(r, np.ndarray) else r


def _concrete_mask(c):
    c = np.asarray(clean(c), dtype=object)
    return np.array([bool(x) for x in c.ravel()]).reshape(c.shape)


class OptSeq(list):
    """A one-dimensional array whose elements may be absent (Opt)."""

    @property
    def size(self):
        return SUM([ITE(vals.guard_of(x), 1, 0) for x in self]) if self else 0

    @property
    def shape(self):
        return (self.size,)

    ndim = 1

    def arr(self):
        a = np.empty(0, dtype=object)
        l = clean(list(self))
        if l:
            a = np.empty(len(l), dtype=object)
            a[:] = l
        return SymArr(a)

    def tolist(self):
        return list(self)

    def astype(self, t, **kw):
        return self.arr().astype(t)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.arr(), name)


def _arith(name):
    def f(self, other):
        if isinstance(other, OptSeq):
            other = other.arr()
        return getattr(self.arr(), name)(other)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "eq", "ne", "lt", "le", "gt", "ge",
           "mod", "floordiv", "and", "or"):
    setattr(OptSeq, "__%s__" % _n, _arith("__%s__" % _n))
OptSeq.__hash__ = None


def optseq(pairs):
    """[(guard, value)] -> an array, with Opt elements where the guard is symbolic"""
    out = [vals.mkopt(g, v) for g, v in pairs if g is not False]
    if any(isinstance(x, vals.Opt) for x in out):
        return OptSeq(out)
    if not out or not has_sym(out):
        return np.array(out) if out else np.array([], dtype=int)
    return SymArr(np.array(out, dtype=object))


def nonzero(c):
    c = np.asarray(clean(c), dtype=object)
    if c.ndim == 1:
        return (optseq([(_b(x), i) for i, x in enumerate(c)]),)
    return np.nonzero(_concrete_mask(c))


def flatnonzero(c):
    return nonzero(np.asarray(clean(c), dtype=object).ravel())[0]


def select(a, mask):
    """a[mask], a one-dimensional"""
    return optseq([(_b(m), x) for m, x in zip(mask, a)])


def _guarded(l):
    """A flat list with Opt elements as [(guard, value)], or None."""
    if isinstance(l, list) and any(isinstance(x, vals.Opt) for x in l):
        return [(vals.guard_of(x), resolve(vals.val_of(x))) for x in l]


def count_nonzero(c, axis=None, **kw):
    p = _guarded(c)
    if p is not None:
        return SUM([ITE(AND(g, _b(x)), 1, 0) for g, x in p])
    return _reduce(c, axis, lambda l: SUM([ITE(_b(x), 1, 0) for x in l]))


def unique(a, **kw):
    if kw.get("return_counts") or kw.get("return_index") or kw.get("return_inverse") or kw.get("axis") is not None:
        a = np.asarray(clean(a), dtype=object)
        c = np.array([vals.conc(x) for x in a.ravel()]).reshape(a.shape)
        return np.unique(c, **kw)
    a = np.asarray(clean(a), dtype=object).ravel()
    return np.unique(np.array([_py(vals.conc(x)) for x in a]))


def _py(x):
    return float(x) if isinstance(x, vals.Fraction) else x


def arange(*a, **kw):
    return SymArr(np.array(np.arange(*[vals.conc(resolve(x)) for x in a]).tolist(), dtype=object))


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return _ufunc2(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b, **kw):
    a, b = np.asarray(clean(a), dtype=object), np.asarray(clean(b), dtype=object)
    if a.shape != b.shape:
        return False
    return AND([EQ(x, y) for x, y in zip(a.ravel(), b.ravel())]) if a.size else True


def logical_and(a, b):
    return _ufunc2(lambda x, y: AND(_b(x), _b(y)), a, b)


def logical_or(a, b):
    return _ufunc2(lambda x, y: OR(_b(x), _b(y)), a, b)


def logical_not(a):
    a = clean(a)
    r = np.frompyfunc(lambda x: NOT(_b(x)), 1, 1)(np.asarray(a, dtype=object))
    return SymArr(r) if isinstance(r, np.ndarray) else r


def abs_(a):
    a = clean(a)
    if not isinstance(a, np.ndarray):
        return abs(a)
    return SymArr(np.frompyfunc(abs, 1, 1)(a))


def sqrt(a):
    a = clean(a)
    return vals.sqrt_(a)


def floor(a):
    return vals.floor_(clean(a))


def ceil(a):
    return -vals.floor_(-clean(a))


def dot(a, b):
    a, b = np.asarray(clean(a), dtype=object), np.asarray(clean(b), dtype=object)
    r = a.dot(b)
    return SymArr(r) if isinstance(r, np.ndarray) else r


def isnan(a):
    return False


def sort(a, **kw):
    a = np.asarray(clean(a), dtype=object)
    return SymArr(np.array(sorted(vals.conc(x) for x in a.ravel()), dtype=object))


_NAMES = dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like,
              full_like=full_like, array=array, asarray=asarray, any=any_, all=all_, sum=sum_, prod=prod,
              mean=mean, min=min_, max=max_, amin=min_, amax=max_, argmin=argmin, argmax=argmax,
              maximum=maximum, minimum=minimum, where=where, nonzero=nonzero, flatnonzero=flatnonzero,
              count_nonzero=count_nonzero, unique=unique, arange=arange, isclose=isclose, allclose=allclose,
              array_equal=array_equal, logical_and=logical_and, logical_or=logical_or, logical_not=logical_not,
              abs=abs_, absolute=abs_, fabs=abs_, sqrt=sqrt, floor=floor, ceil=ceil, dot=dot, isnan=isnan, sort=sort)


def _raw(f):
    # called by the interpreter with Opt elements still in place
    def model(vm, args, kw):
        r = f(*[resolve(a) if isinstance(resolve(a), list) else vm.plain(a) for a in args],
              **{k: vm.plain(v) for k, v in kw.items()})
        if isinstance(r, (np.ndarray, list)):
            vm.E.fresh(r)
        elif isinstance(r, tuple):
            for x in r:
                if isinstance(x, (np.ndarray, list)):
                    vm.E.fresh(x)
        return r
    f.__vm_model__ = model


for _f in (any_, all_, sum_, count_nonzero, nonzero, flatnonzero, where):
    _raw(_f)

METHODS = dict(any=any_, all=all_, sum=sum_, prod=prod, mean=mean, min=min_, max=max_, argmin=argmin,
               argmax=argmax, nonzero=nonzero, dot=dot)


def numpy_proxy():
    global _proxy
    if _proxy is None:
        m = types.ModuleType("numpy")
        for k, v in vars(np).items():
            if not k.startswith("__"):
                m.__dict__[k] = v
        m.__dict__.update(_NAMES)
        _proxy = m
    return _proxy
