"""Symbolic values: z3-backed booleans and numbers that behave like Python ones.

Floats are treated as exact rationals (reals); Python ints as mathematical
integers.  Every operation on a symbolic value yields a symbolic value; only
`bool()`, `int()`/`index` and hashing need a decision, which is delegated to
the engine (`ENGINE.decide` / `ENGINE.concretize`), where it becomes a fork.
"""
import math
from fractions import Fraction
import numpy as np
import z3



def _raw(f):
    """the library call behind a binding, without its error check"""
    return f.__defaults__[-1].f


_BOOL_VALUE, _IS_APP, _DECL_KIND, _APP_DECL = map(_raw, (
    z3.z3core.Z3_get_bool_value, z3.z3core.Z3_is_app, z3.z3core.Z3_get_decl_kind, z3.z3core.Z3_get_app_decl))
_CTX = z3.main_ctx().ref()


def is_true(z):
    return _BOOL_VALUE(_CTX, z.ast) == 1


def is_false(z):
    return _BOOL_VALUE(_CTX, z.ast) == -1


def is_not(z):
    return _IS_APP(_CTX, z.ast) and _DECL_KIND(_CTX, _APP_DECL(_CTX, z.ast)) == z3.Z3_OP_NOT



ENGINE = None          # set by engine.Engine.activate()

CTX = z3.main_ctx()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
_NUM = (int, float, Fraction, np.integer, np.floating, np.bool_, bool)


class SymBool:
    __slots__ = ("z",)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ENGINE.decide(self.z)

    def __hash__(self):
        return self.z.hash()

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __and__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return AND(self, o)
        return num(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return OR(self, o)
        return num(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return NOT(EQ(self, o))
        return num(self) ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return num(self).__invert__()

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return mkbool(tobool(self) == tobool(o))
        if isinstance(o, (SymNum,) + _NUM):
            return num(self) == o
        return False

    def __ne__(self, o):
        return NOT(self == o)

    def __lt__(self, o): return num(self) < o
    def __le__(self, o): return num(self) <= o
    def __gt__(self, o): return num(self) > o
    def __ge__(self, o): return num(self) >= o
    def __add__(self, o): return num(self) + o
    def __radd__(self, o): return o + num(self)
    def __sub__(self, o): return num(self) - o
    def __rsub__(self, o): return o - num(self)
    def __mul__(self, o): return num(self) * o
    def __rmul__(self, o): return num(self) * o
    def __truediv__(self, o): return num(self) / o
    def __rtruediv__(self, o): return o / num(self)
    def __neg__(self): return -num(self)
    def __pos__(self): return num(self)
    def __abs__(self): return num(self)

    def __repr__(self):
        return "SymBool(%s)" % short(self.z)

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def short(z):
    s = str(z)
    return s if len(s) < 200 else s[:200] + "..."


def _isinf(o):
    return isinstance(o, (float, np.floating)) and math.isinf(o)


class SymNum:
    __slots__ = ("z", "ub")
    __array_priority__ = 1000

    def __init__(self, z, ub=None):
        self.z = z
        self.ub = ub           # a known upper bound (lengths), or None

    @property
    def isint(self):
        return self.z.is_int()

    # -- decisions ---------------------------------------------------------
    def __bool__(self):
        return ENGINE.decide((self != 0).z if isinstance(self != 0, SymBool)
                             else z3.BoolVal(self != 0))

    def __hash__(self):
        # structural; dictionaries and sets of the interpreted code compare
        # symbolic keys by value (interp.py), never by this hash
        return self.z.hash()

    def __index__(self):
        if not self.isint:
            raise TypeError("symbolic real used as an index")
        return ENGINE.concretize(self)

    def __int__(self):
        v = trunc(self)
        return ENGINE.concretize(v) if isinstance(v, SymNum) else v

    def __float__(self):
        return float(ENGINE.concretize(self))

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return o
        if isconst(o) and o == 0:
            return self
        return mknum(self.z + lift(o))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return -o
        if isconst(o) and o == 0:
            return self
        return mknum(self.z - lift(o))

    def __rsub__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return o
        return mknum(lift(o) - self.z)

    def __mul__(self, o):
        if not isnum(o):
            return NotImplemented
        if isconst(o):
            if o == 0:
                return 0 if not isinstance(o, (float, np.floating)) else 0.0
            if o == 1:
                return self
        else:
            # keep 0/1 selections linear
            for a, b in ((self, o), (o, self)):
                z = num(a).z if isinstance(a, SymBool) else a.z
                if z3.is_app_of(z, z3.Z3_OP_ITE) and is_lit(z.arg(1)) and is_lit(z.arg(2)):
                    return ITE(wrapbool(z.arg(0)), mknum(z.arg(1)) * b, mknum(z.arg(2)) * b)
        return mknum(self.z * lift(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return 0.0
        if isconst(o):
            if o == 0:
                raise ZeroDivisionError("division by zero")
            return mknum(toreal(self.z) / toreal(lift(o)))
        if bool(EQ(o, 0)):
            raise ZeroDivisionError("division by zero")
        return mknum(toreal(self.z) / toreal(lift(o)))

    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if bool(EQ(self, 0)):
            raise ZeroDivisionError("division by zero")
        return mknum(toreal(lift(o)) / toreal(self.z))

    def __floordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        if isinstance(o, (SymNum, SymBool)):
            o = ENGINE.concretize(num(o))
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        q = floor_(self / o)
        return q if (self.isint and isinstance(o, (int, np.integer))) else to_float(q)

    def __rfloordiv__(self, o):
        return o // ENGINE.concretize(self)

    def __mod__(self, o):
        if not isnum(o):
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % ENGINE.concretize(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o, mod=None):
        if isinstance(o, (SymNum, SymBool)):
            o = ENGINE.concretize(num(o))
        if isinstance(o, (int, np.integer)) and 0 <= o <= 8:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        if o == 0.5:
            return sqrt_(self)
        return ENGINE.concretize(self) ** o

    def __rpow__(self, o):
        return o ** ENGINE.concretize(self)

    def __neg__(self):
        return mknum(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.z >= 0, self.z, -self.z))

    # -- bit operations: concrete values only (forks over the values) -------
    def __and__(self, o): return ENGINE.concretize(self) & conc(o)
    def __rand__(self, o): return conc(o) & ENGINE.concretize(self)
    def __or__(self, o): return ENGINE.concretize(self) | conc(o)
    def __ror__(self, o): return conc(o) | ENGINE.concretize(self)
    def __xor__(self, o): return ENGINE.concretize(self) ^ conc(o)
    def __rxor__(self, o): return conc(o) ^ ENGINE.concretize(self)
    def __lshift__(self, o): return ENGINE.concretize(self) << conc(o)
    def __rlshift__(self, o): return conc(o) << ENGINE.concretize(self)
    def __rshift__(self, o): return ENGINE.concretize(self) >> conc(o)
    def __rrshift__(self, o): return conc(o) >> ENGINE.concretize(self)
    def __invert__(self): return -self - 1

    # -- comparisons -------------------------------------------------------
    def __eq__(self, o):
        if not isnum(o):
            return False
        if _isinf(o) or (isinstance(o, (float, np.floating)) and math.isnan(o)):
            return False
        return mkbool(self.z == lift(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return NOT(r)

    def __lt__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return bool(o > 0)
        return mkbool(self.z < lift(o))

    def __le__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return bool(o > 0)
        return mkbool(self.z <= lift(o))

    def __gt__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return bool(o < 0)
        return mkbool(self.z > lift(o))

    def __ge__(self, o):
        if not isnum(o):
            return NotImplemented
        if _isinf(o):
            return bool(o < 0)
        return mkbool(self.z >= lift(o))

    # -- conversions -------------------------------------------------------
    def __floor__(self): return floor_(self)
    def __ceil__(self): return -floor_(-self)
    def __trunc__(self): return trunc(self)

    def __round__(self, nd=None):
        if nd:
            p = 10 ** nd
            return round_(self * p) / p
        r = round_(self)
        return r if nd is None else to_float(r)

    def is_integer(self):
        return EQ(self, floor_(self))

    def item(self):
        return self

    def conjugate(self):
        return self

    def astype(self, t):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    def __repr__(self):
        return "SymNum(%s)" % short(self.z)

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


SYM = (SymBool, SymNum)


def isconst(o):
    return isinstance(o, _NUM)


def isnum(o):
    return isinstance(o, _NUM) or isinstance(o, SYM)


def conc(o):
    return ENGINE.concretize(num(o)) if isinstance(o, SYM) else o


def is_lit(z):
    return z3.is_int_value(z) or z3.is_rational_value(z)


def toreal(z):
    return z3.ToReal(z) if z.is_int() else z


_intcache = {}


def lift(v):
    if isinstance(v, SymNum):
        return v.z
    if isinstance(v, SymBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        r = _intcache.get(v)
        if r is None:
            r = _intcache[v] = z3.IntVal(v)
        return r
    if isinstance(v, (float, np.floating)):
        v = Fraction(float(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise TypeError("cannot lift %r" % (v,))


def num(v):
    """A numeric view (booleans become 0/1)."""
    if isinstance(v, SymBool):
        return mknum(lift(v))
    return v


def mknum(z):
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return SymNum(z)


def simp(z):
    return z3.simplify(z)


def mkbool(z):
    if isinstance(z, bool):
        return z
    z = z3.simplify(z)
    if is_true(z):
        return True
    if is_false(z):
        return False
    return SymBool(z)


def tobool(v):
    """z3 Bool of a truth value (python bool, SymBool or number)."""
    if isinstance(v, SymBool):
        return v.z
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, SymNum):
        return tobool(v != 0)
    if isinstance(v, _NUM):
        return TRUE if v else FALSE
    raise TypeError("not a truth value: %r" % (v,))


def wrapbool(z):
    if is_true(z):
        return True
    if is_false(z):
        return False
    return SymBool(z)


def NOT(v):
    z = tobool(v)
    if is_true(z):
        return False
    if is_false(z):
        return True
    if is_not(z):
        return SymBool(z.arg(0))
    return SymBool(z3.Not(z))


def _flat(vs):
    out = []
    for v in vs:
        if isinstance(v, (list, tuple)) or hasattr(v, "__next__"):
            out.extend(_flat(v))
        else:
            out.append(v)
    return out


def AND(*vs):
    zs = []
    seen = set()
    for v in _flat(vs):
        z = tobool(v)
        if is_false(z):
            return False
        if is_true(z) or z.get_id() in seen:
            continue
        seen.add(z.get_id())
        zs.append(z)
    if not zs:
        return True
    if len(zs) == 1:
        return SymBool(zs[0])
    return SymBool(z3.And(zs))


def OR(*vs):
    zs = []
    seen = set()
    for v in _flat(vs):
        z = tobool(v)
        if is_true(z):
            return True
        if is_false(z) or z.get_id() in seen:
            continue
        seen.add(z.get_id())
        zs.append(z)
    if not zs:
        return False
    if len(zs) == 1:
        return SymBool(zs[0])
    return SymBool(z3.Or(zs))


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return mkbool(tobool(a) == tobool(b))


def EQ(a, b):
    if isinstance(a, SYM) or isinstance(b, SYM):
        if isinstance(a, SymBool) and isinstance(b, (SymBool, bool, np.bool_)):
            return a == b
        if isinstance(b, SymBool) and isinstance(a, (bool, np.bool_)):
            return b == a
        if isinstance(a, SYM):
            return num(a) == num(b)
        return num(b) == num(a)
    r = a == b
    return bool(r)


def ITE(c, a, b):
    """if c then a else b, for scalar values."""
    zc = tobool(c)
    if is_true(zc):
        return a
    if is_false(zc):
        return b
    if a is b:
        return a
    ab = isinstance(a, (bool, np.bool_, SymBool))
    bb = isinstance(b, (bool, np.bool_, SymBool))
    if ab and bb:
        za, zb = tobool(a), tobool(b)
        if za.eq(zb):
            return a
        if is_true(za):
            return OR(c, b)
        if is_false(za):
            return AND(NOT(c), b)
        if is_true(zb):
            return OR(NOT(c), a)
        if is_false(zb):
            return AND(c, a)
        return SymBool(z3.If(zc, za, zb))
    za, zb = lift(a), lift(b)
    if za.is_int() != zb.is_int():
        za, zb = toreal(za), toreal(zb)
    if za.eq(zb):
        return mknum(simp(za)) if not isconst(a) else a
    return SymNum(z3.If(zc, za, zb))


def SUM(vs):
    r = 0
    for v in vs:
        r = r + num(v)
    return r


def floor_(v):
    if isinstance(v, SymNum):
        if v.isint:
            return v
        return mknum(simp(z3.ToInt(v.z)))
    if isinstance(v, SymBool):
        return num(v)
    return math.floor(v)


def trunc(v):
    if isinstance(v, SymBool):
        return num(v)
    if isinstance(v, SymNum):
        if v.isint:
            return v
        return mknum(z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))
    return int(v)


def round_(v):
    """Python's round-half-even to an integer."""
    if isinstance(v, SymBool):
        return num(v)
    if isinstance(v, SymNum):
        if v.isint:
            return v
        h = simp(v.z + z3.Q(1, 2))
        r = z3.ToInt(h)
        tie = z3.And(z3.ToReal(r) == h, r % 2 == 1)
        return mknum(z3.If(tie, r - 1, r))
    return round(v)


def to_float(v):
    if isinstance(v, SymBool):
        v = num(v)
    if isinstance(v, SymNum):
        return SymNum(toreal(v.z)) if v.isint else v
    return v


def sqrt_(v):
    return ENGINE.sqrt(v)


class Opt:
    """A conditionally present element of a list, set or dict (value)."""
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g = g          # SymBool
        self.v = v

    def __repr__(self):
        return "Opt(%s: %r)" % (short(self.g.z), self.v)


def mkopt(g, v):
    if isinstance(v, Opt):
        g, v = AND(g, v.g), v.v
    if g is True:
        return v
    return Opt(g, v)


def guard_of(e):
    return e.g if isinstance(e, Opt) else True


def val_of(e):
    return e.v if isinstance(e, Opt) else e


class Phi:
    """Lazy union: `a` if cond else `b`; resolved by a fork when looked into."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "Phi(%s ? %r : %r)" % (short(self.c.z), self.a, self.b)

    def resolve(self):
        v = self
        while isinstance(v, Phi):
            v = v.a if ENGINE.decide(v.c.z) else v.b
        return v

    # harness-side (native) convenience: looking into it resolves it
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.resolve(), n)

    def __iter__(self):
        return iter(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __getitem__(self, i):
        return self.resolve()[i]

    def __bool__(self):
        return bool(self.resolve())

    def __index__(self):
        return self.resolve().__index__()

    def __call__(self, *a, **k):
        return self.resolve()(*a, **k)

    def __eq__(self, o):
        return self.resolve() == o

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(self.resolve())


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt", "ge", "neg", "mod", "floordiv"):
    def _mk(n):
        nm = "__%s__" % n

        def f(self, *a):
            import operator
            base = self.resolve()
            if n.startswith("r"):
                return getattr(operator, n[1:])(a[0], base)
            return getattr(operator, n)(base, *a)
        f.__name__ = nm
        return f
    setattr(Phi, "__%s__" % _n, _mk(_n))


def resolve(v):
    return v.resolve() if isinstance(v, Phi) else v


def contains_marker(v, depth=0):
    """True if v is/contains an Opt or Phi (one container level deep)."""
    if isinstance(v, (Opt, Phi)):
        return True
    if depth < 3:
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(contains_marker(x, depth + 1) for x in v)
        if isinstance(v, dict):
            return any(contains_marker(x, depth + 1) for x in v.values())
    return False


def tobool_(v):
    if isinstance(v, SYM):
        return wrapbool(tobool(v))
    return bool(v)


def single(v):
    """v as a 32-bit float; exact for values in [1, 2), others are kept"""
    if isinstance(v, SymBool):
        v = num(v)
    if isinstance(v, SymNum):
        if v.isint:
            return SymNum(toreal(v.z))
        return mknum(z3.If(z3.And(v.z >= 1, v.z < 2), z3.ToReal(z3.ToInt(v.z * 2 ** 23 + z3.Q(1, 2))) / 2 ** 23, v.z))
    return float(np.float32(v))


def narrow(bits, signed):
    """conversion to an integer type of so many bits, which wraps around"""
    off = 2 ** (bits - 1) if signed else 0

    def f(v):
        v = trunc(v)
        if isinstance(v, SymNum):
            return mknum((v.z + off) % 2 ** bits - off)
        return (v + off) % 2 ** bits - off
    return f


CONV = {"i": lambda v: trunc(v), "f": lambda v: to_float(v), "f4": single, "b": tobool_}
for _bits in (8, 16, 32):
    CONV["i%d" % (_bits // 8)] = narrow(_bits, True)
    CONV["u%d" % (_bits // 8)] = narrow(_bits, False)
CONV["u8"] = narrow(64, False)


def kind_of(t):
    """the element kind of a numpy type argument, None when it keeps objects"""
    if t is None or t is object or isinstance(t, str) and t == "numeric":
        return None
    try:
        t = np.dtype(t)
    except TypeError:
        return None
    if t.kind in "iu":
        return "i" if t == np.dtype(int) else "%s%d" % (t.kind, t.itemsize)
    if t.kind == "f":
        return "f" if t.itemsize >= 8 else "f4"
    return "b" if t.kind == "b" else None


class SymArr(np.ndarray):
    """Object ndarray whose comparisons stay symbolic (no implicit bool())."""

    def __new__(cls, data):
        a = np.empty(np.shape(data) if not isinstance(data, np.ndarray) else data.shape, dtype=object)
        src = np.array(data, dtype=object) if not isinstance(data, np.ndarray) else data
        a[...] = src
        return a.view(cls)

    _kind = None        # of the element type, where the code asked for one

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", None)

    def kept(self, v):
        """v as this array stores it"""
        f = CONV.get(self._kind)
        if f is None:
            return v
        if isinstance(v, (list, tuple, np.ndarray)):
            v = np.array(v, dtype=object)
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                out[i] = f(v[i])
            return out
        return f(v)

    def __setitem__(self, i, v):
        np.ndarray.__setitem__(self, i, self.kept(v))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [np.asarray(i, dtype=object) if isinstance(i, np.ndarray) else i for i in inputs]
        out = kw.pop("out", None)
        if ufunc in _OBJ_UFUNC and method in ("__call__", "reduce"):
            f, n = _OBJ_UFUNC[ufunc]
            if method == "__call__":
                r = np.frompyfunc(f, n, 1)(*ins)
            else:
                a, axis = np.asarray(ins[0], dtype=object), kw.get("axis", 0)
                if ufunc in _IDENTITY:
                    keep = {"keepdims": True} if kw.get("keepdims") else {}
                    r = np.frompyfunc(f, 2, 1, identity=_IDENTITY[ufunc]).reduce(a, axis=axis, **keep)
                else:
                    r = np.frompyfunc(f, 2, 1).reduce(a, axis=axis)
        else:
            kw.pop("dtype", None)
            r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            out[0][...] = r
            return out[0]
        if isinstance(r, np.ndarray):
            return r.view(SymArr) if r.dtype == object else r
        return r

    def __reduce__(self):
        return (SymArr, (np.asarray(self, dtype=object),))


_OBJ_UFUNC = {
    np.equal: (lambda a, b: EQ(a, b), 2),
    np.not_equal: (lambda a, b: NOT(EQ(a, b)), 2),
    np.less: (lambda a, b: a < b, 2),
    np.less_equal: (lambda a, b: a <= b, 2),
    np.greater: (lambda a, b: a > b, 2),
    np.greater_equal: (lambda a, b: a >= b, 2),
    np.logical_and: (lambda a, b: AND(a, b), 2),
    np.logical_or: (lambda a, b: OR(a, b), 2),
    np.logical_not: (lambda a: NOT(a), 1),
    np.bitwise_and: (lambda a, b: a & b, 2),
    np.bitwise_or: (lambda a, b: a | b, 2),
    np.invert: (lambda a: NOT(a) if isinstance(a, (bool, np.bool_, SymBool)) else ~a, 1),
    np.absolute: (lambda a: abs(a), 1),
    np.floor: (lambda a: floor_(a), 1),
}


_IDENTITY = {np.logical_and: True, np.logical_or: False}


def toarr(data):
    return SymArr(data)
