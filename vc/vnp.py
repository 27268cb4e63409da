"""numpy / math / scipy as seen by the instrumented code: mathematical
functions over exact reals and arrays of symbolic shape.  Calls without any
symbolic argument go to the real library."""
import builtins
import math as _math
import cmath as _cmath
from fractions import Fraction
import numpy as _np
from . import terms as t_
from .engine import ENG, Unsupported, Infeasible, ELEM_FACTS
from . import solver as S
from .sym import (FlatSeq, SV, SB, SC, SArr, SSeq, SMap, SView, is_sym, isnum, iscplx, num, axis_var, dim_term, mkdim,
                  mkbinder, subst_val, subst_any, as_scalar, ite_val, bv, bterm, numv, sum_value, lift_term, same_dim,
                  t_abs, t_floor, t_pow, special_num, nonfinite, merge_values)

R, I, B = t_.R, t_.I, t_.B
PI = SV(t_.app("pi"))


def deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, SView):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(deep_sym(e) for e in x)
    if isinstance(x, dict):
        return builtins.any(deep_sym(e) for e in x.values())
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return builtins.any(deep_sym(e) for e in x.flat)
    return False


def native(f):
    """use the numpy function of the same name unless an argument is symbolic"""
    import functools
    nf = getattr(_np, f.__name__.rstrip("_"), None)

    @functools.wraps(f)
    def g(*a, **k):
        if not (builtins.any(deep_sym(x) for x in a) or builtins.any(deep_sym(x) for x in k.values())) and nf is not None:
            return nf(*[dtfix(x) for x in a], **{q: dtfix(x) for q, x in k.items()})
        return f(*a, **k)
    return g


def dtfix(x):
    return _np.float64 if x is float64 else _np.complex128 if x is complex128 else x


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.float64, SV))

    def __getattr__(cls, n):
        return getattr(_np.float64, n)


class float64(metaclass=_F64Meta):
    def __new__(cls, x=0.0):
        if isinstance(x, SV):
            return toreal(x)
        if isinstance(x, SB):
            return x._num()
        if isinstance(x, (SArr, SSeq)):
            return x
        return num(float(x)) if not nonfinite(x) else float(x)


class _C128Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.complex128, SC))


class complex128(metaclass=_C128Meta):
    def __new__(cls, x=0.0):
        return SC.of(x)


def kind_of(dtype):
    if dtype is None:
        return None
    if dtype in (float, float64, _np.float64, "float", "float64", _np.double, _np.float32) or dtype is builtins.float:
        return "f"
    if dtype in (int, "int", _np.int64, _np.int32) or dtype is builtins.int:
        return "i"
    if dtype in (complex, complex128, _np.complex128, "complex"):
        return "c"
    if dtype in (bool, _np.bool_, "bool"):
        return "b"
    if dtype in (object, "object"):
        return "o"
    n = getattr(dtype, "__name__", None)
    if n in ("float", "VFloat"):
        return "f"
    if n in ("int", "VInt"):
        return "i"
    try:
        return {"f": "f", "i": "i", "c": "c", "b": "b", "O": "o", "u": "i"}[_np.dtype(dtype).kind]
    except Exception:
        raise Unsupported("dtype %r" % (dtype,))


def toreal(v):
    if isinstance(v, SB):
        v = v._num()
    if isinstance(v, SV) and v.t.sort == I:
        return SV(t_.num(v.t.data, R)) if v.t.op == "num" else SV(t_.mk("app", (v.t,), "toreal", R))
    return v


def cast(v, k):
    """scalar cast"""
    if k is None or k == "o":
        return v
    if k == "f":
        if isinstance(v, SC):
            raise TypeError("can't convert complex to float")
        return toreal(v)
    if k == "c":
        return SC.of(numv(v))
    if k == "i":
        v = numv(v)
        if isinstance(v, SV) and v.t.sort == R:
            return to_int(v)
        return v
    if k == "b":
        return bv(v)


def to_int(v):
    """truncation"""
    t = v.t
    if t.sort == I:
        return v
    if t.op == "num":
        return SV(t_.num(int(t.data)))
    return SV(t_.ite(t_.le(t_.RZERO, t), t_floor(t), t_.neg(t_floor(t_.neg(t)))))


def arr_like(x, f):
    """apply an elementwise function to anything array-like"""
    if isinstance(x, (SArr, list, tuple, _np.ndarray, SSeq)):
        a = SArr.of(x)
        return SArr(a.shape, as_scalar(f(a.val)), a.filt)
    if isnum(x) or iscplx(x):
        return f(as_scalar(x))
    raise TypeError("unsupported operand %s" % type(x).__name__)


# elementwise functions --------------------------------------------------------

def _fn(name, cplx=None):
    npf = getattr(_np, {"atan": "arctan", "asin": "arcsin", "acos": "arccos", "atanh": "arctanh", "asinh": "arcsinh", "acosh": "arccosh"}.get(name, name), None)

    def g(x, *a, **k):
        if not deep_sym(x) and npf is not None:
            if not (isnum(x) and isinstance(x, (int, float, Fraction))):
                return npf(x, *a, **k)
        def one(v):
            v = numv(v)
            if isinstance(v, SC):
                if v.im.t.op == "num" and v.im.t.data == 0 and cplx is None:
                    return SC(one(v.re), num(0.0))
                if cplx is None:
                    raise Unsupported("complex %s" % name)
                return cplx(v)
            return SV(t_.fn1(name, t_real(v.t)))
        r = arr_like(x, one)
        return apply_where(r, k)
    g.__name__ = name
    return g


def apply_where(r, k):
    if "where" in k and k["where"] is not True:
        c = k["where"]
        o = k.get("out")
        if o is None:
            raise Unsupported("where= without out=")
        r2 = where(c, r, o)
        if isinstance(o, SArr):
            o.val = r2.val
            return o
        return r2
    if k.get("out") is not None:
        o = k["out"]
        o._inplace(SArr.bcast(r, o) and SArr.of(r))
        return o
    return r


def t_real(t):
    if t.sort == I:
        return t_.num(t.data, R) if t.op == "num" else t_.mk("app", (t,), "toreal", R)
    return t


def _holds(c):
    """is the condition implied by the present path (a short attempt)"""
    from .engine import ENG
    from . import solver as S
    if not ENG.frames or c is t_.TRUE or c is t_.FALSE:
        return c is t_.TRUE
    if c.id in ENG.pcset:
        return True
    key = (c.id, len(ENG.pc), ENG.pc[-1].id if ENG.pc else 0)
    if key not in _HOLDS:
        _HOLDS[key] = S.prove_goal(list(ENG.pc), c, None, 1000)[0]
    return _HOLDS[key]


_HOLDS = {}


def csqrt(v):
    """principal square root of a complex number"""
    re, im = v.re, v.im
    if im.t.op == "num" and im.t.data == 0:
        # real argument: sqrt(x) or i sqrt(-x)
        c = t_.le(t_.RZERO, re.t)
        if c.op != "bool" and _holds(c):
            return SC(SV(t_.sqrt(re.t)), SV(t_.RZERO))
        s = SV(t_.sqrt(re.t))
        n = SV(t_.sqrt(t_.neg(re.t)))
        return SC(SV(t_.ite(c, s.t, t_.RZERO)), SV(t_.ite(c, t_.RZERO, n.t)))
    m = SV(t_.sqrt((re * re + im * im).t))
    a = SV(t_.sqrt(((m + re) / 2).t))
    b = SV(t_.sqrt(((m - re) / 2).t))
    return SC(a, SV(t_.ite(t_.le(t_.RZERO, im.t), b.t, (-b).t)))


def cexp(v):
    e = SV(t_.fn1("exp", v.re.t))
    return SC(e * SV(t_.fn1("cos", v.im.t)), e * SV(t_.fn1("sin", v.im.t)))


def clog(v):
    m = v.re * v.re + v.im * v.im
    return SC(SV(t_.fn1("log", m.t)) / 2, SV(t_.app("atan2", v.im.t, v.re.t)))


def _sqrt1(v):
    v = numv(v)
    if isinstance(v, SC):
        return csqrt(v)
    return SV(t_.sqrt(v.t))


def sqrt(x, *a, **k):
    if not deep_sym(x) and not isinstance(x, (int, float, Fraction)):
        return _np.sqrt(x, *a, **k)
    return apply_where(arr_like(x, _sqrt1), k)


exp = _fn("exp", cexp)
log = _fn("log", clog)
sin = _fn("sin")
cos = _fn("cos")
tan = _fn("tan")
arctan = _fn("atan")
arcsin = _fn("asin")
arccos = _fn("acos")
sinh = _fn("sinh")
cosh = _fn("cosh")
tanh = _fn("tanh")
arctanh = _fn("atanh")
arcsinh = _fn("asinh")
arccosh = _fn("acosh")
erf = _fn("erf")
cbrt = _fn("cbrt")


def log10(x):
    return log(x) / log(10)


def log2(x):
    return log(x) / log(2)


def log1p(x):
    return log(1 + x)


def expm1(x):
    return exp(x) - 1


def exp2(x):
    return arr_like(x, lambda v: num(2) ** v)


def abs(x, *a, **k):
    if not deep_sym(x):
        return _np.abs(x)
    return arr_like(x, lambda v: builtins.abs(numv(v)))


absolute = fabs = abs


def square(x):
    return x * x if not isinstance(x, (list, tuple)) else SArr.of(x) * SArr.of(x)




def hypot(a, b):
    return sqrt(square(a) + square(b))


def arctan2(a, b):
    return _bin(a, b, lambda x, y: SV(t_.app("atan2", numv(x).t, numv(y).t)))


def A(x):
    return SArr.of(x) if isinstance(x, (list, tuple)) else x


def _bin(a, b, f):
    if not isinstance(a, (SArr, list, tuple, _np.ndarray, SSeq)) and not isinstance(b, (SArr, list, tuple, _np.ndarray, SSeq)):
        return f(as_scalar(a), as_scalar(b))
    sh, x, y, filt = SArr.bcast(a, b)
    return SArr(sh, as_scalar(f(x, y)), filt)


def _lift2(op):
    import operator as o
    f = getattr(o, op)
    npn = {"truediv": "true_divide", "floordiv": "floor_divide", "mod": "remainder", "mul": "multiply", "sub": "subtract", "pow": "power", "eq": "equal", "ne": "not_equal", "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal"}.get(op, op)

    def g(a, b, *r, **k):
        if not deep_sym(a) and not deep_sym(b) and not deep_sym(k):
            return getattr(_np, npn)(a, b, *r, **k)
        if isinstance(a, _np.ndarray) and a.ndim:
            c = constval(b) if a.size > 64 else None
            if c is not None:
                if op in ("eq", "ne"):      # numbers that differ by rounding only are the same number
                    same = _np.isclose(a, c, rtol=4e-16, atol=0)
                    return same if op == "eq" else ~same
                return getattr(_np, npn)(a, c)
            a = SArr.of(a)
        if isinstance(b, _np.ndarray) and b.ndim:
            c = constval(a) if b.size > 64 else None
            if c is not None:
                return getattr(_np, npn)(c, b)
            b = SArr.of(b)
        return apply_where(f(lst(a), lst(b)), k)
    return g


def constval(x):
    """float value of a closed term"""
    if isinstance(x, SV) and not t_.fv(x.t):
        from . import solver as S
        try:
            return float(S.evaluate(x.t, {}))
        except S.EvalError:
            return None
    return None


def lst(x):
    if isinstance(x, (list, tuple, SSeq)):
        return SArr.of(x)
    if isinstance(x, (int, float, complex)) and not isinstance(x, bool) and not nonfinite(x):
        return as_scalar(x)
    return x


add = _lift2("add")
subtract = _lift2("sub")
multiply = _lift2("mul")
true_divide = divide = _lift2("truediv")
floor_divide = _lift2("floordiv")
remainder = mod = _lift2("mod")
power = _lift2("pow")
float_power = power
less = _lift2("lt")
less_equal = _lift2("le")
greater = _lift2("gt")
greater_equal = _lift2("ge")
equal = _lift2("eq")
not_equal = _lift2("ne")


def negative(a):
    return -A(a)


def positive(a):
    return A(a)


def reciprocal(a):
    return 1 / A(a)


def sign(x):
    return arr_like(x, lambda v: SV(t_.ite(t_.lt(t_.RZERO, v.t), t_.RONE, t_.ite(t_.lt(v.t, t_.RZERO), t_.num(Fraction(-1)), t_.RZERO))))


def heaviside(x, h):
    return _bin(x, h, lambda v, w: SV(t_.ite(t_.lt(t_.RZERO, v.t), t_.RONE, t_.ite(t_.lt(v.t, t_.RZERO), t_.RZERO, numv(w).t))))


def minmax(a, b, mx):
    if nonfinite(a) or nonfinite(b):
        x, o = (a, b) if nonfinite(a) else (b, a)
        if x != x:
            raise Unsupported("min/max with nan")
        if (x > 0) == mx:
            return x
        return o
    def f(x, y):
        x, y = numv(x), numv(y)
        c = t_.le(y.t, x.t) if mx else t_.le(x.t, y.t)
        if ENG.frames and not builtins.any(v.data.startswith("\u03b2") or v.sort == t_.I for v in t_.fv(c)) and S.t_size(c) < 400:
            k = ENG.settle(c)
            if k is not None:
                return x if k else y
        return SV(t_.ite(c, x.t, y.t))
    return _bin(a, b, f)


def maximum(a, b, *r, **k):
    if not deep_sym(a) and not deep_sym(b):
        return _np.maximum(a, b, *r, **k)
    return minmax(a, b, True)


def minimum(a, b, *r, **k):
    if not deep_sym(a) and not deep_sym(b):
        return _np.minimum(a, b, *r, **k)
    return minmax(a, b, False)


fmax, fmin = maximum, minimum


@native
def clip(x, a_min=None, a_max=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    if a_min is not None:
        x = maximum(x, a_min)
    if a_max is not None:
        x = minimum(x, a_max)
    return x


def logical_and(a, b, *r):
    return _bin(a, b, lambda x, y: bv(x) & bv(y))


def logical_or(a, b, *r):
    return _bin(a, b, lambda x, y: bv(x) | bv(y))


bitwise_and, bitwise_or = logical_and, logical_or


def logical_not(a):
    return arr_like(a, lambda x: ~bv(x))


invert = bitwise_not = logical_not


def _red(name):
    class _U:
        __name__ = name

        def __call__(self, a, b, *r, **k):
            return globals()[name + "_"](a, b, *r, **k)

        @staticmethod
        def reduce(xs, *a, **k):
            xs = list(xs)
            r = xs[0]
            for x in xs[1:]:
                r = globals()[name + "_"](r, x)
            return r
    return _U()


logical_and_, logical_or_ = logical_and, logical_or
logical_and, logical_or = _red("logical_and"), _red("logical_or")


def isnan(x):
    if not deep_sym(x):
        return _np.isnan(x)
    return arr_like(x, lambda v: SB(t_.TRUE if has_nan(v.t) else t_.FALSE) if isinstance(v, SV) else SB(t_.FALSE))


def has_nan(t):
    """the undefined number in a place where it makes the value undefined"""
    if t.op == "var":
        return t.data == "<nan>"
    return t.op in ("add", "mul", "div", "pow") and builtins.any(has_nan(a) for a in t.args)


def isinf(x):
    if not deep_sym(x):
        return _np.isinf(x)
    return arr_like(x, lambda v: SB(t_.FALSE))


def isfinite(x):
    if not deep_sym(x):
        return _np.isfinite(x)
    return arr_like(x, lambda v: SB(t_.TRUE))


def nan_to_num(x, *a, **k):
    return x if deep_sym(x) else _np.nan_to_num(x, *a, **k)


@native
def where(c, *ab):
    if not ab:
        c = SArr.of(c)
        if c.ndim != 1 or c.filt is not None or not isinstance(c.shape[0], int):
            raise Unsupported("np.where with a single argument")
        return (_np.array([j for j in range(c.shape[0]) if ENG.decide(bterm(c[j]))], dtype=int),)
    a, b = [special_num(v) if nonfinite(v) else v for v in ab]
    if not isinstance(c, (SArr, list, tuple, _np.ndarray)) and not isinstance(a, (SArr, list, tuple, _np.ndarray)) and not isinstance(b, (SArr, list, tuple, _np.ndarray)):
        return SArr((), ite_val(bterm(c), as_scalar(a), as_scalar(b)))
    sh1, x, y, f1 = SArr.bcast(a, b)
    sh, cv, _, f2 = SArr.bcast(c, SArr(sh1, x, f1))
    cx = SArr.bcast(SArr(sh1, x, f1), SArr(sh, as_scalar(cv), f2))[1]
    cy = SArr.bcast(SArr(sh1, y, f1), SArr(sh, as_scalar(cv), f2))[1]
    return SArr(sh, ite_val(bterm(cv), as_scalar(cx), as_scalar(cy)), f2)


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def piecewise(x, conds, funcs, *a, **k):
    x = SArr.of(x)
    conds = list(conds) if isinstance(conds, (list, tuple)) else [conds]
    if len(funcs) == len(conds) + 1:
        r = funcs[-1](x) if callable(funcs[-1]) else full_like(x, funcs[-1])
    else:
        r = zeros_like(x)
    for c, f in zip(conds, funcs):
        r = where(c, f(x) if callable(f) else f, r)
    return r


# construction -------------------------------------------------------------------

def array(x, dtype=None, copy=True, ndmin=0, **k):
    dtype = dtfix(dtype)
    if not deep_sym(x):
        if isinstance(x, (list, tuple)) and builtins.any(callable(e) for e in x):
            return _np.array(x, dtype=object)
        return _np.array(x, dtype=dtype if dtype is not float64 else float)
    kd = kind_of(dtype)
    n = leaves(x)
    if n is not None and n > 16 and kd in (None, "f"):
        return _np.array(tofloat(x), dtype=float)
    if isinstance(x, (list, tuple)) and builtins.any(isinstance(e, (list, tuple, SSeq)) for e in x):
        x = [array(e) if isinstance(e, (list, tuple, SSeq)) else e for e in x]
    a = SArr.of(x)
    return SArr(a.shape, promote(cast(a.val, kd) if kd else a.val), a.filt)


def leaves(x):
    """number of leaves of a nested list of real constants, else None"""
    if isinstance(x, SV):
        return 1 if x.t.op == "num" and x.t.sort == R else None
    if isinstance(x, (float, _np.floating)):
        return 1
    if isinstance(x, int) and not isinstance(x, bool):
        return 1
    if isinstance(x, (list, tuple)):
        n = 0
        for e in x:
            k = leaves(e)
            if k is None:
                return None
            n += k
        return n
    if isinstance(x, _np.ndarray) and x.dtype == float:
        return x.size
    return None


def tofloat(x):
    if isinstance(x, (list, tuple)):
        return [tofloat(e) for e in x]
    if isinstance(x, SV):
        return float(x.t.data)
    return x


def promote(v):
    return v


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and kind_of(dtype) in (None, "f") and not (isinstance(x.val, SV) and x.val.t.sort == I and kind_of(dtype) == "f"):
        return x
    return array(x, dtype)


asanyarray = ascontiguousarray = asfarray = asarray


def atleast_1d(*xs):
    if len(xs) > 1:
        return [atleast_1d(x) for x in xs]
    x = xs[0]
    if not deep_sym(x):
        return _np.atleast_1d(x)
    a = SArr.of(x)
    return SArr((1,), a.val) if a.ndim == 0 else a


def atleast_2d(x):
    if not deep_sym(x):
        return _np.atleast_2d(x)
    a = atleast_1d(x)
    return a[None, :] if a.ndim == 1 else a


def shp(shape):
    if isinstance(shape, (int, _np.integer, SV)):
        return (shape,)
    if isinstance(shape, SArr):
        return tuple(shape)
    return tuple(shape)


def dflt(v, dtype):
    k = kind_of(dtype)
    if k in (None, "f"):
        return toreal(as_scalar(v))
    return cast(as_scalar(v), k)


def zeros(shape, dtype=None, **k):
    return SArr(shp(shape), dflt(0, dtype))


def ones(shape, dtype=None, **k):
    return SArr(shp(shape), dflt(1, dtype))


def empty(shape, dtype=None, **k):
    return SArr(shp(shape), SV(t_.fresh("empty")))


def full(shape, v, dtype=None, **k):
    return SArr(shp(shape), cast(as_scalar(v), kind_of(dtype)))


def like(a, v, dtype):
    a = SArr.of(a)
    if dtype is None:
        if isinstance(a.val, SC):
            v = SC.of(v)
        elif isinstance(a.val, SB):
            v = bv(v)
        elif isinstance(a.val, SV) and a.val.t.sort == R:
            v = toreal(as_scalar(v))
        else:
            v = to_int(as_scalar(v))
        return SArr(a.shape, v, a.filt)
    return SArr(a.shape, dflt(v, dtype), a.filt)


def zeros_like(a, dtype=None, **k):
    if k.get("shape") is not None:
        return zeros(k["shape"], dtype)
    return like(a, 0, dtype)


def ones_like(a, dtype=None, **k):
    return like(a, 1, dtype)


def full_like(a, v, dtype=None, **k):
    if isinstance(v, (SArr, list, _np.ndarray)) and SArr.of(v).ndim:
        return broadcast_to(v, SArr.of(a).shape)
    if nonfinite(v):
        return SArr(SArr.of(a).shape, special_num(v), SArr.of(a).filt)
    return like(a, v, dtype)


def empty_like(a, dtype=None, **k):
    a = SArr.of(a)
    return SArr(a.shape, SV(t_.fresh("empty")))


def arange(*a, **k):
    if not deep_sym(a):
        return _np.arange(*a, **{q: dtfix(v) for q, v in k.items()})
    a = [as_scalar(x) for x in a]
    if builtins.all(isinstance(x, SV) and x.t.op == "num" and x.t.data.denominator == 1 for x in a) and len(a) == 1:
        return SArr.of([num(i) for i in range(int(a[0].t.data))])
    if len(a) == 1:
        return SArr((a[0],), SV(axis_var(0)))
    if len(a) == 2:
        return SArr((a[1] - a[0],), SV(t_.add(a[0].t, axis_var(0))))
    raise Unsupported("arange")


def linspace(a, b, n=50, endpoint=True, **k):
    n = k.get("num", n)
    if not deep_sym([a, b, n]):
        return _np.linspace(a, b, n, endpoint=endpoint)
    i = SV(t_.mk("app", (axis_var(0),), "toreal", R))
    nn = SV(lift_term(n)) if not isinstance(n, SV) else n
    den = nn - 1 if endpoint else nn
    if isinstance(n, SV) and n.t.sort == R:
        raise TypeError("'float' object cannot be interpreted as an integer")
    a, b = toreal(as_scalar(a)), toreal(as_scalar(b))
    v = a + (b - a) * i / toreal(den)
    if "opaque_linspace" in HOOKS:
        # the nodes are generalised to an arbitrary function of the arguments
        from . import solver as _S
        _S.FN_IMPL["linspace"] = lambda x, y, d, j: x + (y - x) * j / d
        v = SV(t_.app("linspace", a.t, b.t, t_real(lift_term(den)), i.t))
    r = SArr((n,), v)
    if k.get("retstep"):
        return r, (b - a) / toreal(den)
    return r


def geomspace(a, b, n=50, endpoint=True, **k):
    n = k.get("num", n)
    if not deep_sym([a, b, n]):
        return _np.geomspace(a, b, n)
    i = t_.mk("app", (axis_var(0),), "toreal", R)
    a, b = toreal(as_scalar(a)), toreal(as_scalar(b))
    nt = lift_term(n)
    from . import solver as _S
    from .engine import ELEM_FACTS, PAIR_FACTS
    _S.FN_IMPL["geomspace"] = lambda x, y, d, j: x * (y / x) ** (j / (d - 1)) if d > 1 else x
    ELEM_FACTS["geomspace"] = _geom_facts
    PAIR_FACTS["geomspace"] = _geom_pair
    return SArr((n,), SV(t_.app("geomspace", a.t, b.t, t_real(nt), i)))


def _geom_pair(u, v):
    if u.args[:3] != v.args[:3]:
        return []
    a, b, n, i = u.args
    j = v.args[3]
    pos = t_.and_(t_.lt(t_.RZERO, a), t_.lt(a, b), t_.lt(t_.RONE, n))
    return [t_.implies(t_.and_(pos, t_.lt(i, j)), t_.lt(u, v))]


def _geom_facts(u):
    a, b, n, i = u.args
    pos = t_.and_(t_.lt(t_.RZERO, a), t_.lt(t_.RZERO, b))
    last = t_.and_(t_.eq(i, t_.sub(n, t_.RONE)), t_.lt(t_.RONE, n))
    return [t_.or_(t_.not_(t_.and_(pos, t_.eq(i, t_.RZERO))), t_.eq(u, a)), t_.or_(t_.not_(t_.and_(pos, last)), t_.eq(u, b)),
            t_.or_(t_.not_(pos), t_.lt(t_.RZERO, u))]


def logspace(a, b, n=50, endpoint=True, base=10.0, **k):
    n = k.get("num", n)
    if not deep_sym([a, b, n]):
        return _np.logspace(a, b, n)
    return geomspace(num(10) ** as_scalar(a), num(10) ** as_scalar(b), n)


def eye(n, *a, **k):
    return SArr((n, n), SV(t_.ite(t_.eq(axis_var(0), axis_var(1)), t_.RONE, t_.RZERO)))


# shape ----------------------------------------------------------------------------

def isscalar(x):
    return isinstance(x, (SV, SC, SB, Fraction)) or _np.isscalar(x)


def ndim(x):
    if isinstance(x, SArr):
        return x.ndim
    if deep_sym(x):
        return SArr.of(x).ndim
    return _np.ndim(x)


def shape(x):
    if deep_sym(x):
        return SArr.of(x).shape
    return _np.shape(x)


def size(x, axis=None):
    if deep_sym(x):
        return SArr.of(x).size if axis is None else SArr.of(x).shape[int(axis)]
    return _np.size(x, axis)


def expand_dims(x, axis):
    a = SArr.of(x)
    axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
    r = a.ndim + len(axes)
    axes = sorted(int(k) % r for k in axes)
    key = []
    for j in range(r):
        key.append(None if j in axes else slice(None))
    if a.ndim == 0:
        return SArr((1,) * r, a.val)
    return a[tuple(key)]


def masked_axes(x):
    """axes concerned by the mask; a mask on a single element can be on any of the axes of length one"""
    m = [j for j in range(x.ndim) if axis_var(x.ndim - 1 - j) in t_.fv(x.filt)]
    return m or [j for j, d in enumerate(x.shape) if one_dim(d)]


def one_dim(d):
    return isinstance(d, int) and d == 1


def squeeze(x, axis=None):
    if not isinstance(x, SArr):
        return x if not isinstance(x, _np.ndarray) else _np.squeeze(x, axis)
    if axis is None:
        axes = [j for j, d in enumerate(x.shape) if one_dim(d)]
        for j, d in enumerate(x.shape):
            if isinstance(d, SV) and ENG.decide(t_.eq(dim_term(d), t_.ONE)):
                axes.append(j)
    else:
        axes = [int(a) % x.ndim for a in (axis if isinstance(axis, tuple) else (axis,))]
        for j in axes:
            if not one_dim(x.shape[j]):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    if not axes:
        return x
    if x.filt is not None:
        mine = masked_axes(x)
        held = [j for j in axes if j in mine]
        if held and len(held) == len(mine):
            # one element, selected or not
            m = {axis_var(x.ndim - 1 - j): t_.ZERO for j in held}
            if ENG.decide(t_.subst(x.filt, m)):
                x = SArr(x.shape, x.val)
            else:
                axes = [j for j in axes if j not in held]
                if not axes:
                    return x
        elif held:
            raise Unsupported("squeeze of a masked array")
    key = tuple(0 if j in axes else slice(None) for j in range(x.ndim))
    r = x[key]
    return r if isinstance(r, SArr) else SArr((), r)


def transpose(x, axes=None):
    a = SArr.of(x)
    r = a.ndim
    axes = list(range(r))[::-1] if axes is None or axes == () else [int(k) % r for k in (axes[0] if isinstance(axes[0], (list, tuple)) else axes)]
    src = a.ivars()
    tmp = {v: t_.var("τ%d" % j, I) for j, v in enumerate(src)}
    val = subst_val(a.val, tmp)
    m = {tmp[src[ax]]: axis_var(r - 1 - j) for j, ax in enumerate(axes)}
    return SArr(tuple(a.shape[k] for k in axes), subst_val(val, m))


def moveaxis(x, s, d):
    a = SArr.of(x)
    order = [k for k in range(a.ndim) if k != int(s) % a.ndim]
    order.insert(int(d) % a.ndim, int(s) % a.ndim)
    return transpose(a, (order,))


def swapaxes(x, i, j):
    a = SArr.of(x)
    o = list(range(a.ndim))
    o[int(i)], o[int(j)] = o[int(j)], o[int(i)]
    return transpose(a, (o,))


def broadcast_to(x, shape):
    a = SArr.of(x)
    z = SArr(shp(shape), SV(t_.RZERO))
    sh, va, _, f = SArr.bcast(a, z)
    return SArr(shp(shape), as_scalar(va), f)


def broadcast_arrays(*xs):
    xs = [SArr.of(x) for x in xs]
    sh = xs[0]
    for x in xs[1:]:
        sh = SArr(SArr.bcast(sh, x)[0], SV(t_.RZERO))
    return [broadcast_to(x, sh.shape) for x in xs]


def reshape(x, shape, *rest, **k):
    a = SArr.of(x)
    sh = shp(shape) + tuple(rest)
    # only adding/removing unit axes, or flattening to/from rank one
    core_a = [d for d in a.shape if not one_dim(d)]
    core_s = [d for d in sh if not (isinstance(d, int) and d == 1)]
    neg = [j for j, d in enumerate(sh) if isinstance(d, int) and d == -1]
    if len(neg) == 1 and len(core_s) == len(core_a):
        rest_s = [d for d in core_s if not (isinstance(d, int) and d == -1)]
        cand = list(core_a)
        pos = [j for j, d in enumerate(core_s) if isinstance(d, int) and d == -1][0]
        sh = tuple(cand[pos] if isinstance(d, int) and d == -1 else d for d in sh)
        core_s = [d for d in sh if not one_dim(d)]
    elif len(neg) == 1 and not core_a:
        sh = tuple(1 if isinstance(d, int) and d == -1 else d for d in sh)
        core_s = []
    if len(core_a) == len(core_s) and builtins.all(same_dim(p, q) for p, q in zip(core_a, core_s)):
        ax = [j for j, d in enumerate(a.shape) if not one_dim(d)]
        b = a[tuple(slice(None) if j in ax else 0 for j in range(a.ndim))] if a.ndim else a
        b = SArr.of(b)
        key, it = [], 0
        for d in sh:
            key.append(None if one_dim(d) else slice(None))
        return b[tuple(key)] if b.ndim else SArr(tuple(sh), b.val)
    return reshape_general(a, sh)


def reshape_general(a, sh):
    from .sym import t_idiv, t_imod
    neg = [j for j, d in enumerate(sh) if isinstance(d, int) and d == -1]
    tot = t_.ONE
    for d in a.dims():
        tot = t_.mul(tot, d)
    if neg:
        rest = t_.ONE
        for d in sh:
            if not (isinstance(d, int) and d == -1):
                rest = t_.mul(rest, dim_term(d))
        if tot.op == "num" and rest.op == "num":
            nd = int(tot.data // rest.data)
        elif rest is t_.ONE:
            nd = mkdim(tot)
        else:
            raise Unsupported("reshape with -1")
        sh = tuple(nd if isinstance(d, int) and d == -1 else d for d in sh)
    r = len(sh)
    flat = t_.ZERO
    for j, d in enumerate(sh):
        flat = t_.add(t_.mul(flat, dim_term(d)), axis_var(r - 1 - j))
    idx = []
    rem = flat
    if a.ndim == 1:
        idx = [flat]
    else:
        for d in reversed(a.dims()):
            idx.insert(0, t_imod(rem, d))
            rem = t_idiv(rem, d)
    tmp = {v: t_.var("τ%d" % j, I) for j, v in enumerate(a.ivars())}
    val = subst_val(a.val, tmp)
    m = {tmp[v]: i for v, i in zip(a.ivars(), idx)}
    return SArr(tuple(sh), subst_val(val, m))


def ravel(x):
    a = SArr.of(x)
    if a.ndim == 1:
        return a
    return reshape(a, -1)


def concatenate(xs, axis=0, **k):
    if not deep_sym(xs):
        return _np.concatenate(xs, axis=axis)
    if isinstance(xs, SArr):
        xs = list(xs)
    arrs = [SArr.of(x) for x in xs]
    r = arrs[0].ndim
    ax = int(axis) % r
    iv = axis_var(r - 1 - ax)
    out, off, n = None, t_.ZERO, t_.ZERO
    parts = []
    for a in arrs:
        if a.filt is not None:
            raise Unsupported("concatenating masked arrays")
        parts.append((off, subst_val(a.val, {iv: t_.sub(iv, off)})))
        off = t_.add(off, a.dims()[ax])
    out = parts[-1][1]
    for j in range(len(parts) - 2, -1, -1):
        out = ite_val(t_.lt(iv, parts[j + 1][0]), as_scalar(parts[j][1]), as_scalar(out))
    sh = list(arrs[0].shape)
    sh[ax] = mkdim(off)
    return SArr(tuple(sh), as_scalar(out))


def append(a, b, axis=None):
    return concatenate([atleast_1d(a), atleast_1d(b)], 0 if axis is None else axis)


def hstack(xs):
    return concatenate([atleast_1d(x) for x in xs], axis=0 if SArr.of(atleast_1d(xs[0])).ndim == 1 else 1)


def insert(a, k, v, **kw):
    a = SArr.of(a)
    if int(k) == 0:
        return concatenate([atleast_1d(v), a])
    raise Unsupported("np.insert")


class FlatArr:
    """rows elem(k, l), k < n, l < m(k), in a single axis"""

    def __init__(self, seq, pick=lambda v: v):
        self.seq, self.pick = seq, pick

    def __getitem__(self, k):
        if k == slice(None):
            return self
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
            return FlatArr(self.seq, lambda v: SArr.of(self.pick(v))[k[1]])
        raise Unsupported("indexing a list filled by nested loops")

    def __getattr__(self, k):
        if k in ("max", "min"):
            return lambda *a, **kw: self.extremum(k)
        raise Unsupported("%s of a list filled by nested loops" % k)

    def extremum(self, kind):
        q = self.seq
        ex = _Ext(kind)
        i, j = t_.fresh("k", I), t_.fresh("k", I)
        m, elem = q.inner(i)
        inner = ex(as_scalar(self.pick(elem(j))), j, dim_term(m), None)
        return ex(inner, i, dim_term(q.n), None)


def stack(xs, axis=0):
    if isinstance(xs, FlatSeq):
        return FlatArr(xs)
    if not deep_sym(xs):
        return _np.stack(xs, axis=axis)
    a = SArr.stack(list(xs))
    return moveaxis(a, 0, int(axis) % a.ndim) if int(axis) % a.ndim else a


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], axis=0)


def column_stack(xs):
    return transpose(SArr.stack(list(xs)))


@native
def meshgrid(*xs, indexing="xy", **k):
    xs = [SArr.of(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    a, b = xs
    if indexing == "ij":
        return [broadcast_to(a[:, None], (a.shape[0], b.shape[0])), broadcast_to(b[None, :], (a.shape[0], b.shape[0]))]
    return [broadcast_to(a[None, :], (b.shape[0], a.shape[0])), broadcast_to(b[:, None], (b.shape[0], a.shape[0]))]


def flip(x, axis=None):
    a = SArr.of(x)
    ax = 0 if axis is None else int(axis) % a.ndim
    key = [slice(None)] * a.ndim
    key[ax] = slice(None, None, -1)
    return a[tuple(key)]


def take(x, k, axis=None):
    return SArr.of(x).take(k, axis)


def diff(x, **k):
    if not deep_sym(x):
        return _np.diff(x, **k)
    a = SArr.of(x)
    return a[1:] - a[:-1]


# reductions --------------------------------------------------------------------------

def reduce_axis(a, ax, f):
    """f(value, index var, size) on one axis; returns an array without it"""
    r = a.ndim
    iv = axis_var(r - 1 - ax)
    k = t_.fresh("k", I)
    val = subst_val(a.val, {iv: k})
    if a.filt is not None:
        filt = t_.subst(a.filt, {iv: k})
        val = f(val, k, dim_term(a.shape[ax]), filt)
    else:
        val = f(val, k, dim_term(a.shape[ax]), None)
    # axes before ax shift down by one
    m = {}
    for j in range(ax):
        m[axis_var(r - 1 - j)] = t_.var("τ%d" % j, I)
    val = subst_val(val, m)
    m2 = {t_.var("τ%d" % j, I): axis_var(r - 2 - j) for j in range(ax)}
    val = subst_val(val, m2)
    sh = a.shape[:ax] + a.shape[ax + 1:]
    return SArr(sh, as_scalar(val))


def reduction(x, axis, keepdims, f):
    a = SArr.of(x)
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [int(k) % a.ndim for k in (axis if isinstance(axis, (tuple, list)) else [axis])]
    if a.filt is not None and a.ndim == 1 and isinstance(f, _Ext) and all_selected(a):
        a = SArr(a.shape, a.val)
    if a.filt is not None and len(axes) != a.ndim:
        mine = masked_axes(a)
        if set(mine) & set(axes):
            if len(mine) == 1 and isinstance(f, _Sum):
                return reduction(SArr(a.shape, f.neutral(a.filt, a.val)), axis, keepdims, f)
            raise Unsupported("partial reduction of a masked array")
        # the mask concerns the remaining axes
        left = [k for k in range(a.ndim) if k not in axes]
        r = reduction(SArr(a.shape, a.val), axis, False, f)
        m = {axis_var(a.ndim - 1 - k): t_.var("τ%d" % j, I) for j, k in enumerate(left)}
        m2 = {t_.var("τ%d" % j, I): axis_var(len(left) - 1 - j) for j in range(len(left))}
        r = SArr(r.shape, r.val, t_.subst(t_.subst(a.filt, m), m2))
        return expand_dims(r, tuple(axes)) if keepdims else r
    if a.filt is not None and a.ndim > 1:
        zero = [None]
        r = a
        # push the filter into the value (sums only)
        r = SArr(a.shape, f.neutral(a.filt, a.val))
        a = r
    for ax in sorted(axes, reverse=True):
        a = reduce_axis(a, ax, f)
    if keepdims:
        a = expand_dims(a, tuple(axes))
        return a
    return a.val if a.ndim == 0 else a


class _Sum:
    kind, unit = "sum", 0

    def neutral(self, filt, val):
        return ite_val(filt, numv(val), num(self.unit) if not isinstance(val, SC) else SC.of(self.unit))

    def __call__(self, val, k, n, filt):
        val = numv(val)
        if filt is not None:
            val = self.neutral(filt, val)
        return sum_value(val, k, n, self.kind)


class _Prod(_Sum):
    kind, unit = "prod", 1


def sum(x, axis=None, dtype=None, keepdims=False, **k):
    if not deep_sym(x):
        if isinstance(x, (list, tuple)) or isinstance(x, _np.ndarray):
            return _np.sum(x, axis=axis, keepdims=keepdims)
    if isinstance(x, SView):
        return vc_sum(x)
    return reduction(x, axis, keepdims, _Sum())


nansum = sum


def prod(x, axis=None, keepdims=False, **k):
    if not deep_sym(x):
        return _np.prod(x, axis=axis)
    return reduction(x, axis, keepdims, _Prod())


def mean(x, axis=None, keepdims=False, **k):
    if not deep_sym(x):
        return _np.mean(x, axis=axis)
    a = SArr.of(x)
    if axis is None:
        n = count(a)
    else:
        n = num(1)
        for j in (axis if isinstance(axis, tuple) else (axis,)):
            n = n * a.shape[int(j)]
    s = sum(a, axis=axis, keepdims=keepdims)
    return s / toreal(as_scalar(n))


nanmean = mean


def count(a):
    if a.filt is not None:
        return sum(SArr(a.shape, num(1), a.filt))
    return as_scalar(a.size)


def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis)
    return sum(A(x) * A(weights), axis=axis) / sum(A(weights), axis=axis)


def var(x, axis=None, ddof=0, **k):
    if not deep_sym(x):
        return _np.var(x, axis=axis, ddof=ddof)
    a = SArr.of(x)
    if axis is not None and not (a.ndim == 1):
        raise Unsupported("var along an axis")
    m = mean(a)
    d = a - m
    n = toreal(as_scalar(count(a)))
    return sum(d * d) / (n - ddof)


def std(x, axis=None, ddof=0, **k):
    if not deep_sym(x):
        return _np.std(x, axis=axis, ddof=ddof)
    return sqrt(var(x, axis, ddof))


nanstd, nanvar = std, var


class _Ext:
    def __init__(self, kind):
        self.kind = kind

    def neutral(self, filt, val):
        raise Unsupported("extremum of a masked array")

    def __call__(self, val, k, n, filt):
        val = numv(val)
        if filt is not None:
            # any bound beyond every element stands for the masked ones
            val = ite_val(filt, val, SV(t_.var("<-inf>" if self.kind == "max" else "<inf>")))
        if n.op == "num" and n.data <= 16:
            r = subst_val(val, {k: t_.ZERO})
            for j in range(1, int(n.data)):
                r = minmax(r, subst_val(val, {k: t_.num(j)}), self.kind == "max")
            return r
        if k not in t_.fv(val.t):
            return val
        return SV(mkbinder(self.kind, k, t_.ZERO, n, val.t))


def max(x, axis=None, keepdims=False, **k):
    if isinstance(x, (FlatArr, FlatSeq)):
        return (FlatArr(x) if isinstance(x, FlatSeq) else x).extremum("max")
    if not deep_sym(x):
        return _np.max(x, axis=axis)
    return reduction(x, axis, keepdims, _Ext("max"))


def min(x, axis=None, keepdims=False, **k):
    if isinstance(x, (FlatArr, FlatSeq)):
        return (FlatArr(x) if isinstance(x, FlatSeq) else x).extremum("min")
    if not deep_sym(x):
        return _np.min(x, axis=axis)
    return reduction(x, axis, keepdims, _Ext("min"))


amax = nanmax = max
amin = nanmin = min


class _Quant:
    def __init__(self, kind):
        self.kind = kind

    def neutral(self, filt, val):
        c = bterm(val)
        return SB(t_.and_(filt, c) if self.kind == "any" else t_.implies(filt, c))

    def __call__(self, val, k, n, filt):
        if filt is not None:
            val = self.neutral(filt, val)
        c = bterm(val)
        if n.op == "num" and n.data <= 16:
            cs = [t_.subst(c, {k: t_.num(j)}) for j in range(int(n.data))]
            return SB(t_.and_(*cs) if self.kind == "all" else t_.or_(*cs))
        if k not in t_.fv(c):
            return SB(t_.or_(t_.le(n, t_.ZERO), c) if self.kind == "all" else t_.and_(t_.lt(t_.ZERO, n), c))
        return SB(mkbinder(self.kind, k, t_.ZERO, n, c))


def any(x, axis=None, keepdims=False, **k):
    if not deep_sym(x):
        return _np.any(x, axis=axis)
    return reduction(x, axis, keepdims, _Quant("any"))


def all(x, axis=None, keepdims=False, **k):
    if not deep_sym(x):
        return _np.all(x, axis=axis)
    return reduction(x, axis, keepdims, _Quant("all"))


def dot(a, b):
    if not deep_sym(a) and not deep_sym(b):
        return _np.dot(a, b)
    a, b = SArr.of(a), SArr.of(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return sum(a * b)
    if a.ndim == 2 and b.ndim == 1:
        return sum(a * b[None, :], axis=1)
    if a.ndim == 2 and b.ndim == 2:
        return sum(a[:, :, None] * b[None, :, :], axis=1)
    raise Unsupported("dot")


matmul = inner = dot


def outer(a, b):
    return SArr.of(a)[:, None] * SArr.of(b)[None, :]


def rows(f, y, x, axis):
    """reduce the last axis of rows selected by a mask"""
    filt = y.filt
    if y.ndim != 2 or int(axis) not in (-1, 1) or axis_var(0) in t_.fv(filt):
        raise Unsupported("partial reduction of a masked array")
    x = SArr.of(x) if x is not None else None
    if x is not None and x.filt is not None:
        if x.filt is not filt and x.ndim == 2:
            raise Unsupported("differently masked arrays")
        x = SArr(x.shape, x.val)
    r = SArr.of(f(SArr(y.shape, y.val), x))
    return SArr(r.shape, r.val, t_.subst(filt, {axis_var(1): axis_var(0)}))


def trapezoid(y, x=None, dx=1.0, axis=-1):
    if not deep_sym([y, x, dx]):
        return _np.trapezoid(y, x, dx, axis)
    y = SArr.of(y)
    if y.filt is not None and y.ndim > 1:
        return rows(lambda u, v: trapezoid(u, v, dx, axis), y, x, axis)
    if y.ndim != 1 and int(axis) not in (-1, y.ndim - 1):
        y = moveaxis(y, int(axis), -1)
    s = y[..., 1:] + y[..., :-1]
    if x is None:
        w = s * dx / 2
    else:
        x = SArr.of(x)
        w = s * (x[..., 1:] - x[..., :-1]) / 2
    return sum(w, axis=-1)


trapz = trapezoid


def all_selected(a):
    """does the mask provably select every element"""
    from . import solver as S
    k = t_.fresh("k", I)
    g = t_.subst(a.filt, {axis_var(0): k})
    A = list(ENG.pc) + [t_.le(t_.ZERO, k), t_.lt(k, dim_term(a.shape[0]))]
    return S.prove(S.with_facts(A, g), g, 3000)


def lam(a):
    """an array of rank one as a function term"""
    a = SArr.of(a)
    if a.ndim != 1:
        raise Unsupported("array of rank %d as a function argument" % a.ndim)
    if a.filt is not None and not all_selected(a):
        raise Unsupported("masked array as a table")
    k = t_.fresh("k", I)
    v = subst_val(numv(a.val), {axis_var(0): k})
    if not isinstance(v, SV):
        raise Unsupported("complex table")
    return mkbinder("lam", k, t_.ZERO, dim_term(a.shape[0]), v.t)


def interp(x, xp, fp, left=None, right=None, **k):
    if not deep_sym([x, xp, fp]):
        return _np.interp(x, xp, fp, left=left, right=right)
    lx, lf = lam(xp), lam(fp)
    ex = [lift_term(v) if v is not None else None for v in (left, right)]
    tail = [e if e is not None else t_.var("<edge>") for e in ex]
    return arr_like(x, lambda v: SV(t_.app("interp", numv(v).t, lx, lf, *tail)))


def histogram(a, bins=10, range=None, density=None, weights=None):
    if not deep_sym([a, bins, range, weights]):
        return _np.histogram(a, bins=bins, range=range, density=density, weights=weights)
    a = SArr.of(a)
    if isinstance(bins, (int, _np.integer)) or (isinstance(bins, SV)):
        if range is None:
            lo, hi = min(a), max(a)
        else:
            lo, hi = range
        edges = linspace(lo, hi, bins + 1)
    else:
        edges = SArr.of(bins)
    k = t_.fresh("k", I)
    av = subst_val(a.val, {axis_var(0): k}) if a.ndim == 1 else None
    if av is None:
        raise Unsupported("histogram of an array of rank %d" % a.ndim)
    w = SV(t_.ONE) if weights is None else subst_val(SArr.of(weights).val, {axis_var(0): k})
    nb = t_.sub(edges.dims()[0], t_.ONE)
    i = axis_var(0)
    lo_e = edges.at([i])
    hi_e = edges.at([t_.add(i, t_.ONE)])
    last = t_.eq(i, t_.sub(nb, t_.ONE))
    inside = t_.and_(t_.le(lo_e.t, av.t), t_.or_(t_.lt(av.t, hi_e.t), t_.and_(last, t_.eq(av.t, hi_e.t))))
    h = SArr((mkdim(nb),), SV(mkbinder("sum", k, t_.ZERO, a.dims()[0], t_.ite(inside, w.t, t_.RZERO if w.t.sort == R else t_.ZERO))))
    if weights is None and not density:
        h = h
    if density:
        h = h / sum(h) / diff(edges)
    return h, edges


def searchsorted(a, v, side="left", **k):
    if not deep_sym([a, v]):
        return _np.searchsorted(a, v, side=side)
    la = lam(a)
    return arr_like(v, lambda x: SV(t_.app("searchsorted_" + side, x.t, la, sort=I)))


def vectorize(f=None, *a, **k):
    if f is None:
        return lambda g: vectorize(g)
    import functools

    def g(*args, **kw):
        arrs = [x for x in list(args) + list(kw.values()) if isinstance(x, (SArr, list, tuple, _np.ndarray, SSeq))]
        excluded = k.get("excluded", set())
        if not arrs:
            r = ENG.merge(lambda: f(*args, **kw))
            return SArr((), as_scalar(r)) if isnum(r) else r
        xs = [SArr.of(x) if isnum(x) or isinstance(x, (SArr, list, tuple, _np.ndarray, SSeq)) else None for x in args]
        ks = {q: (SArr.of(x) if isnum(x) or isinstance(x, (SArr, list, tuple, _np.ndarray, SSeq)) else None) for q, x in kw.items()}
        full_ = [x for x in list(xs) + list(ks.values()) if x is not None]
        z = full_[0]
        for x in full_[1:]:
            z = SArr(SArr.bcast(z, x)[0], SV(t_.RZERO), SArr.bcast(z, x)[3])
        if k.get("otypes") is None and z.filt is not None and not bool(any(SArr(z.shape, SB(z.filt)))):
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        # the position is a fresh constant: the function may build arrays itself
        m = {v: t_.fresh("pos", I) for v in z.ivars()}

        def el(x):
            return subst_val(SArr.bcast(x, z)[1], m)
        aa = [el(x) if x is not None else y for x, y in zip(xs, args)]
        kk = {q: (el(x) if x is not None else kw[q]) for q, x in ks.items()}
        v = elementwise(lambda: f(*aa, **kk), z, m)
        return SArr(z.shape, subst_val(as_scalar(v), {w: u for u, w in m.items()}), z.filt)
    try:
        functools.update_wrapper(g, f)
    except Exception:
        pass
    return g


def elementwise(fn, z, m):
    """value of fn at a generic position m of the array z"""
    s = ENG.snapshot()
    for j, v in enumerate(z.ivars()):
        ENG.assume(t_.le(t_.ZERO, m[v]))
        ENG.assume(t_.lt(m[v], z.dims()[j]))
    if z.filt is not None:
        ENG.assume(t_.subst(z.filt, m))
    try:
        return ENG.merge(fn)
    finally:
        ENG.restore(s)


def apply_along_axis(f, axis, arr, *a, **k):
    arr = SArr.of(arr)
    if arr.ndim == 1:
        return f(arr, *a, **k)
    raise Unsupported("apply_along_axis")


def ndenumerate(a):
    return _np.ndenumerate(a) if not isinstance(a, SArr) else _nde(a)


def _nde(a):
    import itertools
    for idx in itertools.product(*[range(d) for d in a.shape]):
        yield idx, a[idx] if len(idx) > 1 else a[idx[0]]


def real(x):
    return x.real if not isinstance(x, (list, tuple)) else SArr.of(x).real


def imag(x):
    return x.imag if not isinstance(x, (list, tuple)) else SArr.of(x).imag


def conj(x):
    return arr_like(x, lambda v: numv(v).conjugate())


conjugate = conj


def angle(x):
    return arr_like(x, lambda v: SV(t_.app("atan2", SC.of(v).im.t, SC.of(v).re.t)))


def allclose(a, b, *r, **k):
    if not deep_sym([a, b]):
        return _np.allclose(a, b, *r, **k)
    raise Unsupported("allclose on symbolic values")


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not deep_sym([a, b]):
        return _np.isclose(a, b, rtol, atol)
    return abs(A(a) - A(b)) <= (as_scalar(atol) + as_scalar(rtol) * abs(A(b)))


def floor(x):
    return arr_like(x, lambda v: toreal(SV(t_floor(v.t))))


def ceil(x):
    return arr_like(x, lambda v: toreal(SV(t_.neg(t_floor(t_.neg(v.t))))))


def isreal(x):
    return arr_like(x, lambda v: SB(t_.TRUE) if not isinstance(v, SC) else SB(t_.eq(v.im.t, t_.RZERO)))


def iscomplex(x):
    return arr_like(x, lambda v: SB(t_.FALSE) if not isinstance(v, SC) else SB(t_.not_(t_.eq(v.im.t, t_.RZERO))))


def copy(x):
    return SArr.of(x).copy()


def nonzero(x):
    raise Unsupported("np.nonzero")


def sort(x, **k):
    if not deep_sym(x):
        return _np.sort(x, **k)
    raise Unsupported("np.sort on symbolic values")


def argmax(x, *a, **k):
    if not deep_sym(x):
        return _np.argmax(x, *a, **k)
    raise Unsupported("np.argmax")


def argmin(x, *a, **k):
    if not deep_sym(x):
        return _np.argmin(x, *a, **k)
    raise Unsupported("np.argmin")


def vc_sum(x, start=0):
    """builtin sum"""
    if isinstance(x, SSeq):
        from .sym import seq_sum
        return seq_sum(x.n, x.elem) + start
    if isinstance(x, SView):
        from .sym import seq_sum
        r = seq_sum(x.n, x.elem)
        for e in x.tail:
            r = r + e
        return r + start if not (isinstance(start, int) and start == 0) else r
    if isinstance(x, SArr) and isinstance(x.shape[0], SV):
        return sum(x, axis=0) + start
    r = start
    for e in x:
        r = r + e
    return r


def dispatch(func, args, kwargs):
    f = globals().get(func.__name__)
    if f is None:
        raise Unsupported("numpy function %s" % func.__name__)
    return f(*args, **kwargs)


class Random:
    """np.random: every draw is an arbitrary number of the advertised range;
    generators made from the same seed make the same draws"""

    def __init__(self, tag=None):
        self.tag, self.k = tag, 0

    @staticmethod
    def default_rng(seed=None, *a, **k):
        if isinstance(seed, SeedSeq):
            return Random(seed.tag)
        if seed is None:
            return Random()
        return Random("seed" + (str(seed) if not isinstance(seed, SV) else t_.show(seed.t)))

    @staticmethod
    def SeedSequence(seed=None, *a, **k):
        return SeedSeq(None if seed is None else "seq" + (str(seed) if not isinstance(seed, SV) else t_.show(seed.t)))

    def random(self, size=None, dtype=None, **k):
        self.k += 1
        u = uniform_draw(None if self.tag is None else "%s.%d" % (self.tag, self.k))
        if size is None:
            return u(())
        return u(shp(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self.random(size)
        return low + (high - low) * r

    rand = random_sample = random

    def seed(self, *a):
        pass

    def spawn(self, n):
        return [Random() for _ in range(n)]


class SeedSeq:
    def __init__(self, tag=None):
        self.tag, self.n = tag, 0

    def spawn(self, n):
        out = [SeedSeq(None if self.tag is None else "%s/%d" % (self.tag, self.n + j)) for j in range(n)]
        self.n += n
        return out


_draws = [0]


def uniform_draw(tag=None):
    if tag is None:
        _draws[0] += 1
        tag = str(_draws[0])
    name = "draw" + tag
    ENG_DRAWS.append(name)

    def mk(shape):
        if shape == ():
            t = t_.app(name)
            ENG.assume(t_.lt(t_.RZERO, t))
            ENG.assume(t_.lt(t, t_.RONE))
            return SV(t)
        r = len(shape)
        idx = [axis_var(r - 1 - j) for j in range(r)]
        t = t_.app(name, *idx)
        from .engine import ELEM_FACTS
        ELEM_FACTS[name] = lambda u: [t_.lt(t_.RZERO, u), t_.lt(u, t_.RONE)]
        from . import solver as S
        S.FN_IMPL[name] = lambda *a: S._h(name, a)
        return SArr(shape, SV(t))
    return mk


ENG_DRAWS = []


class Shim:
    """attribute access: our function, else the real library's object"""

    def __init__(self, name, table, real_, extra=None):
        self.__dict__["__name__"] = name
        self.__dict__["_t"] = table
        self.__dict__["_r"] = real_
        self.__dict__["_x"] = extra or {}

    def __getattr__(self, k):
        if k in self._x:
            return self._x[k]
        if k in self._t and not k.startswith("_") and k not in HIDE:
            return self._t[k]
        v = getattr(self._r, k)
        if isinstance(v, float):
            return v if nonfinite(v) else num(v)
        return v


HIDE = {"FlatArr", "FlatSeq", "Linalg", "Dist", "t_", "ENG", "SV", "SB", "SC", "SArr", "SSeq", "SMap", "SView", "R", "I", "B", "A", "num", "native", "builtins",
        "Fraction", "Unsupported", "Infeasible", "PI", "lam", "count", "cast", "like", "lst", "like", "is_sym"}


class Finfo:
    def __init__(self, *a):
        pass

    eps = None


def finfo(*a):
    f = _np.finfo(float)

    class F:
        eps = num(float(f.eps))
        tiny = num(float(f.tiny))
        max = num(float(f.max))
        min = num(float(f.min))
    return F


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def matrix(x, *a, **k):
    return array(x)


class Linalg:
    """small matrices of symbols by explicit formulas"""
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(self, k):
        return getattr(_np.linalg, k)

    @staticmethod
    def _rows(a):
        a = SArr.of(a)
        if a.ndim != 2 or not builtins.all(isinstance(d, int) for d in a.shape) or a.shape[0] != a.shape[1] or a.shape[0] > 3:
            raise Unsupported("linear algebra of a %s matrix" % (a.shape,))
        n = a.shape[0]
        return n, [[as_scalar(a[i, j]) for j in range(n)] for i in range(n)]

    @classmethod
    def det(cls, a):
        if not deep_sym(a):
            return _np.linalg.det(a)
        n, m = cls._rows(a)
        return cls._det(m)

    @classmethod
    def _det(cls, m):
        if not m:
            return num(1)
        r = num(0)
        for j in builtins.range(len(m)):
            c = cls._det([row[:j] + row[j + 1:] for row in m[1:]])
            r = r + (c if j % 2 == 0 else -c) * m[0][j]
        return r

    @classmethod
    def inv(cls, a):
        if not deep_sym(a):
            return _np.linalg.inv(a)
        n, m = cls._rows(a)
        d = cls._det(m)
        if d == 0:
            raise cls.LinAlgError("Singular matrix")
        cof = lambda i, j: cls._det([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]) * (-1) ** (i + j)
        return array([[cof(j, i) / d for j in range(n)] for i in range(n)])


np = Shim("numpy", globals(), _np, {"pi": PI, "e": SV(t_.app("exp", t_.RONE)) if False else SV(t_.fn1("exp", t_.RONE)), "inf": _math.inf, "nan": _math.nan,
                                    "newaxis": None, "random": Random, "finfo": finfo, "errstate": errstate,
                                    "ndarray": _np.ndarray, "linalg": Linalg()})


# math ---------------------------------------------------------------------------------

def _m(name, f):
    def g(*a):
        if builtins.any(isinstance(x, SArr) and x.ndim for x in a):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        a = [x.val if isinstance(x, SArr) else x for x in a]
        if deep_sym(a) or builtins.all(isinstance(x, (int, float, Fraction)) and not nonfinite(x) for x in a):
            return f(*a)
        return getattr(_math, name)(*a)
    g.__name__ = name
    return g


def mpow(a, b):
    return toreal(as_scalar(a)) ** b


_math_table = {n: _m(n, f) for n, f in dict(
    sqrt=sqrt, exp=exp, log=lambda x, *b: log(x) / log(b[0]) if b else log(x), sin=sin, cos=cos, tan=tan, atan=arctan, asin=arcsin, acos=arccos,
    sinh=sinh, cosh=cosh, tanh=tanh, atanh=arctanh, asinh=arcsinh, acosh=arccosh, erf=erf, log10=log10, log1p=log1p, expm1=expm1,
    fabs=abs, hypot=hypot, atan2=arctan2, pow=mpow, floor=lambda x: SV(t_floor(lift_term(x))), ceil=lambda x: SV(t_.neg(t_floor(t_.neg(lift_term(x))))),
    isnan=lambda x: False, isinf=lambda x: False, isfinite=lambda x: True).items()}


def isclose_m(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = builtins.abs(as_scalar(a) - as_scalar(b))
    m = minmax(builtins.abs(as_scalar(a)), builtins.abs(as_scalar(b)), True)
    return d <= minmax(as_scalar(rel_tol) * m, as_scalar(abs_tol), True)


def factorial_m(n):
    """n! with integer shifts taken out: (m+2)! = (m+2)(m+1) m!"""
    if isinstance(n, int):
        return _math.factorial(n)
    t = lift_term(n)
    k, rest = 0, t
    if t.op == "num":
        return _math.factorial(int(t.data))
    if t.op == "add":
        c = [x for x in t.args if x.op == "num"]
        if c:
            k = int(c[0].data)
            rest = t_.add(*[x for x in t.args if x.op != "num"])
    ELEM_FACTS["factorial"] = lambda u: [t_.lt(t_.RZERO, u)]
    S.FN_IMPL["factorial"] = lambda x: float(_math.factorial(int(x)))
    r = t_.app("factorial", t_real(rest))
    for j in range(1, k + 1):
        r = t_.mul(r, t_real(t_.add(rest, t_.num(j))))
    for j in range(k + 1, 1):
        r = t_.div(r, t_real(t_.add(rest, t_.num(j))))
    return SV(r)


_math_table["factorial"] = _m("factorial", factorial_m)
_math_table["isclose"] = isclose_m
math = Shim("math", _math_table, _math, {"pi": PI, "inf": _math.inf, "nan": _math.nan, "e": SV(t_.fn1("exp", t_.RONE))})


def _cm(f):
    def g(x):
        v = SC.of(x)
        return f(v)
    return g


cmath = Shim("cmath", {"sqrt": _cm(csqrt), "exp": _cm(cexp), "log": _cm(clog)}, _cmath, {"pi": PI})


# scipy ------------------------------------------------------------------------------------

def bound(x):
    if nonfinite(x):
        return t_.var("<inf>") if x > 0 else t_.var("<-inf>")
    if isinstance(x, SArr):
        if not builtins.all(one_dim(d) for d in x.shape):
            raise ValueError("The truth value of an array is ambiguous")
        x = x.at([t_.ZERO] * x.ndim)
    return t_real(lift_term(x))


class Native(Exception):
    pass


QUAD_LOG = []


def quad(f, a, b, args=(), **k):
    """the integral of f over [a, b] (f is applied to a generic point)"""
    lo, hi = bound(a), bound(b)
    if not isinstance(args, tuple):
        args = (args,)
    if lo is hi:
        return (num(0.0), num(0.0))
    y = t_.fresh("y")
    s = ENG.snapshot()
    if not nonfinite(a):
        ENG.assume(t_.lt(t_min(lo, hi) if not nonfinite(b) else lo, y))
    if not nonfinite(b):
        ENG.assume(t_.lt(y, t_max(lo, hi) if not nonfinite(a) else hi))
    try:
        v = ENG.merge(lambda: scalar_result(f(SV(y), *args)))
    finally:
        ENG.restore(s)
    v = numv(v)
    if isinstance(v, SC):
        raise TypeError("must be real number, not complex")
    r = SV(mkbinder("int", y, lo, hi, t_real(v.t)))
    ENG_QUAD = (f, a, b)
    if k.get("full_output"):
        return (r, num(0.0), {})
    return (r, SV(t_.fresh("quaderr")))


def t_min(a, b):
    return t_.ite(t_.le(a, b), a, b)


def t_max(a, b):
    return t_.ite(t_.le(a, b), b, a)


def scalar_result(v):
    if isinstance(v, SArr):
        if v.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return v.at([])
    if isinstance(v, _np.ndarray):
        if v.ndim:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return as_scalar(v.item())
    return as_scalar(v)


def nquad(*a, **k):
    raise Unsupported("nquad")


def dblquad(f, a, b, g, h, args=(), **k):
    def inner(x):
        lo = g(x) if callable(g) else g
        hi = h(x) if callable(h) else h
        return quad(lambda y: f(y, x, *args), lo, hi)[0]
    return quad(inner, a, b)


def simpson(y, x=None, **k):
    if not deep_sym([y, x]):
        import scipy.integrate as si
        return si.simpson(y, x=x, **k)
    y = SArr.of(y)
    if x is None:
        x = arange(y.shape[-1]) * k.get("dx", 1.0)
    axis = int(k.get("axis", -1))
    if y.ndim == 2:
        if y.filt is not None:
            return rows(lambda u, v: simpson(u, x=v, axis=axis), y, x, axis)
        if axis not in (-1, 1):
            y = y.T
        x = SArr.of(x)
        kv = t_.fresh("row", I)
        row = lambda a: SArr(a.shape[-1:], subst_val(a.val, {axis_var(1): kv}))
        v = t_.app("simpson", lam(row(y)), lam(row(x)))
        return SArr(y.shape[:1], SV(t_.subst(v, {kv: axis_var(0)})))
    return SV(t_.app("simpson", lam(y), lam(x)))


def _plain(v):
    return float(v.t.data) if isinstance(v, SV) and v.t.op == "num" else v


def concrete(v):
    """the floating-point value of an argument made of numbers only"""
    if isinstance(v, SV):
        return float(v.t.data) if v.t.op == "num" else None
    if isinstance(v, (int, float, Fraction)):
        return float(v)
    if isinstance(v, _np.ndarray) and v.dtype != object:
        return v
    if isinstance(v, (list, tuple)) or isinstance(v, _np.ndarray):
        c = [concrete(e) for e in v]
        return None if builtins.any(e is None for e in c) else _np.array(c)
    return None


class Spline:
    """interpolant of a table: an uninterpreted function of point and table"""

    def __init__(self, x, y, tag):
        self.x, self.y, self.tag = SArr.of(x), SArr.of(y), tag
        # tables of numbers are compared to 12 digits, so that the order of a sum does not matter
        r = [concrete(v) for v in (x, y)]
        r = [SArr.of(_np.array(["%.12g" % q for q in a.ravel()], dtype=float).reshape(a.shape)) if isinstance(a, _np.ndarray) and a.size else b for a, b in zip(r, (self.x, self.y))]
        self.lx, self.ly = lam(r[0]), lam(r[1])

    real = None     # the scipy object, for tables of numbers

    def __call__(self, v, *a, **k):
        if self.real is not None:
            c = concrete(v)
            if c is not None:
                r = self.real()(c, *a, **k)
                return float(r) if _np.ndim(r) == 0 else _np.asarray(r)
        if self.tag.startswith("InterpolatedUnivariateSpline") and isinstance(v, SArr) and v.ndim == 1 and v.filt is None \
                and self.x.ndim == 1 and self.x.filt is None and same_dim(v.shape[0], self.x.shape[0]) and v.val is not None \
                and isinstance(v.val, SV) and isinstance(self.x.val, SV) and v.val.t is self.x.val.t:
            return self.y       # at the knots the interpolant takes the values of the table
        return arr_like(v, lambda u: SV(t_.app("spline_" + self.tag, numv(u).t, self.lx, self.ly)))

    def integral(self, a, b):
        return SV(t_.app("splint_" + self.tag, lift_term(a), lift_term(b), self.lx, self.ly))

    def __mul__(self, o):
        raise TypeError

    def derivative(self, n=1):
        return lambda v: arr_like(v, lambda u: SV(t_.app("splder_" + self.tag, numv(u).t, self.lx, self.ly)))


def _tagv(v):
    if nonfinite(v):
        return "nan" if v != v else str(v)
    if isinstance(v, SV):
        return t_.show(v.t)
    if isinstance(v, (list, tuple)):
        return "(" + ",".join(_tagv(x) for x in v) + ")"
    return str(v)


def mk_spline(kind):
    def f(x, y, *a, **k):
        if kind in HOOKS:
            return HOOKS[kind](x, y, *a, **k)
        for r in ("copy", "assume_sorted", "w"):
            k.pop(r, None)
        if kind == "InterpolatedUnivariateSpline" and "ext" in k and not deep_sym([k["ext"]]):     # the names of the extrapolation modes
            k["ext"] = {"extrapolate": 0, "zeros": 1, "raise": 2, "const": 3}.get(k["ext"], k["ext"])
            if k["ext"] == 0:
                k.pop("ext")
        tag = kind + "".join("_%s" % _tagv(v) for v in a) + "".join("_%s=%s" % (q, _tagv(v)) for q, v in sorted(k.items()))
        r = Spline(x, y, tag)
        cx, cy = concrete(x), concrete(y)
        if cx is not None and cy is not None and not deep_sym([_plain(v) for v in list(a) + list(k.values())]):
            cache = []

            def real():
                if not cache:
                    cache.append(getattr(_import_real("scipy.interpolate"), kind)(cx, cy, *[_plain(v) for v in a], **{q: _plain(v) for q, v in k.items()}))
                return cache[0]
            r.real = real
        return r
    f.__name__ = kind
    return f


def _import_real(name):
    import importlib
    return importlib.import_module(name)


def special_fn(name, nargs):
    def f(*a, **k):
        if not deep_sym(list(a)):
            return getattr(_import_real("scipy.special"), name)(*a, **k)
        z = None
        arrs = [x for x in a if isinstance(x, (SArr, list, _np.ndarray))]
        if not arrs:
            return SV(t_.app("special." + name, *[t_real(lift_term(x)) for x in a]))
        z = SArr.of(arrs[0])
        for x in arrs[1:]:
            z = SArr(SArr.bcast(z, x)[0], num(0), SArr.bcast(z, x)[3])
        vs = [SArr.bcast(SArr.of(x), z)[1] for x in a]
        return SArr(z.shape, SV(t_.app("special." + name, *[t_real(numv(v).t) for v in vs])), z.filt)
    f.__name__ = name
    return f


_special = {n: special_fn(n, k) for n, k in [("kn", 2), ("kv", 2), ("k1", 1), ("k0", 1), ("gamma", 1), ("expit", 1), ("lambertw", 1),
                                               ("zeta", 1), ("factorial", 1), ("erfc", 1), ("erfinv", 1), ("k1e", 1), ("kve", 2), ("spence", 1), ("hyp2f1", 4)]}
_special["erf"] = erf


class Dist:
    """a distribution of scipy.stats: its methods are uninterpreted functions"""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, m):
        if m.startswith("__"):
            raise AttributeError(m)
        real_ = getattr(getattr(_import_real("scipy.stats"), self.name), m)
        tag = "stats.%s.%s" % (self.name, m)
        inv = {"stats.norm.ppf": "stats.norm.cdf", "stats.norm.cdf": "stats.norm.ppf"}.get(tag)

        def f(*a, **k):
            if set(k) - {"df"}:
                raise Unsupported("%s with %s" % (tag, sorted(k)))
            a = list(a) + list(k.values())
            if not deep_sym(a):
                return real_(*a)

            def g(*u):
                us = [t_real(numv(x).t) for x in u]
                if inv and len(us) == 1 and us[0].op == "app" and us[0].data == inv:
                    return SV(us[0].args[0])
                return SV(t_.app(tag, *us))
            if len(a) == 1:
                return arr_like(a[0], g)
            return g(*[as_scalar(x) for x in a])
        return f


def _sig():
    import inspect
    import scipy.integrate as si
    for f, r in ((quad, si.quad), (trapezoid, si.trapezoid), (simpson, si.simpson)):
        f.__signature__ = inspect.signature(r)


def get_scipy(name):
    real_ = _import_real(name)
    if name == "scipy.integrate":
        _sig()
    if name == "scipy.integrate":
        return Shim(name, {"quad": quad, "trapezoid": trapezoid, "trapz": trapezoid, "simpson": simpson, "dblquad": dblquad, "nquad": nquad,
                           "solve_ivp": lambda *a, **k: HOOKS["solve_ivp"](*a, **k), "odeint": lambda *a, **k: HOOKS["odeint"](*a, **k)}, real_)
    if name == "scipy.interpolate":
        return Shim(name, {n: mk_spline(n) for n in ("interp1d", "InterpolatedUnivariateSpline", "UnivariateSpline", "PchipInterpolator", "CubicSpline")}, real_)
    if name == "scipy.special":
        return Shim(name, _special, real_)
    if name == "scipy.optimize":
        return Shim(name, {n: (lambda n: lambda *a, **k: HOOKS[n](*a, **k))(n) for n in ("root_scalar", "minimize", "minimize_scalar", "brentq", "fsolve", "bisect", "newton")}, real_)
    if name == "scipy":
        return Shim(name, {}, real_, {k: get_scipy("scipy." + k) for k in ("integrate", "interpolate", "special", "optimize", "stats")})
    if name == "scipy.stats":
        return Shim(name, {}, real_, {n: Dist(n) for n in ("norm", "chi2")})
    if name == "scipy.constants":
        return Shim(name, {}, real_, {"pi": PI})
    return real_


class _Hooks(dict):
    def __missing__(self, k):
        raise Unsupported("external procedure %s without a contract" % k)


HOOKS = _Hooks()
