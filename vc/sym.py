"""Symbolic values: reals/integers, booleans, complex numbers, arrays of any
(symbolic) shape, sequences and maps of unknown length."""
from fractions import Fraction
import math
import numbers
import numpy as _np
from . import terms as t_
from .engine import ENG, Unsupported, Infeasible
from . import solver as S

R, I, B = t_.R, t_.I, t_.B


def is_sym(x):
    return isinstance(x, (SV, SB, SC, SArr, SSeq, SMap))


def lift_term(x):
    """python number / SV -> term"""
    if isinstance(x, SV):
        return x.t
    if isinstance(x, SB):
        return t_.ite(x.t, t_.ONE, t_.ZERO)
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return t_.num(int(x))
    if isinstance(x, int) or isinstance(x, _np.integer):
        return t_.num(int(x))
    if isinstance(x, Fraction):
        return t_.num(x)
    if isinstance(x, float) or isinstance(x, _np.floating):
        return t_.num(float(x))
    if isinstance(x, _np.ndarray) and x.shape == ():
        return lift_term(x.item())
    raise TypeError(type(x))


def isnum(x):
    return isinstance(x, (SV, SB, int, float, Fraction, bool, _np.integer, _np.floating, _np.bool_))


def iscplx(x):
    return isinstance(x, (complex, SC, _np.complexfloating))


NANV = object()


def nonfinite(x):
    return isinstance(x, (float, _np.floating)) and (x != x or x in (math.inf, -math.inf))


class SV:
    """symbolic real or integer"""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # numpy scalars expose a few attributes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SV(t_.RZERO)

    def conjugate(self):
        return self

    def _c(self, o):
        if isinstance(o, (SArr, _np.ndarray)) or iscplx(o):
            return None
        if isnum(o):
            if nonfinite(o):
                raise Unsupported("non-finite literal in arithmetic")
            return lift_term(o)
        return None

    def _bin(self, o, f, swap=False):
        if iscplx(o):
            return f2(f, swap, SC.of(self), SC.of(o))
        if isinstance(o, _np.ndarray):
            if o.shape == ():
                o = o.item()
            else:
                return f2(f, swap, SArr.of(self), SArr.of(o))
        k = self._c(o)
        if k is None:
            return NotImplemented
        a, b = (k, self.t) if swap else (self.t, k)
        return SV(TERMOP[f](a, b))

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "sub")

    def __rsub__(self, o):
        return self._bin(o, "sub", True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1 and not isinstance(o[0], (list, tuple)):
            return SSeq(self, lambda i: o[0])  # [v] * n
        return self._bin(o, "mul")

    def __rmul__(self, o):
        return self * o if isinstance(o, (list, tuple)) else self._bin(o, "mul", True)

    def __truediv__(self, o):
        return self._bin(o, "div")

    def __rtruediv__(self, o):
        return self._bin(o, "div", True)

    def __floordiv__(self, o):
        return self._bin(o, "idiv")

    def __rfloordiv__(self, o):
        return self._bin(o, "idiv", True)

    def __mod__(self, o):
        return self._bin(o, "imod")

    def __rmod__(self, o):
        return self._bin(o, "imod", True)

    def __rshift__(self, o):
        return SV(t_idiv(self.t, t_.num(2 ** int(o))))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return SArr.of(self) ** o
        if iscplx(o):
            return NotImplemented
        return SV(t_pow(self.t, lift_term(o)))

    def __rpow__(self, o):
        if isinstance(o, _np.ndarray):
            return SArr.of(o) ** self
        return SV(t_pow(lift_term(o), self.t))

    def __neg__(self):
        return SV(t_.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SV(t_abs(self.t))

    def _cmp(self, o, f):
        if isinstance(o, _np.ndarray) and o.shape != ():
            return getattr(SArr.of(self), "__%s__" % f)(o)
        if isinstance(o, (float, _np.floating)) and nonfinite(o):
            return cmp_inf(f, float(o))
        k = self._c(o)
        if k is None:
            return NotImplemented
        return SB(CMP[f](self.t, k))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented and not isinstance(o, SArr) else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented and not isinstance(o, SArr) else r

    def __hash__(self):
        return hash(self.t.id)

    def __bool__(self):
        return ENG.decide(t_.not_(t_.eq(self.t, t_.num(0, self.t.sort))))

    def __float__(self):
        if self.t.op == "num":
            return float(self.t.data)
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.t.op == "num":
            return int(self.t.data)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.t.op == "num" and self.t.data.denominator == 1 and self.t.sort == I:
            return int(self.t.data)
        raise Unsupported("symbolic value used as a native index")

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        return "SV(%s)" % t_.show(self.t)

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def is_integer(self):
        return SB(t_.eq(t_floor(self.t), self.t))

    def astype(self, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import vnp
        return vnp.dispatch(func, args, kwargs)


def cmp_inf(f, o):
    if o != o:
        return f == "ne"
    pos = o > 0
    return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[f]


def t_idiv(a, b):
    if a.op == "num" and b.op == "num":
        return t_.num(Fraction(a.data // b.data), I if a.sort == I and b.sort == I else R)
    if a.sort == I and b.sort == I:
        return t_.mk("app", (a, b), "idiv", I)
    return t_.mk("app", (t_.mk("app", (t_.div(a, b),), "floor", I),), "toreal", R)


def t_imod(a, b):
    if a.op == "num" and b.op == "num":
        return t_.num(Fraction(a.data % b.data), I if a.sort == I and b.sort == I else R)
    if a.sort == I and b.sort == I:
        return t_.mk("app", (a, b), "imod", I)
    return t_.sub(a, t_.mul(b, t_idiv(a, b)))


def t_floor(a):
    if a.op == "num":
        return t_.num(Fraction(math.floor(a.data)), I)
    if a.sort == I:
        return a
    return t_.mk("app", (a,), "floor", I)


def t_abs(a):
    if a.op == "num":
        return t_.num(abs(a.data), a.sort)
    return t_.mk("app", (a,), "abs", a.sort)


def t_pow(a, b):
    if b.op == "num":
        d = b.data
        if d.denominator == 1 and abs(d) <= 200:
            if d < 0:
                return t_.div(t_.RONE, t_.powi(a, -int(d)))
            r = t_.powi(a, int(d))
            return r
        if d.denominator == 2 and abs(d) < 60:
            n = int(d - Fraction(1, 2))
            s = t_.sqrt(a)
            # x**(n+1/2) is defined for x >= 0 (x > 0 when n < 0)
            if n >= 0:
                return t_.mul(t_.powi(a, n), s) if n else s
            return t_.div(s, t_.powi(a, -n))
    if a.op == "num" and a.data == 1:
        return t_.RONE
    return t_.mk("app", (a, b), "pow", R if not (a.sort == I and b.sort == I) else R)


TERMOP = {"add": t_.add, "sub": t_.sub, "mul": t_.mul, "div": t_.div, "idiv": t_idiv, "imod": t_imod, "pow": t_pow}
CMP = {
    "lt": t_.lt, "le": t_.le, "gt": lambda a, b: t_.lt(b, a), "ge": lambda a, b: t_.le(b, a),
    "eq": t_.eq, "ne": lambda a, b: t_.not_(t_.eq(a, b)),
}


def f2(f, swap, a, b):
    import operator
    op = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
          "idiv": operator.floordiv, "imod": operator.mod, "pow": operator.pow}[f]
    return op(b, a) if swap else op(a, b)


class SB:
    """symbolic boolean"""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.decide(self.t)

    def _k(self, o):
        if isinstance(o, SB):
            return o.t
        if isinstance(o, (bool, _np.bool_)):
            return t_.TRUE if o else t_.FALSE
        return None

    def __and__(self, o):
        k = self._k(o)
        return NotImplemented if k is None else SB(t_.and_(self.t, k))

    __rand__ = __and__

    def __or__(self, o):
        k = self._k(o)
        return NotImplemented if k is None else SB(t_.or_(self.t, k))

    __ror__ = __or__

    def __xor__(self, o):
        k = self._k(o)
        return NotImplemented if k is None else SB(t_.not_(t_.eq(self.t, k)))

    __rxor__ = __xor__

    def __invert__(self):
        return SB(t_.not_(self.t))

    def __eq__(self, o):
        k = self._k(o)
        return NotImplemented if k is None else SB(t_.eq(self.t, k))

    def __ne__(self, o):
        k = self._k(o)
        return NotImplemented if k is None else SB(t_.not_(t_.eq(self.t, k)))

    def __hash__(self):
        return hash(self.t.id)

    def _num(self):
        return SV(t_.ite(self.t, t_.ONE, t_.ZERO))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "SB(%s)" % t_.show(self.t)


class SC:
    """symbolic complex number"""
    __slots__ = ("re", "im")
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SC):
            return x
        if isinstance(x, (complex, _np.complexfloating)):
            return SC(num(x.real), num(x.imag))
        if isnum(x):
            return SC(SV(lift_term(x)), SV(t_.RZERO))
        return None

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SC(self.re, -self.im)

    conj = conjugate

    def _o(self, o):
        if isinstance(o, (SArr, _np.ndarray)):
            return None
        return SC.of(o)

    def __add__(self, o):
        k = self._o(o)
        return NotImplemented if k is None else SC(self.re + k.re, self.im + k.im)

    __radd__ = __add__

    def __sub__(self, o):
        k = self._o(o)
        return NotImplemented if k is None else SC(self.re - k.re, self.im - k.im)

    def __rsub__(self, o):
        k = self._o(o)
        return NotImplemented if k is None else SC(k.re - self.re, k.im - self.im)

    def __mul__(self, o):
        k = self._o(o)
        return NotImplemented if k is None else SC(self.re * k.re - self.im * k.im, self.re * k.im + self.im * k.re)

    __rmul__ = __mul__

    def _inv(self):
        d = self.re * self.re + self.im * self.im
        return SC(self.re / d, -self.im / d)

    def __truediv__(self, o):
        k = self._o(o)
        if k is None:
            return NotImplemented
        if k.im.t.op == "num" and k.im.t.data == 0:
            return SC(self.re / k.re, self.im / k.re)
        return self * k._inv()

    def __rtruediv__(self, o):
        k = self._o(o)
        return NotImplemented if k is None else k * self._inv()

    def __neg__(self):
        return SC(-self.re, -self.im)

    def __pow__(self, n):
        n = int(n)
        if n < 0:
            return (self ** (-n))._inv()
        r = SC(num(1.0), num(0.0))
        for _ in range(n):
            r = r * self
        return r

    def __abs__(self):
        if self.im.t.op == "num" and self.im.t.data == 0:
            return abs(self.re)
        return SV(t_.sqrt((self.re * self.re + self.im * self.im).t))

    def __eq__(self, o):
        k = self._o(o)
        return NotImplemented if k is None else (self.re == k.re) & (self.im == k.im)

    def __hash__(self):
        return hash((self.re.t.id, self.im.t.id))

    def __repr__(self):
        return "SC(%r, %r)" % (self.re, self.im)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)


def num(x):
    return SV(t_.num(x))


def simplify_sc(v):
    return v


# ---------------------------------------------------------------------------
# values that can be merged / substituted

def ite_val(c, a, b):
    """scalar if-then-else; c is a boolean term"""
    if c is t_.TRUE:
        return a
    if c is t_.FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, (SB, bool, _np.bool_)) and isinstance(b, (SB, bool, _np.bool_)):
        return SB(t_.ite(c, bterm(a), bterm(b)))
    if iscplx(a) or iscplx(b):
        a, b = SC.of(a), SC.of(b)
        return SC(ite_val(c, a.re, b.re), ite_val(c, a.im, b.im))
    if isnum(a) and isnum(b):
        if nonfinite(a) or nonfinite(b):
            if not isinstance(a, SV) and not isinstance(b, SV) and (a == b or (a != a and b != b)):
                return a
            a, b = special_num(a), special_num(b)
        return SV(t_.ite(c, lift_term(a), lift_term(b)))
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


def special_num(x):
    """inf / nan as opaque constants (only inside if-then-else)"""
    if nonfinite(x):
        n = "nan" if x != x else "inf" if x > 0 else "-inf"
        return SV(t_.var("<%s>" % n))
    return x


def bterm(x):
    if isinstance(x, SB):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return t_.TRUE if x else t_.FALSE
    if isinstance(x, SV):
        return t_.not_(t_.eq(x.t, t_.num(0, x.t.sort)))
    raise Unsupported("boolean expected, got %r" % (x,))


class Poison:
    """a variable some paths leave unassigned; no use of it is supported"""

    def __repr__(self):
        return "unassigned"


def _poisoned(self, *a, **k):
    raise Unsupported("use of a variable that is not assigned on every path")


for _n in ("getattr", "call", "add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "neg", "lt", "le", "gt", "ge", "bool", "float", "int", "iter",
           "len", "getitem", "setitem", "contains", "array", "index", "abs"):
    setattr(Poison, "__%s__" % _n, _poisoned)
POISON = Poison()


def merge_values(c, a, b):
    if a is b:
        return a
    if a is POISON or b is POISON:
        return POISON
    if isinstance(a, SArr) or isinstance(b, SArr):
        a, b = SArr.of(a), SArr.of(b)
        if len(a.shape) != len(b.shape):
            raise Unsupported("merge of arrays of different rank")
        for x, y in zip(a.shape, b.shape):
            if not same_dim(x, y):
                raise Unsupported("merge of arrays of different shape")
        return SArr(a.shape, map2(lambda u, v: ite_val(c, u, v), a.val, b.val), a.filt)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        vs = [merge_values(c, x, y) for x, y in zip(a, b)]
        return type(a)(vs) if not hasattr(a, "_fields") else type(a)(*vs)
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge_values(c, a[k], b[k]) for k in a}
    if a is None and b is None:
        return None
    if isinstance(a, str) and a == b:
        return a
    if (isnum(a) or iscplx(a)) and (isnum(b) or iscplx(b)):
        return ite_val(c, a, b)
    if isinstance(a, SKey) and isinstance(b, SKey) and a.fam == b.fam and a.idx is b.idx:
        return a
    if callable(a) and callable(b):
        return MergedFn(c, a, b)
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


class MergedFn:
    """one of two callables, by a condition"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __call__(self, *a, **k):
        from .engine import ENG
        return (self.a if ENG.decide(self.c) else self.b)(*a, **k)


def subst_val(v, m):
    if isinstance(v, SV):
        return SV(t_.subst(v.t, m))
    if isinstance(v, SB):
        return SB(t_.subst(v.t, m))
    if isinstance(v, SC):
        return SC(subst_val(v.re, m), subst_val(v.im, m))
    if isinstance(v, SArr):
        return SArr(tuple(SV(t_.subst(d.t, m)) if isinstance(d, SV) else d for d in v.shape), subst_val(v.val, m),
                    t_.subst(v.filt, m) if v.filt is not None else None)
    if isinstance(v, (tuple, list)):
        vs = [subst_val(x, m) for x in v]
        return type(v)(vs) if not hasattr(v, "_fields") else type(v)(*vs)
    if isinstance(v, dict):
        return {k: subst_val(x, m) for k, x in v.items()}
    if v is None or isinstance(v, (int, float, complex, str, bool)):
        return v
    raise Unsupported("substitution in %s" % type(v).__name__)


def map2(f, a, b):
    return f(a, b)


def fv_val(v):
    if isinstance(v, (SV, SB)):
        return t_.fv(v.t)
    if isinstance(v, SC):
        return t_.fv(v.re.t) | t_.fv(v.im.t)
    return frozenset()


# ---------------------------------------------------------------------------
# arrays

_AX = {}


def axis_var(k):
    """index variable of the k-th axis counted from the last"""
    v = _AX.get(k)
    if v is None:
        v = _AX[k] = t_.var("ι%d" % k, I)
    return v


def dim_term(d):
    return d.t if isinstance(d, SV) else t_.num(int(d))


def mkdim(t):
    return int(t.data) if t.op == "num" else SV(t)


def same_dim(a, b):
    ta, tb = dim_term(a), dim_term(b)
    if ta is tb:
        return True
    if ta.op == "num" and tb.op == "num":
        return False
    from .nf import Nf
    return Nf(None).equal(ta, tb)


def mkbinder(kind, bv, lo, hi, body):
    """binder with a canonical bound variable (alpha-equivalence = identity)"""
    depth = 0
    for u in t_.subterms(body, lo, hi):
        if u.op == "bind":
            n = u.args[0].data
            if n.startswith("β"):
                depth = max(depth, S.depth_of(n))
    tag = S.range_tag(lo, hi) if kind == "int" else ""
    nb = t_.var("β%d%s%s" % (depth + 1, "i" if bv.sort == I else "r", tag), bv.sort)
    body = t_.subst(body, {bv: nb})
    f = {"sum": t_.sum_, "prod": t_.prod_, "int": t_.integral, "all": t_.forall, "any": t_.exists}.get(kind)
    if f is None:
        return t_.mk("bind", (nb, lo, hi, body), kind, body.sort)
    return f(nb, lo, hi, body)


def beside_mask(full, masked):
    """the full array is broadcast along the axes concerned by the mask"""
    from .vnp import masked_axes
    held = [masked.ndim - 1 - j for j in masked_axes(masked)]
    for k in range(full.ndim):
        d = full.shape[full.ndim - 1 - k]
        if k in held and not (isinstance(d, int) and d == 1):
            raise Unsupported("mixing masked and unmasked arrays")


class SArr:
    """array: shape (ints or SV), element value as a function of the index
    variables axis_var(0) (last axis), axis_var(1), ...  `filt` restricts to
    the positions selected by a boolean mask."""
    __array_priority__ = 2000

    def __init__(self, shape, val, filt=None, base=None):
        self.shape = tuple(mkdim(dim_term(d)) if isinstance(d, SV) else int(d) for d in shape)
        self.val = val
        self.filt = filt
        self.writeback = None

    # construction -------------------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, SArr):
            return x
        if isinstance(x, _np.ndarray):
            if x.size > 64 and x.dtype == float:
                return table(x)
            return SArr.from_nested(x.tolist() if x.dtype != object else list(x), x.shape)
        if isinstance(x, (list, tuple)):
            return SArr.stack(list(x))
        if isinstance(x, SSeq):
            return x.to_array()
        if isnum(x) or iscplx(x):
            return SArr((), as_scalar(x))
        if isinstance(x, range):
            return SArr.stack(list(x))
        raise Unsupported("array from %s" % type(x).__name__)

    @staticmethod
    def from_nested(x, shape):
        if len(shape) == 0:
            return SArr((), as_scalar(x))
        if not x:
            return SArr(shape, SV(t_.RZERO))
        return SArr.stack([SArr.from_nested(e, shape[1:]) for e in x])

    @staticmethod
    def stack(items):
        """new leading axis"""
        if not items:
            return SArr((0,), SV(t_.RZERO))
        arrs = [SArr.of(e) for e in items]
        r = max(len(a.shape) for a in arrs)
        if any(len(a.shape) != r for a in arrs):
            raise Unsupported("ragged array")
        sh = arrs[0].shape
        for a in arrs[1:]:
            for x, y in zip(sh, a.shape):
                if not same_dim(x, y):
                    raise Unsupported("ragged array")
        iv = axis_var(r)
        v = arrs[-1].val
        if len(arrs) > 400:
            raise Unsupported("large literal array")
        for k in range(len(arrs) - 2, -1, -1):
            v = ite_val(t_.eq(iv, t_.num(k)), arrs[k].val, v)
        filt = arrs[0].filt
        return SArr((len(arrs),) + tuple(sh), as_scalar(v), filt)

    # basic properties ------------------------------------------------------------
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        if isinstance(self.val, SC):
            return _np.dtype(complex)
        if isinstance(self.val, SB):
            return _np.dtype(bool)
        if isinstance(self.val, SV) and self.val.t.sort == I:
            return _np.dtype(int)
        return _np.dtype(float)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        from . import vnp
        return vnp.transpose(self)

    @property
    def real(self):
        return SArr(self.shape, SC.of(self.val).re, self.filt)

    @property
    def imag(self):
        return SArr(self.shape, SC.of(self.val).im, self.filt)

    def symlen(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        if self.filt is not None:
            c = t_.fresh("count", I)
            ENG.assume(t_.and_(t_.le(t_.ZERO, c), t_.le(c, dim_term(self.shape[0]))))
            if self.ndim == 1:
                some = self.some_selected()
                ENG.assume(t_.or_(t_.not_(some), t_.lt(t_.ZERO, c)))
                ENG.assume(t_.or_(some, t_.le(c, t_.ZERO)))
            return SV(c)
        return self.shape[0]

    def some_selected(self):
        from .vnp import any as any_
        return bterm(any_(SArr(self.shape, SB(self.filt))))

    def __len__(self):
        n = self.symlen()
        if isinstance(n, SV):
            raise Unsupported("native len() of a symbolic array")
        return n

    def dims(self):
        return [dim_term(d) for d in self.shape]

    def ivars(self):
        r = self.ndim
        return [axis_var(r - 1 - k) for k in range(r)]

    def at(self, idx):
        """element at a full tuple of index terms"""
        m = {v: i for v, i in zip(self.ivars(), idx)}
        return subst_val(self.val, {k: v for k, v in m.items() if k is not v})

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, SV) or self.filt is not None:
            raise Unsupported("iteration over a symbolic array outside instrumented code")
        for k in range(n):
            yield self[k]

    def __repr__(self):
        return "SArr(%s, %r%s)" % (self.shape, self.val, "" if self.filt is None else " | " + t_.show(self.filt))

    # elementwise -------------------------------------------------------------------
    def map(self, f):
        return SArr(self.shape, as_scalar(f(self.val)), self.filt)

    @staticmethod
    def bcast(a, b):
        a, b = SArr.of(a), SArr.of(b)
        filt = a.filt
        if b.filt is not None:
            if filt is None:
                beside_mask(a, b)
                filt = b.filt
            elif filt is not b.filt:
                from .nf import Nf
                n = Nf(None)
                if not n.is_zero(_padd(n.ind(filt), n.ind(b.filt))):
                    raise Unsupported("mixing different masks")
        elif filt is not None:
            beside_mask(b, a)
        r = max(a.ndim, b.ndim)
        shape = []
        ma, mb = {}, {}
        for k in range(r):  # from the last axis
            da = a.shape[a.ndim - 1 - k] if k < a.ndim else None
            db = b.shape[b.ndim - 1 - k] if k < b.ndim else None
            if da is None:
                shape.append(db)
            elif db is None:
                shape.append(da)
            elif isinstance(da, int) and da == 1 and not (isinstance(db, int) and db == 1):
                ma[axis_var(k)] = t_.ZERO
                shape.append(db)
            elif isinstance(db, int) and db == 1 and not (isinstance(da, int) and da == 1):
                mb[axis_var(k)] = t_.ZERO
                shape.append(da)
            else:
                if not same_dim(da, db):
                    if isinstance(da, int) and isinstance(db, int):
                        raise ValueError("operands could not be broadcast together with shapes %s %s" % (a.shape, b.shape))
                    if not ENG.decide(t_.eq(dim_term(da), dim_term(db))):
                        raise ValueError("operands could not be broadcast together")
                shape.append(da)
        va = subst_val(a.val, ma) if ma else a.val
        vb = subst_val(b.val, mb) if mb else b.val
        return tuple(reversed(shape)), va, vb, filt

    def _bin(self, o, f, swap=False):
        if not (isinstance(o, (SArr, _np.ndarray, list, tuple)) or isnum(o) or iscplx(o)):
            return NotImplemented
        sh, a, b, filt = SArr.bcast(self, o)
        return SArr(sh, as_scalar(f(b, a) if swap else f(a, b)), filt)

    def __add__(self, o):
        return self._bin(o, lambda a, b: numv(a) + numv(b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: numv(a) + numv(b), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: numv(a) - numv(b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: numv(a) - numv(b), True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: numv(a) * numv(b))

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: numv(a) * numv(b), True)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: numv(a) / numv(b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: numv(a) / numv(b), True)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: numv(a) // numv(b))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: numv(a) % numv(b))

    def __pow__(self, o):
        return self._bin(o, lambda a, b: numv(a) ** numv(b))

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: numv(a) ** numv(b), True)

    def __neg__(self):
        return self.map(lambda v: -numv(v))

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(abs)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    __hash__ = None

    def __and__(self, o):
        return self._bin(o, lambda a, b: bv(a) & bv(b))

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: bv(a) | bv(b))

    __ror__ = __or__

    def __invert__(self):
        return self.map(lambda v: ~bv(v))

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if not isinstance(r, SArr):
            raise Unsupported("in-place update")
        if r.ndim != self.ndim:
            raise ValueError("non-broadcastable output operand")
        if isinstance(r.val, SC) and not isinstance(self.val, SC):
            raise TypeError("Cannot cast ufunc output from complex to float")
        if isinstance(self.val, SV) and self.val.t.sort == I and isinstance(r.val, SV) and r.val.t.sort == R:
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        self.val = r.val
        self.filt = r.filt
        if self.writeback is not None:
            self.writeback(self)
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self ** o)

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            return bool(self.at([t_.ZERO] * self.ndim))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        if not self.ndim:
            return float(self.at([]))
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")

    def __int__(self):
        return int(float(self))

    # indexing -----------------------------------------------------------------------
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        out = []
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.ndim - n))
            else:
                out.append(k)
        n = sum(1 for k in out if k is not None)
        out.extend([slice(None)] * (self.ndim - n))
        return out

    def __getitem__(self, key):
        if isinstance(key, (SArr, _np.ndarray)) and SArr.of(key).dtype == bool:
            return self._masked(SArr.of(key))
        if isinstance(key, list) and self.ndim == 1 and self.filt is None and key and all(type(k) is int for k in key):
            key = SArr.of([SV(index_term(k, self.shape[0])) for k in key])
        if isinstance(key, SArr) or (isinstance(key, (list, _np.ndarray)) and not isinstance(key, tuple)):
            k = SArr.of(key)
            if self.ndim == 1 and isinstance(k.val, SV) and k.val.t.sort == I:
                m = {axis_var(0): k.val.t}
                return SArr(k.shape, subst_val(self.val, m), k.filt)
            raise Unsupported("fancy indexing")
        if self.filt is not None:
            key0 = key if isinstance(key, tuple) else (key,)
            if all(k is None or (isinstance(k, slice) and k == slice(None)) for k in key0):
                return self._getnew(key0)
            if len(key0) == 1 and type(key0[0]) is int and key0[0] == 0 and self.ndim == 1:
                # the first selected element is one of the selected ones
                if not ENG.decide(self.some_selected()):
                    raise IndexError("index 0 is out of bounds for axis 0 with size 0")
                k = t_.fresh("first", I)
                m = {axis_var(0): k}
                ENG.assume(t_.and_(t_.le(t_.ZERO, k), t_.lt(k, dim_term(self.shape[0])), t_.subst(self.filt, m)))
                return subst_val(self.val, m)
        keys = self._norm_key(key)
        if self.filt is not None:
            self._mask_kept(keys)
        if any(isinstance(k, (SArr, _np.ndarray)) for k in keys):
            raise Unsupported("mixed indexing")
        # build: result axes
        src = self.ivars()
        spec = []      # (size or None, source term builder)
        ax = 0
        for k in keys:
            if k is None:
                spec.append(("new", None, None))
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                spec.append(("slice", ax, slice_bounds(k, n)))
            else:
                spec.append(("int", ax, index_term(k, n)))
            ax += 1
        out_axes = [s for s in spec if s[0] != "int"]
        r = len(out_axes)
        # use temporaries to avoid clashes between source and target names
        tmp = {v: t_.var("τ%d" % j, I) for j, v in enumerate(src)}
        val = subst_val(self.val, tmp)
        m = {}
        shape = []
        for j, s in enumerate(out_axes):
            iv = axis_var(r - 1 - j)
            if s[0] == "new":
                shape.append(1)
            else:
                start, n, step = s[2]
                m[tmp[src[s[1]]]] = t_.add(start, iv if step == 1 else t_.mul(t_.num(step), iv))
                shape.append(mkdim(n))
        for s in spec:
            if s[0] == "int":
                m[tmp[src[s[1]]]] = s[2]
        val = subst_val(val, m)
        if r == 0:
            return as_scalar(val)
        res = SArr(tuple(shape), val, None if self.filt is None else t_.subst(t_.subst(self.filt, tmp), m))
        parent, keyc = self, key

        def wb(child):
            parent[keyc] = child
        res.writeback = wb
        return res

    def _mask_kept(self, keys):
        """the keys take the axes concerned by the mask as they are"""
        from .vnp import masked_axes
        held = masked_axes(self)
        ax = 0
        for k in keys:
            if k is None:
                continue
            if ax in held and not (isinstance(k, slice) and k == slice(None)):
                raise Unsupported("indexing a masked array")
            ax += 1

    def _getnew(self, keys):
        val, shape = self.val, list(self.shape)
        out = []
        for k in keys:
            if k is None:
                out.append(1)
            else:
                out.append(shape.pop(0))
        out += shape
        # variables shift
        srcax = [j for j, k in enumerate(list(keys) + [slice(None)] * (len(out) - len(keys))) if k is not None]
        r = len(out)
        src = self.ivars()
        tmp = {v: t_.var("τ%d" % j, I) for j, v in enumerate(src)}
        m = {tmp[src[j]]: axis_var(r - 1 - p) for j, p in enumerate(srcax)}
        val = subst_val(subst_val(val, tmp), m)
        f = t_.subst(t_.subst(self.filt, tmp), m)
        return SArr(tuple(out), val, f)

    def _masked(self, mask):
        if mask.ndim != self.ndim:
            raise Unsupported("partial boolean mask")
        for x, y in zip(mask.shape, self.shape):
            if not same_dim(x, y):
                raise IndexError("boolean index did not match")
        f = bv(mask.val).t
        if self.filt is not None:
            f = t_.and_(self.filt, f)
        if f is t_.TRUE:
            return SArr(self.shape, self.val)
        if self.ndim == 1 and axis_var(0) not in t_.fv(f):
            # remember which axis the mask is on
            f = t_.and_(f, t_.le(t_.ZERO, axis_var(0)))
        return SArr(self.shape, self.val, f)

    def __setitem__(self, key, value):
        if isinstance(key, (SArr, _np.ndarray)) and SArr.of(key).dtype == bool:
            mask = SArr.of(key)
            c = bv(mask.val).t
            if isinstance(value, (SArr, list, _np.ndarray)):
                v = SArr.of(value)
                if v.filt is None and v.ndim and not all(isinstance(d, int) and d == 1 for d in v.shape):
                    if c is not t_.TRUE:
                        raise Unsupported("assignment of an unmasked array through a mask")
                if v.ndim and v.filt is None and c is not t_.TRUE:
                    nv = v.at([t_.ZERO] * v.ndim)
                else:
                    nv = v.val
            else:
                nv = value
            self._store(ite_val(c, as_scalar(nv), self.val))
            return
        if isinstance(key, SArr):
            raise Unsupported("fancy assignment")
        keys = self._norm_key(key)
        if self.filt is not None:
            self._mask_kept(keys)
        src = self.ivars()
        conds = []
        m = {}
        ax = 0
        sub_axes = []
        for k in keys:
            n = self.shape[ax]
            iv = src[ax]
            if k is None:
                raise Unsupported("newaxis assignment")
            if isinstance(k, slice):
                start, cnt, step = slice_bounds(k, n)
                if step != 1:
                    if step < 1:
                        raise Unsupported("strided assignment")
                    off = t_.sub(iv, start)
                    conds += [t_.le(start, iv), t_.eq(t_imod(off, t_.num(step)), t_.ZERO), t_.lt(t_idiv(off, t_.num(step)), cnt)]
                    sub_axes.append((t_idiv(off, t_.num(step)), mkdim(cnt)))
                else:
                    if not (start.op == "num" and start.data == 0):
                        conds.append(t_.le(start, iv))
                    if dim_term(n) is not t_.add(start, cnt):
                        conds.append(t_.lt(iv, t_.add(start, cnt)))
                    sub_axes.append((t_.sub(iv, start), mkdim(cnt)))
            else:
                conds.append(t_.eq(iv, index_term(k, n)))
            ax += 1
        c = t_.and_(*conds)
        v = SArr.of(value)
        r = len(sub_axes)
        if r == 0 and v.ndim:
            raise ValueError("setting an array element with a sequence.")
        if v.ndim > r:
            while v.ndim > r and isinstance(v.shape[0], int) and v.shape[0] == 1:
                v = v[0] if v.ndim > 1 else SArr((), v[0])
            if v.ndim > r:
                raise ValueError("could not broadcast input array")
        mm = {}
        tmp = {w: t_.var("τ%d" % j, I) for j, w in enumerate(v.ivars())}
        val = subst_val(v.val, tmp)
        for j, w in enumerate(v.ivars()):
            pos = r - v.ndim + j
            sz = v.shape[j]
            tgt, n = sub_axes[pos]
            if isinstance(sz, int) and sz == 1 and not (isinstance(n, int) and n == 1):
                mm[tmp[w]] = t_.ZERO
            else:
                if not same_dim(sz, n):
                    if isinstance(sz, int) and isinstance(n, int):
                        raise ValueError("could not broadcast input array from shape %s" % (v.shape,))
                mm[tmp[w]] = tgt
        val = subst_val(val, mm)
        if v.filt is not None and t_.subst(t_.subst(v.filt, tmp), mm) is not self.filt:
            raise Unsupported("storing a masked array")
        if self.filt is not None and v.filt is None and not all(isinstance(d, int) and d == 1 for d in v.shape):
            raise Unsupported("storing an array in a masked one")
        self._store(ite_val(c, as_scalar(val), self.val))

    def _store(self, v):
        if isinstance(v, SC) and not isinstance(self.val, SC):
            # numpy discards the imaginary part with a warning
            v = v.re
        self.val = v
        if self.writeback is not None:
            self.writeback(self)

    # methods ------------------------------------------------------------------------
    def astype(self, *a, **k):
        kind = a[0] if a else k.get("dtype")
        if kind in (complex, _np.complex128):
            return SArr(self.shape, SC.of(self.val), self.filt)
        if kind in (float, _np.float64, "float64", "float") and isinstance(self.val, SV) and self.val.t.sort == I:
            return SArr(self.shape, SV(t_.mk("app", (self.val.t,), "toreal", R)) if self.val.t.op != "num" else SV(t_.num(self.val.t.data, R)), self.filt)
        return SArr(self.shape, self.val, self.filt)

    def copy(self):
        return SArr(self.shape, self.val, self.filt)

    def _np(self, name, *a, **k):
        from . import vnp
        return getattr(vnp, name)(self, *a, **k)

    def sum(self, *a, **k):
        return self._np("sum", *a, **k)

    def prod(self, *a, **k):
        return self._np("prod", *a, **k)

    def max(self, *a, **k):
        return self._np("max", *a, **k)

    def min(self, *a, **k):
        return self._np("min", *a, **k)

    def mean(self, *a, **k):
        return self._np("mean", *a, **k)

    def any(self, *a, **k):
        return self._np("any", *a, **k)

    def all(self, *a, **k):
        return self._np("all", *a, **k)

    def take(self, k, axis=None):
        keys = [slice(None)] * self.ndim
        ax = 0 if axis is None else int(axis)
        keys[ax] = k
        return self[tuple(keys)]

    def reshape(self, *a, **k):
        return self._np("reshape", *a, **k)

    def squeeze(self, axis=None):
        return self._np("squeeze", axis)

    def flatten(self):
        return self._np("ravel")

    ravel = flatten

    def transpose(self, *a):
        return self._np("transpose", *a)

    def tolist(self):
        if self.ndim == 0:
            return self.val
        return [e.tolist() if isinstance(e, SArr) else e for e in self]

    def item(self, *a):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            return self.at([t_.ZERO] * self.ndim)
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def conj(self):
        return self.map(lambda v: v.conjugate())

    def fill(self, v):
        self._store(as_scalar(v))

    def dot(self, o):
        return self._np("dot", o)

    def __matmul__(self, o):
        return self._np("dot", o)

    def __rmatmul__(self, o):
        return SArr.of(o)._np("dot", self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import vnp
        return vnp.dispatch(func, args, kwargs)


def table(x):
    """a large constant table: an opaque function of the indices"""
    import hashlib
    from . import solver as S
    name = "table_" + hashlib.md5(_np.ascontiguousarray(x).tobytes() + repr(x.shape).encode()).hexdigest()[:10]
    if name not in S.FN_IMPL:
        y = x.copy()
        S.FN_IMPL[name] = lambda *i: float(y[tuple(int(k) for k in i)])
        S.TABLES = getattr(S, "TABLES", {})
        S.TABLES[name] = y
    r = x.ndim
    return SArr(x.shape, SV(t_.app(name, *[axis_var(r - 1 - j) for j in range(r)])))


def _padd(p, q):
    from .nf import padd
    return padd(p, q, -1)


def numv(v):
    return v._num() if isinstance(v, SB) else v


def bv(v):
    if isinstance(v, SB):
        return v
    if isinstance(v, (bool, _np.bool_)):
        return SB(t_.TRUE if v else t_.FALSE)
    return SB(bterm(v))


def as_scalar(v):
    """scalar stored in an array"""
    if isinstance(v, (SV, SB, SC)):
        return v
    if isinstance(v, (bool, _np.bool_)):
        return SB(t_.TRUE if v else t_.FALSE)
    if isinstance(v, (complex, _np.complexfloating)):
        return SC.of(v)
    if isnum(v):
        if nonfinite(v):
            return special_num(v)
        return SV(lift_term(v))
    if isinstance(v, SArr) and v.ndim == 0:
        return v.val
    raise Unsupported("array element of type %s" % type(v).__name__)


def index_term(k, n):
    if isinstance(k, SArr) and k.ndim == 0:
        k = k.val
    if isinstance(k, SV):
        if k.t.sort != I:
            raise IndexError("only integers are valid indices")
        k = k.t
    else:
        k = t_.num(int(k))
    nt = dim_term(n)
    if k.op == "num":
        if k.data < 0:
            r = t_.add(nt, k)
            if r.op == "num" and r.data < 0:
                raise IndexError("index out of bounds")
            return r
        if nt.op == "num" and k.data >= nt.data:
            raise IndexError("index %s is out of bounds for axis with size %s" % (k.data, nt.data))
        return k
    return k


def slice_bounds(k, n):
    """(start term, count term, step)"""
    nt = dim_term(n)
    step = 1 if k.step is None else int(k.step)

    def norm(x, default):
        if x is None:
            return default
        x = x.t if isinstance(x, SV) else t_.num(int(x))
        if x.op == "num" and x.data < 0:
            x = t_.add(nt, x)
            if x.op == "num" and x.data < 0:
                x = t_.ZERO
        return x
    if step < 0:
        if k.start is None and k.stop is None and step == -1:
            return (t_.sub(nt, t_.ONE), nt, -1)
        raise Unsupported("negative slice step")
    start = norm(k.start, t_.ZERO)
    stop = norm(k.stop, nt)
    if nt.op == "num":
        if start.op == "num" and start.data > nt.data:
            start = nt
        if stop.op == "num" and stop.data > nt.data:
            stop = nt
    cnt = t_.sub(stop, start)
    if cnt.op == "num" and cnt.data < 0:
        cnt = t_.ZERO
    if step > 1:
        cnt = t_idiv(t_.add(cnt, t_.num(step - 1)), t_.num(step))
    from .nf import Nf
    if cnt.op != "num":
        q = Nf(None).nf(cnt)
        if not q:
            cnt = t_.ZERO
        elif len(q) == 1 and () in q and q[()].denominator == 1:
            cnt = t_.num(int(q[()]))
    return (start, cnt, step)


# ---------------------------------------------------------------------------
# sequences and maps of unknown length (e.g. the final states of any model)

class SKey:
    """generic string/key: the i-th element of an arbitrary key sequence"""

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    def __eq__(self, o):
        if isinstance(o, SKey) and o.fam == self.fam:
            return SB(t_.eq(self.idx, o.idx))
        if isinstance(o, str):
            return False       # generic keys differ from every literal
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ((not r) if isinstance(r, bool) else ~r)

    def __hash__(self):
        return hash(("SKey", self.fam))

    def __repr__(self):
        return "%s[%s]" % (self.fam, t_.show(self.idx))


def subst_any(v, m):
    if isinstance(v, SKey):
        return SKey(v.fam, t_.subst(v.idx, m))
    if isinstance(v, SFun):
        return v.subst(m)
    if isinstance(v, tuple) and not hasattr(v, "_fields"):
        return tuple(subst_any(x, m) for x in v)
    return subst_val(v, m)


class SFun:
    """a callable depending on a generic index (re-evaluated on substitution)"""

    def __init__(self, mk, idx):
        self.mk, self.idx = mk, idx

    def subst(self, m):
        return SFun(self.mk, t_.subst(self.idx, m))

    def __call__(self, *a, **k):
        return self.mk(self.idx)(*a, **k)


class SSeq:
    """sequence of symbolic length n whose k-th element is elem(k)"""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def symlen(self):
        return mkdim(dim_term(self.n))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence outside instrumented code")

    def __getitem__(self, k):
        if isinstance(k, slice):
            start, cnt, step = slice_bounds(k, self.n)
            if step != 1:
                raise Unsupported("strided slice of a symbolic sequence")
            e = self.elem
            return SSeq(mkdim(cnt), lambda i: e(t_.add(start, i)))
        return self.elem(index_term(k, self.n))

    def to_array(self):
        iv = t_.fresh("k", I)
        v = self.elem(iv)
        if isinstance(v, SArr):
            r = v.ndim
            return SArr((self.n,) + v.shape, subst_val(v.val, {iv: axis_var(r)}), v.filt)
        if not (isnum(v) or iscplx(v)):
            raise Unsupported("array of generic objects")
        return SArr((self.n,), subst_val(as_scalar(v), {iv: axis_var(0)}))

    def __add__(self, o):
        raise Unsupported("concatenation of symbolic sequences")


class KSeq(SSeq):
    """the elements of a masked array: those k < n with keep(k)"""

    def __init__(self, n, elem, keep):
        super().__init__(n, elem)
        self.keep = keep

    def symlen(self):
        return SV(t_.fresh("count", I))

    def __getitem__(self, k):
        raise Unsupported("indexing a masked sequence")

    def to_array(self):
        a = SSeq(self.n, self.elem).to_array()
        if a.filt is not None:
            raise Unsupported("masked rows of a masked array")
        return SArr(a.shape, a.val, self.keep(axis_var(a.ndim - 1)))


class FlatSeq:
    """the list filled by a loop of n turns, turn k appending the m elements
    elem(0..m) where (m, elem) = inner(k)"""

    def __init__(self, n, inner):
        self.n, self.inner = n, inner

    def __iter__(self):
        raise Unsupported("iteration over a list filled by nested loops")


class SMap:
    """map with the keys key(k), k < n (pairwise distinct) plus concrete ones"""

    def __init__(self, n, key, val, extra=None):
        self.n, self.key, self.val = n, key, val
        self.extra = dict(extra or {})

    def copy(self):
        return SMap(self.n, self.key, self.val, self.extra)

    def find(self, k):
        if isinstance(k, SKey):
            kk = self.key(t_.var("?", I))
            if isinstance(kk, SKey) and kk.fam == k.fam:
                return k.idx
        return None

    def __getitem__(self, k):
        if not isinstance(k, SKey):
            if k in self.extra:
                return self.extra[k]
            raise KeyError(k)
        i = self.find(k)
        if i is None:
            raise KeyError(k)
        return self.val(i)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        if not isinstance(k, SKey):
            return k in self.extra
        return self.find(k) is not None

    def __setitem__(self, k, v):
        if isinstance(k, SKey):
            raise Unsupported("store at a generic key")
        self.extra[k] = v

    def keys(self):
        return SView(self, lambda i: self.key(i), list(self.extra))

    def values(self):
        return SView(self, lambda i: self.val(i), list(self.extra.values()))

    def items(self):
        return SView(self, lambda i: (self.key(i), self.val(i)), list(self.extra.items()))

    def symlen(self):
        return SV(t_.add(dim_term(self.n), t_.num(len(self.extra))))

    def update(self, o):
        if isinstance(o, dict):
            for k, v in o.items():
                self[k] = v
        else:
            raise Unsupported("update with a symbolic map")

    def pop(self, k, *d):
        return self.extra.pop(k, *d)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic map outside instrumented code")


class SView:
    """generic part plus a concrete tail"""

    def __init__(self, m, elem, tail):
        self.n, self.elem, self.tail = m.n, elem, tail
        self.m = m

    def symlen(self):
        return SV(t_.add(dim_term(self.n), t_.num(len(self.tail))))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic view outside instrumented code")


def generic_index(n, prefix="k"):
    """a fresh index in range, assumed within the current path"""
    iv = t_.fresh(prefix, I)
    ENG.assume(t_.le(t_.ZERO, iv))
    ENG.assume(t_.lt(iv, dim_term(n)))
    return iv


def seq_sum(n, elem):
    """sum of elem(k), k < n"""
    iv = t_.fresh("k", I)
    v = elem(iv)
    return sum_value(v, iv, dim_term(n))


def sum_value(v, iv, n, kind="sum"):
    if isinstance(v, SArr):
        return SArr(v.shape, sum_value(v.val, iv, n, kind), v.filt)
    if isinstance(v, SC):
        if kind != "sum":
            raise Unsupported("complex product")
        return SC(sum_value(v.re, iv, n), sum_value(v.im, iv, n))
    v = numv(v)
    if not isinstance(v, SV):
        v = as_scalar(v)
    body = v.t
    if n.op == "num" and n.data <= 16:
        r = num(0) if kind == "sum" else num(1)
        for k in range(int(n.data)):
            x = SV(t_.subst(body, {iv: t_.num(k)}))
            r = r + x if kind == "sum" else r * x
        return r
    return SV(mkbinder(kind, iv, t_.ZERO, n, body))


# ---------------------------------------------------------------------------

def dispatch_ufunc(ufunc, method, inputs, kw):
    from . import vnp
    if method != "__call__":
        if method == "reduce" and ufunc is _np.add:
            return vnp.sum(inputs[0], axis=kw.get("axis", 0))
        raise Unsupported("ufunc method %s.%s" % (ufunc.__name__, method))
    f = getattr(vnp, UF.get(ufunc.__name__, ufunc.__name__), None)
    if f is None:
        f = vnp._special.get(ufunc.__name__)
    if f is None:
        raise Unsupported("ufunc %s" % ufunc.__name__)
    return f(*inputs)


UF = {"divide": "true_divide", "arctanh": "arctanh", "absolute": "abs", "conjugate": "conj", "minimum": "minimum"}
