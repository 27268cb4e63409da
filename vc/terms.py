"""Hash-consed first-order terms over the reals, integers and booleans.

Floating point numbers of the program are read as mathematical reals (decimal
literals are taken exactly).  A term is immutable; structural equality is
identity."""
from fractions import Fraction

R, I, B = "R", "I", "B"
_table = {}
_counter = [0]


class T:
    __slots__ = ("op", "args", "data", "sort", "id", "_fv", "_h")

    def __repr__(self):
        return show(self)


def mk(op, args=(), data=None, sort=R):
    key = (op, tuple(a.id for a in args), data, sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.data, t.sort = op, tuple(args), data, sort
        _counter[0] += 1
        t.id = _counter[0]
        t._fv = None
        t._h = None
        _table[key] = t
    return t


TRUE = mk("true", sort=B)
FALSE = mk("false", sort=B)


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return mk("num", data=Fraction(x), sort=sort or I)
    if isinstance(x, Fraction):
        return mk("num", data=x, sort=sort or R)
    if isinstance(x, float):
        return mk("num", data=float_fraction(x), sort=R)
    raise TypeError(x)


def float_fraction(x):
    """The rational a float stands for: its shortest decimal, or the simple
    fraction it was visibly rounded from."""
    if x != x or x in (float("inf"), float("-inf")):
        raise ValueError("non finite")
    r = Fraction(repr(x)) if "e" not in repr(x) and "E" not in repr(x) else Fraction(repr(x))
    digits = repr(x).lower().split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(digits) >= 15:
        q = Fraction(x).limit_denominator(10000)
        if q != 0 and float(q) == x:
            return q
    return r


_fresh = [0]


def var(name, sort=R):
    return mk("var", data=name, sort=sort)


def fresh(prefix="v", sort=R):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


def reset_fresh():
    _fresh[0] = 0


def is_num(t):
    return t.op == "num"


def app(name, *args, sort=R):
    return mk("app", args, name, sort)


def _sortof(*ts):
    return I if all(t.sort == I for t in ts) else R


ZERO, ONE = num(0), num(1)
RZERO, RONE = num(Fraction(0)), num(Fraction(1))


def add(*ts):
    c = Fraction(0)
    rest = []
    for t in ts:
        if t.op == "add":
            for a in t.args:
                if a.op == "num":
                    c += a.data
                else:
                    rest.append(a)
        elif t.op == "num":
            c += t.data
        else:
            rest.append(t)
    s = _sortof(*ts)
    if not rest:
        return num(c, s)
    if c != 0:
        rest.append(num(c, s))
    if len(rest) == 1:
        return rest[0] if rest[0].sort == s else rest[0]
    return mk("add", rest, sort=s)


def mul(*ts):
    c = Fraction(1)
    rest = []
    for t in ts:
        if t.op == "mul":
            for a in t.args:
                if a.op == "num":
                    c *= a.data
                else:
                    rest.append(a)
        elif t.op == "num":
            c *= t.data
        else:
            rest.append(t)
    s = _sortof(*ts)
    if c == 0:
        return num(Fraction(0), s)
    if not rest:
        return num(c, s)
    if c != 1:
        rest.insert(0, num(c, s))
    if len(rest) == 1:
        return rest[0]
    return mk("mul", rest, sort=s)


def neg(t):
    return mul(num(-1, t.sort if t.sort == I else R), t)


def sub(a, b):
    if a is b:
        return num(Fraction(0), _sortof(a, b))
    return add(a, neg(b))


def div(a, b):
    if b.op == "num" and b.data != 0:
        return mul(num(1 / b.data, R), a) if not (b.data == 1 and a.sort == R) else a
    if a.op == "num" and a.data == 0:
        return RZERO
    return mk("div", (a, b), sort=R)


def powi(t, n):
    """integer power"""
    if n == 0:
        return num(Fraction(1), t.sort)
    if n == 1:
        return t
    if t.op == "num" and (t.data != 0 or n > 0):
        return num(t.data ** n, t.sort if n > 0 else R)
    if t.op == "pow":
        return powi(t.args[0], t.data * n)
    if n < 0:
        return div(RONE, powi(t, -n))
    return mk("pow", (t,), n, t.sort)


def exact_sqrt(q):
    import math
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def sqrt(t):
    if t.op == "num":
        s = exact_sqrt(t.data)
        if s is not None:
            return num(s, R)
    return mk("app", (t,), "sqrt", R)


def fn1(name, t):
    if t.op == "num":
        d = t.data
        if name == "exp" and d == 0:
            return RONE
        if name in ("log",) and d == 1:
            return RZERO
        if name in ("sin", "tan", "atan", "asin", "sinh", "tanh", "atanh", "asinh") and d == 0:
            return RZERO
        if name in ("cos", "cosh") and d == 0:
            return RONE
    return mk("app", (t,), name, R)


# booleans ----------------------------------------------------------------

def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt":
        return le(t.args[1], t.args[0])
    if t.op == "le":
        return lt(t.args[1], t.args[0])
    return mk("not", (t,), sort=B)


def and_(*ts):
    out, seen = [], set()
    for t in ts:
        for a in (t.args if t.op == "and" else (t,)):
            if a is FALSE:
                return FALSE
            if a is TRUE or a.id in seen:
                continue
            if not_(a).id in seen:
                return FALSE
            seen.add(a.id)
            out.append(a)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, sort=B)


def or_(*ts):
    out, seen = [], set()
    for t in ts:
        for a in (t.args if t.op == "or" else (t,)):
            if a is TRUE:
                return TRUE
            if a is FALSE or a.id in seen:
                continue
            if not_(a).id in seen:
                return TRUE
            seen.add(a.id)
            out.append(a)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", out, sort=B)


def implies(a, b):
    return or_(not_(a), b)


def same_sort(a, b):
    """integer literals compared with reals are reals"""
    if a.sort == I and b.sort == R and a.op == "num":
        return num(a.data, R), b
    if a.sort == R and b.sort == I and b.op == "num":
        return a, num(b.data, R)
    return a, b


def lt(a, b):
    a, b = same_sort(a, b)
    if a is b:
        return FALSE
    if a.op == "num" and b.op == "num":
        return TRUE if a.data < b.data else FALSE
    return mk("lt", (a, b), sort=B)


def le(a, b):
    a, b = same_sort(a, b)
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return TRUE if a.data <= b.data else FALSE
    return mk("le", (a, b), sort=B)


def eq(a, b):
    a, b = same_sort(a, b)
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return TRUE if a.data == b.data else FALSE
    if a.sort == B:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), sort=B)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B:
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), sort=_sortof(a, b))


# binders: data = (kind, bound var term id); args = (bv, lo, hi, body)

def sum_(bv, lo, hi, body):
    """sum of body for bv = lo .. hi-1"""
    return mk("bind", (bv, lo, hi, body), "sum", body.sort)


def prod_(bv, lo, hi, body):
    return mk("bind", (bv, lo, hi, body), "prod", body.sort)


def integral(bv, lo, hi, body):
    return mk("bind", (bv, lo, hi, body), "int", R)


def forall(bv, lo, hi, body):
    if body is TRUE:
        return TRUE
    return mk("bind", (bv, lo, hi, body), "all", B)


def exists(bv, lo, hi, body):
    if body is FALSE:
        return FALSE
    return mk("bind", (bv, lo, hi, body), "any", B)


# traversal ---------------------------------------------------------------

def fv(t):
    if t._fv is None:
        # iterative to keep recursion shallow
        stack = [t]
        while stack:
            u = stack[-1]
            if u._fv is not None:
                stack.pop()
                continue
            todo = [a for a in u.args if a._fv is None]
            if todo:
                stack.extend(todo)
                continue
            if u.op == "var":
                s = frozenset((u,))
            elif not u.args:
                s = frozenset()
            elif u.op == "bind":
                s = (u.args[3]._fv - {u.args[0]}) | u.args[1]._fv | u.args[2]._fv
            else:
                s = frozenset().union(*[a._fv for a in u.args])
            u._fv = s
            stack.pop()
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "pow":
        return powi(args[0], t.data)
    if op == "app":
        if len(args) == 1 and t.sort == R:
            if t.data == "sqrt":
                return sqrt(args[0])
            if t.data == "toreal" and args[0].op == "num":
                return num(args[0].data, R)
            return fn1(t.data, args[0])
        return mk("app", args, t.data, t.sort)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "ite":
        return ite(*args)
    return mk(op, args, t.data, t.sort)


def subst(t, m, memo=None):
    """m: dict var-term -> term"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args or not (fv(t) & m.keys()):
        r = t
    elif t.op == "bind":
        bv = t.args[0]
        if bv in m:
            m2 = {k: v for k, v in m.items() if k is not bv}
            memo2 = {}
        else:
            m2, memo2 = m, memo
        # capture avoidance: rename if bv free in any replacement
        if any(bv in fv(v) for v in m2.values()):
            nb = fresh("b", bv.sort)
            body = subst(t.args[3], {bv: nb})
            r = mk("bind", (nb, subst(t.args[1], m2, memo2), subst(t.args[2], m2, memo2), subst(body, m2)), t.data, t.sort)
        else:
            r = mk("bind", (bv, subst(t.args[1], m2, memo2), subst(t.args[2], m2, memo2), subst(t.args[3], m2, memo2)), t.data, t.sort)
    else:
        r = rebuild(t, [subst(a, m, memo) for a in t.args])
    memo[t.id] = r
    return r


def replace(t, m, memo=None):
    """Replace arbitrary subterms (by identity)."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r
    r = t if not t.args else rebuild(t, [replace(a, m, memo) for a in t.args])
    memo[t.id] = r
    return r


def subterms(*ts):
    seen, out, stack = set(), [], list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        stack.extend(t.args)
    return out


def show(t, depth=0):
    if depth > 14:
        return "..."
    a = [show(x, depth + 1) for x in t.args]
    op = t.op
    if op == "num":
        d = t.data
        return str(d) if d.denominator < 10 ** 6 else repr(float(d))
    if op == "var":
        return t.data
    if op == "add":
        return "(" + " + ".join(a) + ")"
    if op == "mul":
        return "*".join(a)
    if op == "div":
        return "(%s)/(%s)" % tuple(a)
    if op == "pow":
        return "(%s)^%d" % (a[0], t.data)
    if op == "app":
        return "%s(%s)" % (t.data, ", ".join(a))
    if op in ("lt", "le", "eq"):
        return "%s %s %s" % (a[0], {"lt": "<", "le": "<=", "eq": "=="}[op], a[1])
    if op == "ite":
        return "(if %s then %s else %s)" % tuple(a)
    if op == "bind":
        return "%s[%s in %s..%s](%s)" % ((t.data,) + tuple(a))
    if op in ("true", "false"):
        return op
    return "%s(%s)" % (op, ", ".join(a))
