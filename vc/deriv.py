"""Symbolic differentiation of terms (the calculus rules are part of the
trusted base; derivatives of Bessel functions and of splines are the standard
ones)."""
from . import terms as t_

N = t_.num


class NoRule(Exception):
    pass


def _special(t, d):
    n = t.data
    if n == "special.k1":
        u = t.args[0]
        return t_.mul(d(u), t_.neg(t_.add(t_.app("special.k0", u), t_.div(t, u))))
    if n == "special.k0":
        return t_.mul(d(t.args[0]), t_.neg(t_.app("special.k1", t.args[0])))
    if n in ("special.kn", "special.kv"):
        k, u = t.args
        if k.op == "num" and k.data in (1, 2):
            low = t_.app("special.k1", u) if k.data == 2 else t_.app("special.k0", u)
            return t_.mul(d(u), t_.neg(t_.add(low, t_.div(t_.mul(k, t), u))))
    if n.startswith("spline_"):
        u = t.args[0]
        return t_.mul(d(u), t_.app("splder_" + n[len("spline_"):], *t.args))
    raise NoRule(n)


def diff(t, x):
    memo = {}
    zero = t_.RZERO

    def d(u):
        if x not in t_.fv(u):
            return zero
        r = memo.get(u.id)
        if r is None:
            r = memo[u.id] = d0(u)
        return r

    def d0(u):
        op, a = u.op, u.args
        if u is x:
            return t_.RONE
        if op == "add":
            return t_.add(*[d(v) for v in a])
        if op == "mul":
            out = []
            for j, v in enumerate(a):
                dv = d(v)
                if not (dv.op == "num" and dv.data == 0):
                    out.append(t_.mul(dv, *[w for k, w in enumerate(a) if k != j]))
            return t_.add(*out) if out else zero
        if op == "div":
            f, g = a
            df, dg = d(f), d(g)
            return t_.sub(t_.div(df, g), t_.div(t_.mul(f, dg), t_.powi(g, 2)))
        if op == "pow":
            return t_.mul(N(u.data), t_.powi(a[0], u.data - 1), d(a[0]))
        if op == "ite":
            return t_.ite(a[0], d(a[1]), d(a[2]))
        if op == "bind":
            bv, lo, hi, body = a
            if u.data == "sum":
                if x in t_.fv(lo) or x in t_.fv(hi):
                    raise NoRule("range of a sum")
                return t_.sum_(bv, lo, hi, d(body))
            if u.data == "int":
                inner = d(body)
                parts = [t_.integral(bv, lo, hi, inner)] if not (inner.op == "num" and inner.data == 0) else []
                parts.append(t_.mul(d(hi), t_.subst(body, {bv: hi})))
                parts.append(t_.neg(t_.mul(d(lo), t_.subst(body, {bv: lo}))))
                return t_.add(*parts)
            raise NoRule(u.data)
        if op == "app":
            n, v = u.data, a[0]
            if n == "toreal":
                raise NoRule(n)
            dv = lambda: d(v)
            if n == "exp":
                return t_.mul(dv(), u)
            if n == "log":
                return t_.div(dv(), v)
            if n == "sqrt":
                return t_.div(dv(), t_.mul(N(2), u))
            if n == "sin":
                return t_.mul(dv(), t_.fn1("cos", v))
            if n == "cos":
                return t_.neg(t_.mul(dv(), t_.fn1("sin", v)))
            if n == "atan":
                return t_.div(dv(), t_.add(N(1), t_.powi(v, 2)))
            if n == "atanh":
                return t_.div(dv(), t_.sub(N(1), t_.powi(v, 2)))
            if n == "tanh":
                return t_.mul(dv(), t_.sub(t_.RONE, t_.powi(u, 2)))
            if n == "sinh":
                return t_.mul(dv(), t_.fn1("cosh", v))
            if n == "cosh":
                return t_.mul(dv(), t_.fn1("sinh", v))
            if n == "pow":
                b, e = a
                out = []
                if x in t_.fv(b):
                    out.append(t_.div(t_.mul(e, u, d(b)), b))
                if x in t_.fv(e):
                    out.append(t_.mul(u, t_.fn1("log", b), d(e)))
                return t_.add(*out)
            return _special(u, d)
        raise NoRule(op)
    return d(t)
