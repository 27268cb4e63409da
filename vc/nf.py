"""Rational-function normal form over atoms, with the algebraic laws of sqrt,
exp, log, trigonometric functions, indicators (if-then-else), sums, products
and integrals.  `Nf(sign)` decides equality of terms; every law it applies is
unconditional or guarded by a sign fact proved through `sign`."""
from fractions import Fraction
import math
import time
from . import terms as t_

F = Fraction
ONE = ()          # empty monomial


class Blowup(Exception):
    pass


LIMIT = 60000


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            del d[k]
        else:
            d[k] = n
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 4:
        raise Blowup()
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + a * b
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > LIMIT:
        raise Blowup()
    return r


def pscale(p, c):
    return {m: k * c for m, k in p.items()} if c else {}


def pkey(p):
    return tuple(sorted(p.items()))


def polysqrt(q):
    """the square root of a polynomial that is a perfect square, or None"""
    gens = sorted({i for m in q for i, e in m})
    pos = {g: n for n, g in enumerate(gens)}
    d = {}
    for m, c in q.items():
        ex = [0] * len(gens)
        for i, e in m:
            if e < 0:
                return None
            ex[pos[i]] = e
        d[tuple(ex)] = c

    def root(c):
        if c <= 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return F(a, b) if a * a == c.numerator and b * b == c.denominator else None
    lead = max(d)
    c0 = root(d[lead])
    if c0 is None or root(d[min(d)]) is None or any(e % 2 for e in lead) or any(e % 2 for e in min(d)):
        return None
    for shift in (2, 5, 11):        # a square of a rational number at rational points
        v = F(0)
        for ex, c in d.items():
            for n, e in enumerate(ex):
                c = c * F(shift + 3 * n) ** e
            v += c
        if root(v) is None:
            return None
    l2 = tuple(e // 2 for e in lead)
    out = {l2: c0}
    rem = dict(d)

    def sub(ex, c):
        k = rem.get(ex, 0) - c
        if k:
            rem[ex] = k
        else:
            rem.pop(ex, None)
    sub(lead, c0 * c0)
    while rem:
        ex = max(rem)
        t = tuple(a - b for a, b in zip(ex, l2))
        if any(e < 0 for e in t) or t in out or len(out) > 400:
            return None
        c = rem[ex] / (2 * c0)
        for k, v in out.items():
            sub(tuple(a + b for a, b in zip(k, t)), 2 * v * c)
        sub(tuple(2 * e for e in t), c * c)
        out[t] = c
    return {tuple((gens[n], e) for n, e in enumerate(ex) if e): c for ex, c in out.items()}


class Atom:
    __slots__ = ("kind", "name", "term", "poly", "idx", "key", "red", "args", "inner", "numeric")


class Nf:
    def __init__(self, sign=None, limit=None):
        self.sign_oracle = sign
        self.atoms = []
        self.index = {}
        self.memo = {}
        self.byfn = {}
        self.signmemo = {}
        self.condmemo = {}
        self.laws = set()
        self.deadline = None if limit is None else time.time() + limit
        self.ticks = 0
        self.hints = {}
        for a in getattr(sign, "assumptions", None) or ():
            self.learn(a)

    # -- atoms -------------------------------------------------------------
    def atom(self, key, kind, **kw):
        i = self.index.get(key)
        if i is None:
            a = Atom()
            a.kind = kind
            a.name = kw.get("name")
            a.term = kw.get("term")
            a.poly = kw.get("poly")
            a.red = kw.get("red")
            a.args = kw.get("args")
            a.inner = kw.get("inner")
            a.numeric = kw.get("numeric", False)
            a.key = key
            i = len(self.atoms)
            a.idx = i
            self.atoms.append(a)
            self.index[key] = i
        return i

    def const(self, c):
        c = F(c)
        return {ONE: c} if c else {}

    def mono(self, i, e=1):
        return {((i, e),): F(1)}

    # -- back to terms -----------------------------------------------------
    def atom_term(self, i):
        a = self.atoms[i]
        if a.term is None:
            if a.kind == "poly":
                a.term = self.to_term(a.poly)
            else:
                raise ValueError(a.kind)
        return a.term

    def to_term(self, p):
        out = []
        for m, c in sorted(p.items()):
            fs = [t_.num(c, t_.R)]
            for i, e in m:
                fs.append(t_.powi(self.atom_term(i), e))
            out.append(t_.mul(*fs))
        return t_.add(*out) if out else t_.RZERO

    # -- signs -------------------------------------------------------------
    def atom_nonneg_quick(self, i):
        a = self.atoms[i]
        if a.kind == "root" or (a.kind == "fn" and a.name in ("exp", "cosh", "abs")):
            return True
        if a.kind == "ind":
            return True
        return self.sign_of_term(self.atom_term(i)) in ("+", "0+")

    def sign_of_term(self, tm):
        s = self.signmemo.get(tm.id)
        if s is None:
            if tm.op == "num":
                s = "+" if tm.data > 0 else "-" if tm.data < 0 else "0"
            else:
                s = self.sign_oracle(tm) if self.sign_oracle else "?"
            self.signmemo[tm.id] = s
        return s

    def sign_of_poly(self, p):
        """'+', '0+', '-', '0-', '?'"""
        if not p:
            return "0"
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            strict = True
            for i, e in m:
                if e % 2 == 0:
                    if self.sign_of_term(self.atom_term(i)) not in ("+", "-"):
                        strict = False
                    continue
                k = self.sign_of_term(self.atom_term(i))
                if k in ("+", "0+"):
                    strict = strict and k == "+"
                elif k in ("-", "0-"):
                    s = -s
                    strict = strict and k == "-"
                else:
                    return "?"
            return {1: "+", -1: "-"}[s] if strict else {1: "0+", -1: "0-"}[s]
        if self.hints:
            h = self.hint(p)
            if h != "?":
                return h
        s = self.monomials(p)
        return s if s in ("+", "-") else self.sign_of_term(self.to_term(p))

    def monomials(self, p):
        """sign of a sum whose monomials all have one sign"""
        ss = set()
        for m, c in p.items():
            ss.add(self.sign_of_poly({m: c}))
            if "?" in ss or (ss & {"+", "0+"} and ss & {"-", "0-"}):
                return "?"
        neg = bool(ss & {"-", "0-"})
        return ("" if ss & {"+", "-"} else "0") + ("-" if neg else "+")

    def learn(self, a):
        """signs of assumed differences, looked up by their normal form"""
        if a.op == "and":
            for x in a.args:
                self.learn(x)
        elif a.op in ("lt", "le") and any(u.op == "bind" for u in t_.subterms(a)):
            x, y = a.args
            if x.sort != t_.R or sum(1 for _ in t_.subterms(a)) > 400:
                return
            try:
                d = padd(self.nf(y), self.nf(x), -1)
                if len(d) < 2 or len(d) > 200:
                    return
                c, m, q = self.content(d)
                if m and self.sign_of_poly({m: F(1)}) != "+":
                    return
                st = "" if a.op == "lt" else "0"
                self.hints.setdefault(pkey(q), st + ("+" if c > 0 else "-"))
                self.signmemo.clear()
            except (Blowup, ZeroDivisionError):
                pass

    def hint(self, p):
        c, m, q = self.content(p)
        h = self.hints.get(pkey(q))
        if h is None:
            return "?"
        s = self.sign_of_poly({m: F(1)}) if m else "+"
        if s not in ("+", "-"):
            return "?"
        neg = (s == "-") != (c < 0)
        return h if not neg else h.replace("+", "x").replace("-", "+").replace("x", "-")

    # -- inverse -----------------------------------------------------------
    def content(self, p):
        """(c, m, q) with p = c*m*q, q primitive with leading coefficient 1"""
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                for k in list(mins):
                    e = d.get(k, 0)
                    mins[k] = min(mins[k], e)
                for k, e in d.items():
                    if k not in mins:
                        mins[k] = min(0, e)
        # keys missing from earlier monomials have exponent 0 there
        m0 = {k: e for k, e in mins.items() if e != 0}
        # correct: key absent in some monomial -> min(.,0)
        for m in p:
            d = dict(m)
            for k in list(m0):
                if d.get(k, 0) < m0[k]:
                    m0[k] = d.get(k, 0)
        m0 = tuple(sorted((k, e) for k, e in m0.items() if e != 0))
        inv = tuple((k, -e) for k, e in m0)
        q = {mmul(m, inv): c for m, c in p.items()}
        lead = max(q)
        c0 = q[lead]
        q = {m: c / c0 for m, c in q.items()}
        return c0, m0, q

    def polyatom(self, q):
        return self.atom(("poly", pkey(q)), "poly", poly=q)

    def inverse(self, p, n=1):
        p = self.reduce(p)
        if not p:
            raise ZeroDivisionError("inverse of zero")
        if len(p) == 1:
            (m, c), = p.items()
            return self.fix({tuple((k, -e * n) for k, e in m): (1 / c) ** n})
        c, m, q = self.content(p)
        q = self.expand(q)
        c2, m2, q = self.content(q)
        m = mmul(m, m2)
        c = c * c2
        if len(q) == 1:
            return self.inverse({mmul(m, list(q)[0]): c}, n)
        i = self.polyatom(q)
        mm = tuple((k, -e * n) for k, e in m)
        return self.fix({mmul(mm, ((i, -n),)): (1 / c) ** n})

    def power(self, p, n):
        if n < 0:
            return self.power(self.inverse(p), -n)
        r = self.const(1)
        b = p
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def mul(self, p, q):
        return self.fix(pmul(p, q))

    # -- local reduction of monomials ---------------------------------------
    def fix(self, p):
        if self.deadline is not None:
            self.ticks += 1
            if self.ticks % 64 == 0 and time.time() > self.deadline:
                raise Blowup()
        return self.fix1(p)

    def fix1(self, p):
        """apply atom laws: positive powers of poly atoms, roots, indicators,
        sin^2"""
        todo = False
        for m in p:
            for i, e in m:
                a = self.atoms[i]
                if a.kind in ("poly", "root", "ind", "rootn") or (a.kind == "fn" and a.name == "sin"):
                    if a.kind == "poly" and e > 0:
                        todo = True
                    elif a.kind == "root" and (e < 0 or e > 1) and (a.red is not None):
                        todo = True
                    elif a.kind == "ind" and e != 1:
                        todo = True
                    elif a.kind == "fn" and e >= 2:
                        todo = True
            if todo:
                break
        numroots = False
        for m in p:
            k = 0
            for i, e in m:
                if self.atoms[i].numeric:
                    k += 1
            if k > 1:
                numroots = True
        if not todo and not numroots:
            return p
        out = {}
        for m, c in p.items():
            out = padd(out, self.fixmono(m, c))
        return out

    def fixmono(self, m, c):
        base = []
        extra = None
        nums = []
        for i, e in m:
            a = self.atoms[i]
            if a.numeric:
                k, r = divmod(e, 2)
                c = c * a.inner ** k
                if r:
                    nums.append(a.inner)
                continue
            if a.kind == "poly" and e > 0:
                x = self.power(a.poly, e)
            elif a.kind == "root" and a.red is not None and (e < 0 or e > 1):
                k, r = divmod(e, 2)
                x = self.power(a.red, k)
                if r:
                    base.append((i, 1))
            elif a.kind == "ind" and e != 1:
                base.append((i, 1))
                continue
            elif a.kind == "fn" and a.name == "sin" and e >= 2:
                k, r = divmod(e, 2)
                cosi = self.fnatom("cos", a.args)
                x = self.power(padd(self.const(1), self.power(cosi, 2), -1), k)
                if r:
                    base.append((i, 1))
            else:
                base.append((i, e))
                continue
            extra = x if extra is None else self.mul(extra, x)
        if nums:
            prod = F(1)
            for q in nums:
                prod *= q
            cc, i = self.numroot(prod)
            c = c * cc
            if i is not None:
                base.append((i, 1))
        b = {}
        for k, e in base:
            b[k] = b.get(k, 0) + e
        bm = tuple(sorted((k, e) for k, e in b.items() if e))
        r = {bm: c}
        if extra is not None:
            r = self.mul(r, extra)
        return r

    def numroot(self, q):
        """sqrt(q) for rational q>0 -> (coefficient, atom or None)"""
        n = q.numerator * q.denominator
        co = F(1, q.denominator)
        s = math.isqrt(n)
        if s * s == n:
            return co * s, None
        for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
            while n % (p * p) == 0:
                n //= p * p
                co *= p
        s = math.isqrt(n)
        if s * s == n:
            return co * s, None
        tm = t_.mk("app", (t_.num(F(n), t_.R),), "sqrt", t_.R)
        return co, self.atom(("nroot", n), "root", term=tm, red=self.const(n), numeric=True, inner=F(n))

    # -- expansion of denominators for the zero test ----------------------------
    def expand(self, p):
        """multiply through by poly atoms until none is left; returns the
        numerator (zero iff p is zero)"""
        for _ in range(60):
            mins = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i].kind == "poly" and e < 0:
                        mins[i] = min(mins.get(i, 0), e)
            if not mins:
                return p
            # innermost first: highest index atoms may contain lower ones
            i = max(mins)
            p = self.fix({mmul(m, ((i, -mins[i]),)): c for m, c in p.items()})
        raise Blowup()

    def definite(self, p, depth=0):
        """sign read off the monomials, denominators multiplied out; '?' when
        the monomials disagree"""
        flip = False
        for _ in range(30):
            for m in p:
                for i, e in m:
                    a = self.atoms[i]
                    if depth < 3 and a.kind == "root" and not a.numeric and self.sign_of_term(self.atom_term(i)) == "0+":
                        if self.definite(a.inner, depth + 1) == "+":
                            self.signmemo[self.atom_term(i).id] = "+"
            k = self.monomials(p) if p else "0"
            if k != "?":
                return {"+": "-", "0+": "0-", "-": "+", "0-": "0+"}.get(k, k) if flip else k
            mins = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i].kind == "poly" and e < 0:
                        mins[i] = min(mins.get(i, 0), e)
            if not mins:
                return "?"
            i = max(mins)
            if mins[i] % 2:
                k = self.sign_of_term(self.atom_term(i))
                if k == "?" and depth < 3:
                    k = self.definite(self.atoms[i].poly, depth + 1)
                    self.signmemo[self.atom_term(i).id] = k
                if k not in ("+", "-"):
                    return "?"
                flip = flip != (k == "-")
            p = self.fix({mmul(m, ((i, -mins[i]),)): c for m, c in p.items()})
            if not p:
                return "0"
        return "?"

    def reduce(self, p):
        return p

    def is_zero(self, p):
        if not p:
            return True
        p = self.expand(p)
        if not p:
            return True
        # clear monomial denominators of roots etc. (already in {0,1})
        for _ in range(20):
            q = self.fix(p)
            q = self.expand(q)
            if not q:
                return True
            if q == p:
                break
            p = q
        return not p

    # -- functions -----------------------------------------------------------
    def lead_negative(self, p):
        return bool(p) and p[max(p)] < 0

    def fnatom(self, name, args):
        """args: tuple of polys"""
        key = ("fn", name, tuple(pkey(a) for a in args))
        i = self.index.get(key)
        if i is not None:
            return self.mono(i)
        for j in self.byfn.get((name, len(args)), ()):
            a = self.atoms[j]
            if all(x == y or self.is_zero(padd(x, y, -1)) for x, y in zip(a.args, args)):
                self.index[key] = j
                return self.mono(j)
        term = t_.app(name, *[self.to_term(a) for a in args])
        i = self.atom(key, "fn", name=name, term=term, args=args)
        self.byfn.setdefault((name, len(args)), []).append(i)
        return self.mono(i)

    def factors(self, p):
        """p = c * prod f^e with f polys (single atoms or irreducible).
        Returns (c, [(poly, e)])"""
        if len(p) == 1:
            (m, c), = p.items()
            return c, [({((i, 1),): F(1)} if self.atoms[i].kind != "poly" else self.atoms[i].poly, e) for i, e in m]
        # common denominator
        mins = {}
        for m in p:
            for i, e in m:
                if self.atoms[i].kind == "poly" and e < 0:
                    mins[i] = min(mins.get(i, 0), e)
        out = []
        q = p
        for i in sorted(mins, reverse=True):
            q = self.fix({mmul(m, ((i, -mins[i]),)): c for m, c in q.items()})
            out.append((i, mins[i]))
        q = self.expand(q) if any(self.atoms[i].kind == "poly" for m in q for i, e in m) else q
        if not q:
            return F(0), []
        c, m, q = self.content(q)
        res = [({((i, 1),): F(1)}, e) for i, e in m]
        for i, e in out:
            for f, k in self.polyfactor(self.atoms[i].poly):
                res.append((f, e * k))
        if len(q) > 1:
            for f, k in self.polyfactor(q):
                res.append((f, k))
        # merge equal factors
        merged = {}
        for f, e in res:
            k = pkey(f)
            if k in merged:
                merged[k][1] += e
            else:
                merged[k] = [f, e]
        return c, [(f, e) for f, e in merged.values() if e]

    def polyfactor(self, q):
        """irreducible factors of a primitive polynomial (product equals q)"""
        memo = self.memo.setdefault("factor", {})
        key = pkey(q)
        if key in memo:
            return memo[key]
        res = [(q, 1)]
        gens = sorted({i for m in q for i, e in m})
        if len(q) <= 80 and gens and all(e >= 0 for m in q for i, e in m) and \
                all(k.denominator < 10 ** 8 and abs(k.numerator) < 10 ** 12 for k in q.values()):
            from sympy.polys.rings import ring
            from sympy import QQ
            R_, *xs = ring(["x%d" % g for g in gens], QQ)
            pos = {g: n for n, g in enumerate(gens)}
            d = {}
            for m, c in q.items():
                ex = [0] * len(gens)
                for i, e in m:
                    ex[pos[i]] = e
                d[tuple(ex)] = QQ(c.numerator, c.denominator)
            P = R_.from_dict(d)
            c, fl = P.factor_list()
            if len(fl) > 1 or (fl and fl[0][1] > 1):
                res = []
                tot = F(int(c.numerator), int(c.denominator))
                for f, e in fl:
                    pf = {}
                    for ex, cc in f.items():
                        m = tuple((gens[n], k) for n, k in enumerate(ex) if k)
                        pf[m] = F(int(cc.numerator), int(cc.denominator))
                    lead = pf[max(pf)]
                    pf = {m: k / lead for m, k in pf.items()}
                    tot *= lead ** e
                    res.append((pf, e))
                if tot != 1:
                    res.append(({ONE: tot}, 1))
        elif 80 < len(q) <= 3000:
            r = polysqrt(q)
            if r is not None:
                c, m, f = self.content(r)
                res = [(f, 2)] + ([({ONE: c * c}, 1)] if c * c != 1 else []) + [({((i, 1),): F(1)}, 2 * e) for i, e in m]
        memo[key] = res
        return res

    def absval(self, f):
        s = self.sign_of_poly(f)
        if s in ("+", "0+", "0"):
            return f
        if s in ("-", "0-"):
            return pscale(f, -1)
        if self.lead_negative(f):
            f = pscale(f, -1)
        return self.fnatom("abs", (f,))

    def sqrt(self, p):
        p = self.cancel(p)
        if not p:
            return {}
        c, fs = self.factors(p)
        out = self.const(1)
        rest = self.const(1)
        sgn = 1 if c > 0 else -1
        c = abs(c)
        for f, e in fs:
            if len(f) == 1 and ONE in f:
                k = f[ONE]
                if k < 0 and e % 2:
                    sgn = -sgn
                c *= abs(k) ** e
                continue
            if e % 2 == 0:
                h = e // 2
                if h % 2 == 0:
                    out = self.mul(out, self.power(f, h))
                else:
                    out = self.mul(out, self.power(self.absval(f), h))
                continue
            s = self.sign_of_poly(f)
            h = (e - 1) // 2
            if s in ("+", "0+"):
                out = self.mul(out, self.power(f, h))
                out = self.mul(out, self.rootatom(f))
            elif s in ("-", "0-"):
                g = pscale(f, -1)
                sgn = -sgn
                out = self.mul(out, self.power(g, h))
                out = self.mul(out, self.rootatom(g))
            else:
                if h:
                    out = self.mul(out, self.power(f, h) if h % 2 == 0 else self.power(self.absval(f), h))
                rest = self.mul(rest, f)
        if rest == self.const(1):
            if sgn < 0:
                # square root of a negative number: keep opaque
                return self.fnatom("sqrt?", (p,))
            cc, i = self.numroot(c)
            out = pscale(out, cc)
            return out if i is None else self.mul(out, self.mono(i))
        if len(rest) > 1:
            k, m, q = self.content(rest)
            if k < 0:
                rest = pscale(rest, 1 / -k)
            else:
                rest = pscale(rest, 1 / k)
            c = c * abs(k)
        rest = pscale(rest, sgn)
        cc, i = self.numroot(c)
        out = pscale(out, cc)
        if i is not None:
            out = self.mul(out, self.mono(i))
        return self.mul(out, self.rootatom(rest))

    def rootatom(self, f):
        if len(f) == 1 and ONE in f:
            cc, i = self.numroot(f[ONE])
            return self.const(cc) if i is None else pscale(self.mono(i), cc)
        # products of atoms split, each non-negative (callers guarantee for
        # single factors)
        key = ("root", pkey(f))
        j = self.index.get(key)
        if j is None:
            for k in self.byfn.get("root", ()):
                a = self.atoms[k]
                if self.is_zero(padd(a.inner, f, -1)):
                    self.index[key] = k
                    j = k
                    break
        if j is None:
            s = self.definite(f)
            if s == "?":
                s = self.sign_of_poly(f)
            ok = s in ("+", "0+", "0")
            term = t_.sqrt(self.to_term(f))
            j = self.atom(key, "root" if ok else "rootn", term=term, red=(f if ok else None), inner=f)
            self.byfn.setdefault("root", []).append(j)
        return self.mono(j)

    def cancel(self, p):
        """put over a common denominator, and drop denominators that divide"""
        if len(p) <= 1:
            return p
        mins = {}
        for m in p:
            for i, e in m:
                if self.atoms[i].kind == "poly" and e < 0:
                    mins[i] = min(mins.get(i, 0), e)
        if not mins:
            return p
        q = p
        for i in sorted(mins, reverse=True):
            q = self.fix({mmul(m, ((i, -mins[i]),)): c for m, c in q.items()})
        if not q:
            return {}
        changed = False
        for i in sorted(mins, reverse=True):
            k = -mins[i]
            while k > 0:
                d = self.divide(q, self.atoms[i].poly)
                if d is None:
                    break
                q = d
                k -= 1
                changed = True
            if k:
                q = {mmul(m, ((i, -k),)): c for m, c in q.items()}
        return self.fix(q) if changed else p

    def divide(self, p, d):
        """exact division of p by the polynomial d, or None"""
        if len(p) > 2000:
            return None
        lead = max(d)
        # use a proper monomial order: graded lex on a fixed variable list
        gens = sorted({i for m in d for i, e in m} | {i for m in p for i, e in m})
        pos = {g: n for n, g in enumerate(gens)}

        def vec(m):
            v = [0] * len(gens)
            for i, e in m:
                v[pos[i]] = e
            return tuple(v)
        dv = sorted(((vec(m), c, m) for m, c in d.items()), reverse=True)
        lv, lc, lm = dv[0]
        # shift p so all exponents nonnegative
        pv = {vec(m): c for m, c in p.items()}
        low = [min(v[n] for v in pv) for n in range(len(gens))]
        pv = {tuple(a - b for a, b in zip(v, low)): c for v, c in pv.items()}
        qv = {}
        steps = 0
        while pv:
            steps += 1
            if steps > 3000:
                return None
            v = max(pv)
            c = pv[v]
            e = tuple(a - b for a, b in zip(v, lv))
            if min(e) < 0:
                return None
            k = c / lc
            qv[e] = k
            for w, cc, _ in dv:
                u = tuple(a + b for a, b in zip(w, e))
                n = pv.get(u, 0) - k * cc
                if n == 0:
                    pv.pop(u, None)
                else:
                    pv[u] = n
        out = {}
        for v, c in qv.items():
            m = tuple((gens[n], a + b) for n, (a, b) in enumerate(zip(v, low)) if a + b)
            out[m] = c
        return out

    def exp(self, p):
        p = self.cancel(p)
        out = self.const(1)
        for m, c in sorted(p.items()):
            # exp(log x) = x for positive x
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a.kind == "fn" and a.name == "log" and c.denominator == 1 and \
                        self.sign_of_poly(a.args[0]) == "+":
                    out = self.mul(out, self.power(a.args[0], int(c)))
                    continue
            base = self.fnatom("exp", ({m: F(1, c.denominator)},))
            if len(base) == 1:
                (mm, cc), = base.items()
                out = self.mul(out, {tuple((k, e * int(c.numerator)) for k, e in mm): cc ** int(c.numerator)})
            else:
                out = self.mul(out, self.power(base, int(c.numerator)))
        return out

    def log(self, p):
        p = self.cancel(p)
        if not p:
            return self.fnatom("log", (p,))
        c, fs = self.factors(p)
        if c < 0:
            fs = fs + [({ONE: F(-1)}, 1)]
            c = -c
        out = {}
        rest = self.const(1)
        for f, e in fs:
            if len(f) == 1 and ONE in f:
                if f[ONE] > 0:
                    c *= f[ONE] ** e
                else:
                    rest = pscale(rest, f[ONE])
                continue
            s = self.sign_of_poly(f)
            if s == "-":
                f = pscale(f, -1)
                if e % 2:
                    rest = pscale(rest, -1)
                s = "+"
            if s == "+":
                out = padd(out, pscale(self.log1(f), e))
            else:
                rest = self.mul(rest, self.power(f, e))
        if c != 1:
            k = F(c)
            sg = 1
            if k < 1:
                k, sg = 1 / k, -1
            out = padd(out, pscale(self.fnatom("log", (self.const(k),)), sg))
        if rest == self.const(1):
            return out
        return padd(out, self.fnatom("log", (rest,)))

    def log1(self, f):
        if len(f) == 1:
            (m, c), = f.items()
            if len(m) == 1 and c == 1:
                a = self.atoms[m[0][0]]
                if a.kind == "fn" and a.name == "exp" and m[0][1] == 1:
                    return a.args[0]
                if a.kind == "root" and a.red is not None and m[0][1] == 1:
                    return pscale(self.log(a.red), F(1, 2))
        return self.fnatom("log", (f,))

    def powsym(self, b, e):
        """real power with a symbolic or fractional exponent"""
        b, e = self.cancel(b), self.cancel(e)
        k = e.get(ONE, F(0))
        if not e or (len(e) == 1 and ONE in e and k.denominator == 1 and abs(k) <= 200):
            return self.power(b, int(k)) if b or k >= 0 else self.fnatom("pow", (b, e))
        if len(b) == 1 and ONE in b and b[ONE] == 1:
            return b
        if not b:
            return self.fnatom("pow", (b, e))
        c, fs = self.factors(b)
        fs = [(f, k) for f, k in fs]
        if c != 1:
            fs.append(({ONE: c}, 1))
        out = self.const(1)
        rest = self.const(1)
        for f, k in fs:
            s = self.sign_of_poly(f)
            if s == "+":
                out = self.mul(out, self.exp(self.mul(pscale(e, k), self.log(f))))
            else:
                rest = self.mul(rest, self.power(f, k))
        if rest == self.const(1):
            return out
        # x**(e+k) = x**e * x**k
        k = e.get(ONE, F(0))
        n = k.numerator // k.denominator
        if n and len(e) > 1:
            e = {m: v for m, v in e.items() if m != ONE}
            if k - n:
                e[ONE] = k - n
            out = self.mul(out, self.power(rest, n))
        return self.mul(out, self.fnatom("pow", (rest, e)))

    ODD = {"sin", "tan", "atan", "asin", "sinh", "tanh", "atanh", "asinh", "erf"}
    EVEN = {"cos", "cosh", "abs"}

    def func(self, name, args):
        if name == "sqrt":
            return self.sqrt(args[0])
        if name == "exp":
            return self.exp(args[0])
        if name == "log":
            return self.log(args[0])
        if name == "abs":
            return self.absval(args[0])
        if name == "pow":
            return self.powsym(args[0], args[1])
        if name == "toreal":
            return args[0]
        if name == "tan":
            return self.mul(self.func("sin", args), self.inverse(self.func("cos", args)))
        if name == "tanh":
            return self.mul(self.func("sinh", args), self.inverse(self.func("cosh", args)))
        if name == "sinh":
            e = self.exp(args[0])
            return pscale(padd(e, self.inverse(e), -1), F(1, 2))
        if name == "cosh":
            e = self.exp(args[0])
            return pscale(padd(e, self.inverse(e)), F(1, 2))
        if name == "atanh":
            a = args[0]
            one = self.const(1)
            if self.sign_of_poly(padd(one, a, -1)) == "+" and self.sign_of_poly(padd(one, a)) == "+":
                return pscale(padd(self.log(padd(one, a)), self.log(padd(one, a, -1)), -1), F(1, 2))
        if name in self.ODD and len(args) == 1:
            a = self.cancel(args[0])
            if not a:
                return {}
            if self.lead_negative(a):
                return pscale(self.fnatom(name, (pscale(a, -1),)), -1)
            return self.fnatom(name, (a,))
        if name in self.EVEN and len(args) == 1:
            a = self.cancel(args[0])
            if self.lead_negative(a):
                a = pscale(a, -1)
            return self.fnatom(name, (a,))
        return self.fnatom(name, tuple(self.cancel(a) for a in args))

    # -- conditions ------------------------------------------------------------
    def ind(self, c):
        """indicator polynomial of a boolean term"""
        r = self.condmemo.get(c.id)
        if r is not None:
            return r
        op = c.op
        if op == "true":
            r = self.const(1)
        elif op == "false":
            r = {}
        elif op == "not":
            r = padd(self.const(1), self.ind(c.args[0]), -1)
        elif op == "and":
            r = self.const(1)
            for a in c.args:
                r = self.mul(r, self.ind(a))
        elif op == "or":
            r = self.const(1)
            for a in c.args:
                r = self.mul(r, padd(self.const(1), self.ind(a), -1))
            r = padd(self.const(1), r, -1)
        elif op in ("lt", "le"):
            a, b = c.args
            d = padd(self.nf(b), self.nf(a), -1)
            if op == "lt":
                r = self.pos(d)
            else:
                r = padd(self.const(1), self.pos(pscale(d, -1)), -1)
        elif op == "eq":
            a, b = c.args
            d = padd(self.nf(a), self.nf(b), -1)
            r = self.condatom("eq0", d, sym=True)
        elif op == "ite":
            i = self.ind(c.args[0])
            a, b = self.ind(c.args[1]), self.ind(c.args[2])
            r = padd(b, self.mul(i, padd(a, b, -1)))
        elif op == "bind":
            r = self.bind(c)
        else:
            # boolean variable / application
            args = tuple(self.nf(a) for a in c.args)
            key = ("bool", c.op, c.data, tuple(pkey(a) for a in args))
            one = t_.ite(c, t_.RONE, t_.RZERO)
            r = self.mono(self.atom(key, "ind", term=one))
        self.condmemo[c.id] = r
        return r

    def pos(self, d):
        d = self.cancel(d)
        if not d:
            return {}
        s = self.sign_of_poly(d)
        if s == "+":
            return self.const(1)
        if s in ("-", "0-", "0"):
            return {}
        return self.condatom("pos", d)

    def condatom(self, kind, d, sym=False):
        d = self.cancel(d)
        if not d:
            return self.const(1) if kind == "eq0" else {}
        if len(d) == 1 and ONE in d:
            if kind == "eq0":
                return {}
            return self.const(1) if d[ONE] > 0 else {}
        # scale by a positive constant, strip positive single-atom factors
        c, m, q = self.content(d)
        keep = []
        for i, e in m:
            s = self.sign_of_term(self.atom_term(i)) if (kind == "pos" and e % 2) else "?"
            if kind == "pos" and s == "+":
                continue
            keep.append((i, e))
        d = {mmul(k, tuple(keep)): v for k, v in q.items()}
        if c < 0 and not sym:
            d = pscale(d, -1)
        if sym and self.lead_negative(d):
            d = pscale(d, -1)
        key = (kind, pkey(d))
        i = self.index.get(key)
        if i is None:
            for j in self.byfn.get(kind, ()):
                if self.is_zero(padd(self.atoms[j].inner, d, -1)):
                    self.index[key] = j
                    return self.mono(j)
            tm = self.to_term(d)
            b = t_.lt(t_.RZERO, tm) if kind == "pos" else t_.eq(tm, t_.RZERO)
            i = self.atom(key, "ind", term=t_.ite(b, t_.RONE, t_.RZERO), inner=d)
            self.byfn.setdefault(kind, []).append(i)
        return self.mono(i)

    # -- binders ---------------------------------------------------------------
    def bind(self, t):
        bv, lo, hi, body = t.args
        kind = t.data
        L, H = self.cancel(self.nf(lo)), self.cancel(self.nf(hi))
        if kind not in ("sum", "int", "prod", "all", "any"):
            p = self.cancel(self.nf(body))
            key = ("bind", kind, bv.id, pkey(L), pkey(H), pkey(p))
            i = self.index.get(key)
            if i is None:
                for j in self.byfn.get(("bind", kind), ()):
                    a = self.atoms[j]
                    if a.args[3] is bv and all(self.is_zero(padd(x, y, -1)) for x, y in zip(a.args, (L, H, p))):
                        i = self.index[key] = j
                        break
            if i is None:
                tm = t_.mk("bind", (bv, self.to_term(L), self.to_term(H), self.to_term(p)), kind, t.sort)
                i = self.atom(key, "fn", name=kind, term=tm, args=(L, H, p, bv))
                self.byfn.setdefault(("bind", kind), []).append(i)
            return self.mono(i)
        if kind in ("all", "any"):
            b = self.ind(body)
            key = ("bind", kind, bv.id, pkey(L), pkey(H), pkey(b))
            return self.mono(self.atom(key, "ind", term=t_.ite(t, t_.RONE, t_.RZERO)))
        if kind in ("sum", "prod") and len(padd(H, L, -1)) <= 1:
            d = padd(H, L, -1)
            n = d.get(ONE, F(0)) if d else F(0)
            if (not d or ONE in d) and n.denominator == 1 and 0 <= n <= 12:
                r = self.const(0 if kind == "sum" else 1)
                for k in range(int(n)):
                    x = self.nf(t_.subst(body, {bv: t_.add(lo, t_.num(k))}))
                    r = padd(r, x) if kind == "sum" else self.mul(r, x)
                return r
        p = self.nf(body)
        dep = {}

        def depends(i):
            if i not in dep:
                a = self.atoms[i]
                dep[i] = bv in t_.fv(self.atom_term(i))
            return dep[i]
        if kind == "prod":
            key = ("bind", "prod", bv.id, pkey(L), pkey(H), pkey(p))
            tm = t_.prod_(bv, lo, hi, self.to_term(p))
            return self.mono(self.atom(key, "fn", name="prod", term=tm, args=()))
        if not p:
            return {}
        out = {}
        groups = {}
        for m, c in p.items():
            ind_, d = [], []
            for i, e in m:
                (d if depends(i) else ind_).append((i, e))
            g = groups.setdefault(tuple(d), {})
            k = tuple(ind_)
            g[k] = g.get(k, 0) + c
        for d, coef in groups.items():
            coef = {k: v for k, v in coef.items() if v}
            if not coef:
                continue
            if not d:
                if kind == "sum":
                    # number of terms (hi >= lo by construction)
                    base = padd(H, L, -1)
                else:
                    base = padd(H, L, -1)
            else:
                tm = self.to_term({d: F(1)})
                base = None
                if kind == "int" and len(d) == 1 and self.atoms[d[0][0]].term is bv and d[0][1] >= 0:
                    # integral of a power
                    n = d[0][1]
                    base = pscale(padd(self.power(H, n + 1), self.power(L, n + 1), -1), F(1, n + 1))
                if base is None:
                    depth = 0
                    for u in t_.subterms(tm, lo, hi):
                        if u.op == "bind" and u.args[0].data.startswith("β"):
                            depth = max(depth, int(u.args[0].data[1:].split("@")[0].rstrip("ri")))
                    cn = "β%d%s" % (depth + 1, "i" if bv.sort == t_.I else "r")
                    if "@" in bv.data:
                        cn += bv.data[bv.data.index("@"):]
                    if bv.data.startswith("β") and cn != bv.data:
                        cv = t_.var(cn, bv.sort)
                        base = self.bind(t_.mk("bind", (cv, lo, hi, t_.subst(tm, {bv: cv})), kind, t.sort))
                if base is None:
                    key = ("bind", kind, bv.id, pkey(L), pkey(H), pkey({d: F(1)}))
                    i = self.index.get(key)
                    if i is None:
                        for j in self.byfn.get(("bind", kind), ()):
                            a = self.atoms[j]
                            if a.args[3] is bv and self.is_zero(padd(a.args[0], L, -1)) and \
                                    self.is_zero(padd(a.args[1], H, -1)) and \
                                    self.is_zero(padd(a.args[2], {d: F(1)}, -1)):
                                i = j
                                self.index[key] = j
                                break
                    if i is None:
                        mkf = t_.sum_ if kind == "sum" else t_.integral
                        i = self.atom(key, "fn", name=kind, term=mkf(bv, self.to_term(L), self.to_term(H), tm),
                                      args=(L, H, {d: F(1)}, bv))
                        self.byfn.setdefault(("bind", kind), []).append(i)
                    base = self.mono(i)
            out = padd(out, self.mul(self.fix(coef), base))
        return out

    # -- main --------------------------------------------------------------------
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "num":
            r = self.const(t.data)
        elif op == "var":
            r = self.mono(self.atom(("var", t.id), "var", term=t))
        elif op == "add":
            r = {}
            for a in t.args:
                r = padd(r, self.nf(a))
        elif op == "mul":
            r = self.const(1)
            for a in t.args:
                r = self.mul(r, self.nf(a))
        elif op == "div":
            d = self.nf(t.args[1])
            if not d or self.is_zero(d):
                r = self.mul(self.nf(t.args[0]), self.fnatom("inv0", ({},)))
            else:
                r = self.mul(self.nf(t.args[0]), self.inverse(d))
        elif op == "pow":
            r = self.power(self.nf(t.args[0]), t.data)
        elif op == "app":
            if t.sort == t_.B:
                r = self.ind(t)
            else:
                r = self.func(t.data, tuple(self.nf(a) for a in t.args))
        elif op == "ite":
            i = self.ind(t.args[0])
            if i == self.const(1):
                r = self.nf(t.args[1])
            elif not i:
                r = self.nf(t.args[2])
            else:
                a, b = self.nf(t.args[1]), self.nf(t.args[2])
                r = padd(b, self.mul(i, padd(a, b, -1)))
        elif op == "bind":
            r = self.bind(t)
        elif t.sort == t_.B:
            r = self.ind(t)
        else:
            raise ValueError(op)
        self.memo[t.id] = r
        return r

    def equal(self, a, b):
        d = padd(self.nf(a), self.nf(b), -1)
        return self.is_zero(d)
