"""Back ends: z3 (and cvc5 as a second opinion), the normal form, and a
numeric evaluator used to find witnesses and counterexamples."""
import bisect
import math, time, random, hashlib
from fractions import Fraction
import z3
from . import terms as t_
from .nf import Nf, Blowup, padd

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "nf_calls": 0, "nf_time": 0.0}


class Z:
    """term -> z3, with defining axioms of the interpreted real functions"""

    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.byfn = {}
        self.names = {}

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in self.memo:
                stack.pop()
                continue
            kids = () if u.op == "bind" else u.args
            todo = [a for a in kids if a.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[u.id] = self.tr1(u)
            stack.pop()
        return self.memo[t.id]

    def tr1(self, t):
        op = t.op
        a = None if op == "bind" else [self.memo[x.id] for x in t.args]
        if op == "num":
            if t.sort == t_.I and t.data.denominator == 1:
                return z3.IntVal(int(t.data))
            return z3.Q(t.data.numerator, t.data.denominator)
        if op == "var":
            n = t.data
            return {t_.R: z3.Real, t_.I: z3.Int, t_.B: z3.Bool}[t.sort](n)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("add", "mul"):
            if t.sort == t_.R or any(x.sort == t_.R for x in t.args):
                a = [self.real(x) for x in a]
            r = a[0]
            for x in a[1:]:
                r = r + x if op == "add" else r * x
            return r
        if op == "div":
            return self.real(a[0]) / self.real(a[1])
        if op == "pow":
            r = a[0]
            for _ in range(t.data - 1):
                r = r * a[0]
            return r
        if op in ("lt", "le", "eq"):
            x, y = a
            if z3.is_bool(x):
                return x == y
            if z3.is_int(x) != z3.is_int(y):
                x, y = self.real(x), self.real(y)
            return {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y}[op]()
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "ite":
            x, y = a[1], a[2]
            if not z3.is_bool(x) and z3.is_int(x) != z3.is_int(y):
                x, y = self.real(x), self.real(y)
            return z3.If(a[0], x, y)
        if op == "bind":
            return {t_.R: z3.Real, t_.I: z3.Int, t_.B: z3.Bool}[t.sort]("bind!%d" % t.id)
        if op == "app":
            return self.app(t, a)
        raise ValueError(op)

    def app(self, t, a):
        name = t.data
        if name == "abs":
            x = a[0]
            return z3.If(x >= 0, x, -x)
        if name == "idiv":
            return a[0] / a[1]
        if name == "imod":
            return a[0] % a[1]
        if name == "floor":
            return z3.ToInt(self.real(a[0]))
        if name == "toreal":
            return self.real(a[0])
        if name == "pi":
            v = z3.Real("pi!")
            self.axioms += [v > z3.Q(3141592653589793, 10 ** 15), v < z3.Q(3141592653589794, 10 ** 15)]
            return v
        if name in ("sqrt", "exp", "log", "sin", "cos", "atan", "tanh", "cosh", "sinh", "atanh", "asin", "acos", "tan"):
            x = self.real(a[0])
            v = z3.Real("%s!%d" % (name, t.id))
            ax = self.axioms
            prev = self.byfn.setdefault(name, [])
            if name == "sqrt":
                ax.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
            elif name == "exp":
                ax += [v > 0, v >= 1 + x, z3.Implies(x <= 0, v <= 1)]
                for (x2, v2) in prev[:6]:
                    ax.append(z3.And(z3.Implies(x < x2, v < v2), z3.Implies(x2 < x, v2 < v), z3.Implies(x == x2, v == v2)))
                for (x2, v2) in self.byfn.get("log", [])[:6]:
                    ax += inverse(x2, v2, x, v)
            elif name == "log":
                ax += [z3.Implies(x > 0, v <= x - 1), z3.Implies(x >= 1, v >= 0), z3.Implies(z3.And(x > 0, x < 1), v < 0),
                       z3.Implies(x > 1, v > 0)]
                for (x2, v2) in prev[:6]:
                    ax.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And(z3.Implies(x < x2, v < v2), z3.Implies(x2 < x, v2 < v))))
                for (x2, v2) in self.byfn.get("exp", [])[:6]:
                    ax += inverse(x, v, x2, v2)
            elif name in ("sin", "cos"):
                ax += [v <= 1, v >= -1]
                for (x2, v2) in self.byfn.get("cos" if name == "sin" else "sin", []):
                    if x2.eq(x):
                        ax.append(v * v + v2 * v2 == 1)
            elif name == "tanh":
                ax += [v < 1, v > -1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0)]
            elif name == "cosh":
                ax += [v >= 1]
            elif name in ("atan", "asin", "sinh", "atanh"):
                ax += [z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
            prev.append((x, v))
            return v
        srt = {t_.R: z3.RealSort(), t_.I: z3.IntSort(), t_.B: z3.BoolSort()}
        dom = [srt[x.sort] for x in t.args]
        key = (name, tuple(x.sort for x in t.args), t.sort)
        f = self.names.get(key)
        if f is None:
            f = self.names[key] = z3.Function("%s/%s" % (name, "".join(key[1]) + key[2]), *(dom + [srt[t.sort]])) if dom else \
                {t_.R: z3.Real, t_.I: z3.Int, t_.B: z3.Bool}[t.sort](name)
        if not dom:
            return f
        r = f(*a)
        for pat, gen in FN_AXIOMS:
            if pat(name):
                ax = gen(r, *a)
                if ax is not None:
                    self.axioms.append(ax)
        return r


def inverse(x, v, y, w):
    """facts about v = log(x) and w = exp(y)"""
    return [z3.Implies(z3.And(x > 0, x < w), v < y), z3.Implies(x > w, v > y), z3.Implies(x == w, v == y)]


# (predicate on function name, axiom generator on z3 exprs); filled by the
# contracts' declarations of opaque functions (e.g. positivity)
FN_AXIOMS = []
FN_POS = set()


def declare_positive(name):
    if name not in FN_POS:
        FN_POS.add(name)
        FN_AXIOMS.append((lambda n, name=name: n == name, lambda r, *a: r > 0))


RLIMIT = 1500


def check(assertions, timeout=3000, want_model=False):
    """'sat' | 'unsat' | 'unknown' (and a model)"""
    t0 = time.time()
    z = Z()
    es = [z.tr(a) for a in assertions]
    s = z3.Solver()
    # the resource limit decides (reproducible under load), time is a safety net
    s.set("rlimit", int(timeout) * RLIMIT)
    s.set("timeout", int(timeout) * 3)
    s.set("random_seed", 7)
    for e in es:
        s.add(e)
    for e in z.axioms:
        s.add(e)
    r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    r = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
    if want_model:
        m = None
        if r == "sat":
            m = {}
            mod = s.model()
            for t in t_.subterms(*assertions):
                if t.op == "var" and t.sort != t_.B:
                    v = mod.eval(z.tr(t), model_completion=True)
                    try:
                        if z3.is_int_value(v):
                            m[t.data] = v.as_long()
                        elif z3.is_rational_value(v):
                            m[t.data] = float(v.as_fraction())
                        elif z3.is_algebraic_value(v):
                            m[t.data] = float(v.approx(20).as_fraction())
                    except Exception:
                        pass
        return r, m
    return r


def relevant(assumptions, goal):
    """assumptions connected to the goal through shared free variables"""
    need = set(t_.fv(goal))
    rest = list(assumptions)
    out = []
    changed = True
    while changed:
        changed = False
        for a in list(rest):
            if t_.fv(a) & need:
                out.append(a)
                rest.remove(a)
                need |= t_.fv(a)
                changed = True
    return out


def prove(assumptions, goal, timeout=5000):
    """True if z3 shows assumptions |= goal"""
    if goal is t_.TRUE:
        return True
    ng = t_.not_(goal)
    direct = [a for a in assumptions if t_.fv(a) <= t_.fv(goal)]
    if direct and len(direct) < len(assumptions):
        if check(direct + [ng], min(timeout, 1500)) == "unsat":
            return True
    return check(relevant(assumptions, goal) + [ng], timeout) == "unsat"


def cvc5_unsat(assertions, timeout=5000):
    """second back end, through SMT-LIB text"""
    import cvc5
    t0 = time.time()
    z = Z()
    es = [z.tr(a) for a in assertions]
    s = z3.Solver()
    for e in es + z.axioms:
        s.add(e)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    STATS["cvc5_calls"] += 1
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if "unsat" in str(o):
                res = True
        return bool(res)
    except Exception:
        return False
    finally:
        STATS["cvc5_time"] += time.time() - t0


def depth_of(name):
    """nesting depth of a canonical bound variable"""
    return int(name[1:].split("@")[0].rstrip("ri"))


def range_tag(lo, hi):
    """suffix that records the range of the variable of an integral between
    numbers: facts about it hold wherever the variable occurs"""
    if lo.op == "num" and hi.op == "num" and lo.data < hi.data:
        return "@%s:%s" % (lo.data, hi.data)
    return ""


def range_of(v):
    if v.op == "var" and "@" in v.data and v.data.startswith("β"):
        a, b = v.data.split("@")[1].split(":")
        return Fraction(a), Fraction(b)
    return None


def range_facts(t):
    """an integral does not depend on the ends of its range: strict bounds"""
    out = []
    for v in t_.fv(t):
        r = range_of(v)
        if r:
            out += [t_.lt(t_.num(r[0], t_.R), v), t_.lt(v, t_.num(r[1], t_.R))]
    return out


class Signs:
    """sign oracle under a set of assumptions"""

    def __init__(self, assumptions, timeout=1500):
        self.assumptions = list(assumptions)
        self.timeout = timeout
        self.memo = {}
        self.known = {}
        for a in self.assumptions:
            self.learn(a)

    def learn(self, a):
        if a.op == "and":
            for x in a.args:
                self.learn(x)
        elif a.op in ("lt", "le"):
            x, y = a.args
            strict = a.op == "lt"
            if x.op == "num" and x.data >= 0:
                self.setk(y, "+" if (strict or x.data > 0) else "0+")
            if y.op == "num" and y.data <= 0:
                self.setk(x, "-" if (strict or y.data < 0) else "0-")

    def setk(self, t, s):
        o = self.known.get(t.id)
        if o in ("+", "-") and s in ("0+", "0-"):
            return
        self.known[t.id] = s

    def quick(self, t):
        k = self.known.get(t.id)
        if k:
            return k
        op = t.op
        if op == "num":
            return "+" if t.data > 0 else "-" if t.data < 0 else "0"
        if op == "var":
            r = range_of(t)
            if r:
                return "+" if r[0] >= 0 else "-" if r[1] <= 0 else "?"
            return "?"
        if op == "app":
            if t.data in ("exp", "pi", "cosh"):
                return "+"
            if t.data == "sqrt":
                s = self.quick(t.args[0])
                return "+" if s == "+" else "0+"
            if t.data == "abs":
                return "0+"
            if t.data in FN_POS:
                return "+"
            return "?"
        if op == "pow":
            s = self.quick(t.args[0])
            if t.data % 2 == 0:
                return "+" if s in ("+", "-") else "0+"
            return s
        if op in ("mul", "div"):
            sg, strict = 1, True
            for a in t.args:
                s = self.quick(a)
                if s == "?":
                    return "?"
                if s == "0":
                    return "0"
                if s[-1] == "-":
                    sg = -sg
                if s in ("0+", "0-"):
                    strict = False
            return ("" if strict else "0") + ("+" if sg > 0 else "-")
        if op == "add":
            ss = [self.quick(a) for a in t.args]
            if "?" in ss:
                return "?"
            if all(s in ("+", "0+", "0") for s in ss):
                return "+" if "+" in ss else "0+"
            if all(s in ("-", "0-", "0") for s in ss):
                return "-" if "-" in ss else "0-"
            return "?"
        if op == "bind" and t.data == "int":
            lo, hi = t.args[1], t.args[2]
            if lo.op == "num" and hi.op == "num" and lo.data < hi.data:
                return self.quick(t.args[3])
            return "?"
        if op == "ite":
            a, b = self.quick(t.args[1]), self.quick(t.args[2])
            if a == b:
                return a
            return "?"
        return "?"

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.quick(t)
            if r in ("?", "0+", "0-"):
                r2 = self.slow(t, r)
                if r2 != "?":
                    r = r2
            self.memo[t.id] = r
        return r

    def slow(self, t, q):
        if t.op == "var" and not any(t in t_.fv(a) for a in self.assumptions):
            return "?"
        hyp = self.assumptions
        rf = range_facts(t)
        if rf:
            hyp = hyp + rf
        A = relevant(hyp, t)
        if not A and q != "?":
            return q
        # numeric probe decides which direction is worth trying
        z = t_.RZERO
        for s, g in (("+", t_.lt(z, t)), ("-", t_.lt(t, z)), ("0+", t_.le(z, t)), ("0-", t_.le(t, z))):
            if q == "0+" and s != "+":
                continue
            if q == "0-" and s != "-":
                continue
            if self.refuted(g):
                continue
            t0 = time.time()
            if prove(hyp, g, self.timeout if self.wasted < 3 and t_size(t) < 120 else 150):
                return s
            self.wasted += time.time() - t0
        return "?"

    pool = None
    wasted = 0.0

    def refuted(self, g):
        """a sample satisfying the assumptions falsifies g"""
        if not self.pool:
            return False
        free = [v for v in t_.fv(g) if v.data not in self.pool[0] and v.sort in (t_.R, t_.I)]
        if free:
            return self.refuted_open(g, free)
        for env in self.pool:
            try:
                if not evaluate(g, env):
                    return True
            except EvalError:
                pass
        return False


    def refuted_open(self, g, free):
        """as refuted, for a term with bound variables: these take arbitrary
        values that respect the assumptions on them"""
        fs = set(free)
        conds = [a for a in self.assumptions if t_.fv(a) & fs]
        rng = random.Random(5)
        n = 0
        for k in range(40):
            env = dict(self.pool[k % len(self.pool)])
            for v in free:
                rr = range_of(v)
                env[v.data] = rng.uniform(float(rr[0]), float(rr[1])) if rr else rng.randrange(60) if v.sort == t_.I else rng.choice((rng.uniform(-2, 3), 10 ** rng.uniform(-2, 5), -10 ** rng.uniform(-2, 5)))
            try:
                if all(evaluate(c, env) for c in conds):
                    n += 1
                    if not evaluate(g, env):
                        return True
            except (EvalError, TypeError, ValueError, OverflowError):
                pass
            if n >= 16:
                break
        return False


# numeric evaluation --------------------------------------------------------

class EvalError(Exception):
    pass


def _h(name, args):
    s = name + "|" + ",".join("%.9g" % a for a in args)
    d = hashlib.md5(s.encode()).digest()
    return int.from_bytes(d[:6], "big") / 2.0 ** 48


FN_IMPL = {}


def evaluate(t, env, memo=None):
    return evaluate_with(t, env, memo if memo is not None else {}, None)


GROUND = {"pow", "sqrt", "exp", "log", "pi", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh"}


def ground(t):
    """an expression in numbers and elementary functions only"""
    for u in t_.subterms(t):
        if u.op in ("var", "bind") or (u.op == "app" and u.data not in GROUND):
            return False
    return True


def ground_truth(c):
    """truth value of a comparison of two numbers that are clearly apart"""
    import mpmath
    try:
        with mpmath.workdps(60):
            a, b = [evaluate_with(x, {}, {}, mpmath) for x in c.args]
            if not (mpmath.isfinite(a) and mpmath.isfinite(b)) or abs(b - a) <= mpmath.mpf(10) ** -40 * (abs(a) + abs(b)):
                return None
            return False if c.op == "eq" else bool(a < b)
    except (EvalError, TypeError, ValueError, ZeroDivisionError, OverflowError):
        return None


def evaluate_mp(t, env, dps=60):
    """high-precision value, for confirming a numeric disagreement"""
    import mpmath
    with mpmath.workdps(dps):
        return evaluate_with(t, env, {}, mpmath)


def evaluate_with(t, env, memo, mp):
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    ev = lambda x: evaluate_with(x, env, memo, mp)
    try:
        if op == "num":
            if t.sort != t_.R:
                r = int(t.data)
            elif mp is None:
                r = float(t.data)
            else:
                r = mp.mpf(t.data.numerator) / t.data.denominator
        elif op == "var":
            if t.data not in env:
                raise EvalError(t.data)
            r = env[t.data]
            if mp is not None and isinstance(r, float):
                r = mp.mpf(r)
        elif op == "true":
            r = True
        elif op == "false":
            r = False
        elif op == "and":
            r = all(ev(a) for a in t.args)
        elif op == "or":
            r = any(ev(a) for a in t.args)
        elif op == "not":
            r = not ev(t.args[0])
        elif op == "ite":
            r = ev(t.args[1] if ev(t.args[0]) else t.args[2])
        elif op == "bind":
            r = eval_bind(t, env, mp)
        elif op == "app" and t.data == "interp":
            r = interp_value(*[None if x.op == "var" and x.data == "<edge>" else ev(x) for x in t.args])
        else:
            a = [ev(x) for x in t.args]
            if op == "add":
                r = math.fsum(a) if t.sort == t_.R and mp is None else sum(a)
            elif op == "mul":
                r = 1
                for x in a:
                    r = r * x
            elif op == "div":
                r = a[0] / a[1]
            elif op == "pow":
                r = a[0] ** t.data
            elif op == "lt":
                r = a[0] < a[1]
            elif op == "le":
                r = a[0] <= a[1]
            elif op == "eq":
                r = a[0] == a[1] if t.args[0].sort != t_.R else abs(a[0] - a[1]) <= 1e-12 * max(abs(a[0]), abs(a[1]))
            elif op == "app":
                n = t.data
                if n == "pi":
                    r = math.pi if mp is None else +mp.pi
                elif n == "abs":
                    r = abs(a[0])
                elif n == "idiv":
                    r = a[0] // a[1]
                elif n == "imod":
                    r = a[0] % a[1]
                elif n == "floor":
                    r = math.floor(a[0])
                elif n == "toreal":
                    r = float(a[0]) if mp is None else mp.mpf(a[0])
                elif n in ("sqrt", "exp", "log", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "atanh", "asinh", "erf"):
                    r = getattr(math if mp is None else mp, n)(a[0])
                elif n == "pow":
                    r = a[0] ** a[1]
                else:
                    if any(isinstance(x, tuple) for x in a):
                        a = [z for x in a for z in (x if isinstance(x, tuple) else (x,))]
                        a = [float(x) for x in a]
                    else:
                        a = [float(x) if t.args[j].sort == t_.R else x for j, x in enumerate(a)]
                    if n in FN_IMPL:
                        r = FN_IMPL[n](*a)
                    elif t.sort == t_.B:
                        r = _h(n, a) > 0.5
                    elif t.sort == t_.I:
                        r = int(_h(n, a) * 5)
                    else:
                        from .api import hval
                        r = hval(n, a)
                    if mp is not None and isinstance(r, float):
                        r = mp.mpf(r)
            else:
                raise EvalError(op)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
        raise EvalError(str(e))
    if isinstance(r, complex) or r != r or (mp is not None and isinstance(r, mp.mpc)):
        raise EvalError("undefined")
    memo[t.id] = r
    return r


def interp_value(x, xs, ys, left, right):
    """piecewise linear interpolation of a table"""
    if x < xs[0]:
        return ys[0] if left is None else left
    if x > xs[-1]:
        return ys[-1] if right is None else right
    if len(xs) == 1:
        return ys[0]
    j = max(0, min(bisect.bisect_right(xs, x) - 1, len(xs) - 2))
    return ys[j] + (ys[j + 1] - ys[j]) * (x - xs[j]) / (xs[j + 1] - xs[j])


def eval_bind(t, env, mp=None):
    bv, lo, hi, body = t.args
    ev = lambda x, e: evaluate_with(x, e, {}, mp)
    a, b = ev(lo, env), ev(hi, env)
    kind = t.data
    if kind in ("sum", "prod", "all", "any", "max", "min", "lam"):
        if b - a > 5000:
            raise EvalError("large")
        vals = []
        for k in range(int(a), int(b)):
            e = dict(env)
            e[bv.data] = k
            vals.append(ev(body, e))
        if kind == "lam":
            return tuple(vals)
        if kind == "sum":
            return math.fsum(vals) if t.sort == t_.R and mp is None else sum(vals)
        if kind == "prod":
            r = 1
            for v in vals:
                r *= v
            return r
        if kind in ("max", "min"):
            if not vals:
                raise EvalError("empty")
            return max(vals) if kind == "max" else min(vals)
        return all(vals) if kind == "all" else any(vals)
    if kind != "int":
        raise EvalError(kind)
    if not (abs(a) < float("inf") and abs(b) < float("inf")):
        raise EvalError("infinite range")
    # integral: Gauss-Legendre
    r = 0
    for x, w in gauss():
        e = dict(env)
        e[bv.data] = 0.5 * (b - a) * x + 0.5 * (a + b)
        r += w * ev(body, e)
    return 0.5 * (b - a) * r


_GL = []


def gauss():
    if not _GL:
        import numpy as np
        xs, ws = np.polynomial.legendre.leggauss(24)
        _GL.extend((float(x), float(w)) for x, w in zip(xs, ws))
    return _GL


def confirm_ne(a, b, e):
    """do the two terms differ beyond rounding and quadrature error?"""
    try:
        x, y = evaluate_mp(a, e), evaluate_mp(b, e)
        d2 = evaluate_mp(a, e, 40) - evaluate_mp(b, e, 40)
    except EvalError:
        return False
    if abs((x - y) - d2) > 1e-6 * abs(x - y):
        return False    # only rounding
    tol = 1e-9
    for t in (a, b):
        if any(u.op == "bind" and u.data == "int" for u in t_.subterms(t)):
            tol = 1e-4
    return abs(x - y) > tol * max(abs(x), abs(y)) + 1e-300


# equality / goals ------------------------------------------------------------

def first_ite(*ts):
    """a condition of an if-then-else outside binders"""
    seen, stack = set(), list(ts)
    best = None
    while stack:
        t = stack.pop()
        if t.id in seen or t.op == "bind":
            continue
        seen.add(t.id)
        if t.op == "ite":
            c = t.args[0]
            if not any(u.op == "ite" for u in t_.subterms(c)):
                return c
            best = c
            stack.append(c)
        stack.extend(t.args)
    return best


def simplify_under(t, c, val):
    """replace condition c by its truth value"""
    m = {c: t_.TRUE if val else t_.FALSE, t_.not_(c): t_.FALSE if val else t_.TRUE}
    return t_.replace(t, m)


class Verdict:
    def __init__(self, ok, how, detail=None):
        self.ok, self.how, self.detail = ok, how, detail


def prove_eq(assumptions, a, b, pool=None, depth=0, timeout=8000, budget=None):
    """(ok, backend)"""
    if a is b:
        return True, "identity"
    if budget is None:
        budget = [200]
    budget[0] -= 1
    if budget[0] < 0:
        return False, "case budget"
    t0 = time.time()
    c = first_ite(a, b)
    if c is not None and depth < 24:
        # decide or split
        STATS["nf_time"] += 0
        posn = [c] if c.op != "and" else list(c.args)
        c = posn[0] if c.op != "or" else c.args[0]
        how = set()
        for val in (True, False):
            cc = c if val else t_.not_(c)
            A = assumptions + [cc]
            P = None
            if pool is not None:
                P = []
                for e in pool:
                    try:
                        if evaluate(cc, e):
                            P.append(e)
                    except EvalError:
                        pass
            if not P:
                if check(relevant(assumptions, cc) + [cc], 3000) == "unsat":
                    continue
            a2, b2 = simplify_under(a, c, val), simplify_under(b, c, val)
            ok, h = prove_eq(A, a2, b2, P, depth + 1, timeout, budget)
            if not ok:
                return False, h
            how.add(h)
        return True, "+".join(sorted(set("+".join(how).split("+")))) if how else "z3"
    m = equated(assumptions)
    if m:
        a, b = t_.subst(a, m), t_.subst(b, m)
        assumptions = [t_.subst(x, m) for x in assumptions] + [t_.eq(k, v) for k, v in m.items()]
        if a is b:
            return True, "identity"
    # quick numeric refutation on the pool
    if pool:
        for e in pool[:6]:
            try:
                x, y = evaluate(a, e), evaluate(b, e)
            except EvalError:
                continue
            if abs(x - y) > 1e-6 * max(abs(x), abs(y)) + 1e-300 and abs(x - y) > 1e-6 * cond_scale(a, e):
                if confirm_ne(a, b, e):
                    return False, "refuted %s" % {k: v for k, v in list(e.items())[:12]}
    r = nf_equal(assumptions, a, b, pool, 15)
    if r is True:
        return True, "nf"
    if r is None or t_size(a) + t_size(b) > 300:
        # too large for one normal form: merge equal subterms first
        a2, b2, A2 = sweep(assumptions, a, b, pool)
        if a2 is b2:
            return True, "nf"
        if (a2 is not a or b2 is not b) and nf_equal(A2, a2, b2, pool, 40) is True:
            return True, "nf"
        if r is None and nf_equal(assumptions, a, b, pool, 90) is True:
            return True, "nf"
    a2, b2 = congruent(assumptions, a, b, pool, 3000)
    if a2 is b2:
        return True, "congruence"
    if a2 is not a or b2 is not b:
        a, b = a2, b2
        if nf_equal(assumptions, a, b, pool, 15) is True:
            return True, "nf"
    g = t_.eq(a, b)
    if prove(assumptions, g, timeout):
        return True, "z3"
    if cvc5_unsat(relevant(assumptions, g) + [t_.not_(g)], timeout):
        return True, "cvc5"
    return False, "undischarged"


def congruent(A, a, b, pool, timeout):
    """a, and b with its sums/integrals over case distinctions replaced by those
    of a that have the same bounds and provably the same elements; sums of
    elements that are provably zero vanish"""
    def closed(t):
        return {u for u in t_.subterms(t) if u.op == "bind" and u.sort == t_.R and not any(v.data.startswith("β") for v in t_.fv(u))}
    def elements(x, k):
        """assumptions at the element k of the range of x"""
        rng = [t_.le(x.args[1], k), (t_.lt if k.sort == t_.I else t_.le)(k, x.args[2])]
        for u in A:
            if u.op == "bind" and u.data == "all" and u.args[0].sort == k.sort:
                out = t_.or_(t_.lt(k, u.args[1]), (t_.le if k.sort == t_.I else t_.lt)(u.args[2], k))
                rng.append(t_.or_(out, t_.subst(u.args[3], {u.args[0]: k})))
        return rng
    if any(u.op == "bind" and u.data == "all" for u in A):
        for x in sorted((closed(a) | closed(b)), key=lambda t: -t.id):
            if x.data not in ("sum", "int") or agree(pool, (x, t_.RZERO)) is False:
                continue
            k = t_.fresh("el", x.args[0].sort)
            u = t_.subst(x.args[3], {x.args[0]: k})
            if prove_eq(with_facts(list(A) + elements(x, k), u), u, t_.RZERO, None, timeout=timeout)[0]:
                a, b = t_.replace(a, {x: t_.RZERO}), t_.replace(b, {x: t_.RZERO})
                if a is b:
                    return a, b
    sa, sb = closed(a), closed(b)
    if not sa or not sb:
        return a, b
    for y in sorted(sb - sa, key=lambda t: -t.id):
        if not any(u.op == "ite" for u in t_.subterms(y.args[3])):
            if not any(u.op == "ite" for x in sa for u in t_.subterms(x.args[3])):
                continue
        for x in sorted(sa - sb, key=lambda t: -t.id):
            if x.data != y.data or x.args[1] is not y.args[1] or x.args[2] is not y.args[2] or x.args[0].sort != y.args[0].sort:
                continue
            if agree(pool, (x, y)) is False:
                continue
            k = t_.fresh("el", x.args[0].sort)
            rng = elements(x, k)
            u, v = t_.subst(x.args[3], {x.args[0]: k}), t_.subst(y.args[3], {y.args[0]: k})
            ok, _ = prove_goal(with_facts(list(A) + rng, u, v), t_.eq(u, v), None, timeout)
            if ok:
                return congruent(A, a, t_.replace(b, {y: x}), pool, timeout)
    return a, b


def strip(t):
    return (t.args[0], False) if t.op == "not" else (t, True)


def same_truth(A, p, c, pool, timeout=1500):
    """True / False when the condition c provably has the same / the opposite
    truth value as p, None when unknown (a syntactic search: the two have the
    same shape and provably equal operands)"""
    p, sp = strip(p)
    c, sc = strip(c)
    if p is c:
        return sp == sc
    if p.op != c.op:
        return None
    if p.op == "bind":
        if p.data != c.data or p.args[1] is not c.args[1] or p.args[2] is not c.args[2] or p.args[0].sort != c.args[0].sort:
            return None
        if agree_bool(pool, p, c) is False:
            return None
        k = t_.fresh("el", p.args[0].sort)
        rng = [t_.le(p.args[1], k), (t_.lt if k.sort == t_.I else t_.le)(k, p.args[2])]
        u, v = t_.subst(p.args[3], {p.args[0]: k}), t_.subst(c.args[3], {c.args[0]: k})
        r = same_truth(with_facts(list(A) + rng, u, v), u, v, None, timeout)
        return (sp == sc) if r is True else None
    if p.op in ("lt", "le", "eq") and p.args[0].sort == c.args[0].sort == t_.R:
        if agree_bool(pool, p, c) is False:
            return None
        d, e = t_.sub(p.args[1], p.args[0]), t_.sub(c.args[1], c.args[0])
        ok = nf_equal(A, d, e, pool, 2.0) is True
        if not ok and p.op == "eq" and pool and agree(pool, (d, e)) is not False:
            ok = prove_eq(A, d, e, pool, timeout=timeout)[0]
        return (sp == sc) if ok else None
    if p.op in ("and", "or") and len(p.args) == len(c.args):
        if agree_bool(pool, p, c) is False:
            return None
        if all(same_truth(A, x, y, pool, timeout) is True for x, y in zip(p.args, c.args)):
            return sp == sc
    return None


def agree_bool(pool, p, c):
    for e in (pool or [])[:6]:
        try:
            if bool(evaluate(p, e)) != bool(evaluate(c, e)):
                return False
        except EvalError:
            pass
    return None


def t_size(t):
    return sum(1 for _ in t_.subterms(t))


def nf_equal(assumptions, a, b, pool, limit):
    """True / False / None when out of time"""
    t0 = time.time()
    signs = Signs(assumptions)
    signs.pool = pool
    try:
        STATS["nf_calls"] += 1
        n = Nf(signs, limit)
        return n.equal(a, b)
    except (Blowup, RecursionError, ZeroDivisionError):
        return None
    finally:
        STATS["nf_time"] += time.time() - t0


def settled(assumptions, c, limit=8):
    """truth value of a comparison whose sides differ by a sum of terms of one
    sign, or None"""
    if c.op == "not":
        r = settled(assumptions, c.args[0], limit)
        return None if r is None else not r
    if c.op not in ("lt", "le", "eq") or c.args[0].sort != t_.R:
        return None
    n = t_size(c)
    if n < 30 or n > 4000:
        return None
    t0 = time.time()
    signs = Signs(assumptions, timeout=100)
    signs.slow = lambda t, q: q
    try:
        f = Nf(signs, limit)
        k = f.definite(padd(f.nf(c.args[1]), f.nf(c.args[0]), -1))
    except (Blowup, RecursionError, ZeroDivisionError):
        return None
    finally:
        STATS["nf_time"] += time.time() - t0
    if k == "?":
        return None
    if c.op == "lt":
        return {"+": True, "-": False, "0-": False, "0": False}.get(k)
    if c.op == "le":
        return {"+": True, "0+": True, "0": True, "-": False}.get(k)
    return {"+": False, "-": False, "0": True}.get(k)


def sweep(assumptions, a, b, pool):
    """replace closed subterms of a and b that are provably equal by one
    variable (proofs innermost first); what is proved of the generalised
    equation holds of the original one"""
    envs = (pool or [])[:4]
    if not envs:
        return a, b, assumptions
    ina = {t.id for t in t_.subterms(a)}
    inb = {t.id for t in t_.subterms(b)}
    keys = set(envs[0])
    cand = []
    for t in sorted(t_.subterms(a, b), key=lambda x: x.id):
        if t is a or t is b or t.sort != t_.R or t.op in ("num", "var") or t_size(t) < 8:
            continue
        if any(v.data not in keys for v in t_.fv(t)):
            continue
        try:
            fp = tuple("%.10e" % evaluate(t, e) for e in envs)
        except EvalError:
            continue
        cand.append((t, fp))
    groups = {}
    for t, fp in cand:
        groups.setdefault(fp, []).append(t)
    m = {}
    A = list(assumptions)
    t0 = time.time()
    signs = Signs(assumptions)
    order = sorted(groups.values(), key=lambda g: g[0].id)
    n = 0
    for g in order:
        if not (any(t.id in ina for t in g) and any(t.id in inb for t in g)):
            continue
        if time.time() - t0 > 60:
            break
        rep = g[0]
        r0 = t_.replace(rep, m)
        eqs = [rep]
        for t in g[1:]:
            r1 = t_.replace(t, m)
            if r1 is r0 or nf_equal(A, r0, r1, None, 8) is True:
                eqs.append(t)
        if not (any(t.id in ina for t in eqs) and any(t.id in inb for t in eqs)):
            continue
        n += 1
        v = t_.var("gen!%d" % n, t_.R)
        s = signs.quick(rep)
        if s == "?":
            s = Signs(A).quick(r0)
        z = t_.RZERO
        if s in ("+", "0+"):
            A.append((t_.lt if s == "+" else t_.le)(z, v))
        elif s in ("-", "0-"):
            A.append((t_.lt if s == "-" else t_.le)(v, z))
        for t in eqs:
            m[t] = v
            r = t_.replace(t, {k: w for k, w in m.items() if k is not t})
            m[r] = v
    if not m:
        return a, b, assumptions
    return t_.replace(a, m), t_.replace(b, m), A


def equated(assumptions):
    """variables fixed by the assumptions (x = t, or x <= y and y <= x)"""
    les = set()
    m = {}
    for x in assumptions:
        if x.op == "le":
            les.add((x.args[0].id, x.args[1].id))
    for x in assumptions:
        if x.op == "eq" and x.args[0].sort != t_.B:
            u, v = x.args
        elif x.op == "le" and (x.args[1].id, x.args[0].id) in les:
            u, v = x.args
        else:
            continue
        if u.op != "var":
            u, v = v, u
        if u.op != "var" or u in m or u in t_.fv(v) or any(w in m for w in t_.fv(v)) or any(u in t_.fv(w) for w in m.values()):
            continue
        m[u] = v
    return m


def cond_scale(t, e):
    """magnitude of the summands, for rounding-aware comparison"""
    try:
        if t.op == "add":
            return max(abs(evaluate(x, e)) for x in t.args)
        return abs(evaluate(t, e))
    except EvalError:
        return 0.0


def prove_goal(assumptions, goal, pool=None, timeout=8000):
    """boolean goals: equalities go to the normal form, the rest to z3/cvc5"""
    if goal is t_.TRUE:
        return True, "trivial"
    g2, A2 = lemmas(assumptions, goal, pool)
    if g2 is not goal:
        return prove_goal(A2, g2, pool, timeout)
    if goal.op == "and":
        hows = set()
        for a in goal.args:
            ok, h = prove_goal(assumptions, a, pool, timeout)
            if not ok:
                return ok, h
            hows.add(h)
        return True, "+".join(sorted(hows))
    if goal.op == "or":
        # implication: assume the negation of all but the last
        for k, a in enumerate(goal.args):
            others = [t_.not_(x) for j, x in enumerate(goal.args) if j != k]
            if a.op in ("eq", "and"):
                A = assumptions + others
                if check(A, 2000) == "unsat":
                    return True, "z3"
                return prove_goal(A, a, pool_filter(pool, others), timeout)
    if goal.op == "eq" and goal.args[0].sort != t_.B:
        return prove_eq(assumptions, goal.args[0], goal.args[1], pool, timeout=timeout)
    if pool:
        for e in pool[:8]:
            try:
                if not evaluate(goal, e) and not near(goal, e) and not evaluate_mp(goal, e):
                    return False, "refuted %s" % {k: v for k, v in list(e.items())[:12]}
            except EvalError:
                pass
    if goal.op in ("lt", "le") and ground(goal) and ground_truth(goal):
        return True, "numeric"
    if goal.op in ("lt", "le"):
        d = t_.sub(goal.args[1], goal.args[0])
        s = Signs(assumptions).quick(d)
        if s == "+" or (goal.op == "le" and s in ("0+", "0")):
            return True, "sign"
    if goal.op in ("lt", "le") and first_ite(goal) is not None:
        c = first_ite(goal)
        for val in (True, False):
            cc = c if val else t_.not_(c)
            if check(relevant(assumptions, cc) + [cc], 2000) == "unsat":
                continue
            ok, h = prove_goal(assumptions + [cc], simplify_under(goal, c, val), pool_filter(pool, [cc]), timeout)
            if not ok:
                return ok, h
        return True, "z3"
    if prove(assumptions, goal, timeout):
        return True, "z3"
    if goal.op in ("lt", "le"):
        # through the normal form of the difference
        try:
            d = t_.sub(goal.args[1], goal.args[0])
            n = Nf(Signs(assumptions))
            p = n.cancel(n.nf(d))
            s = n.sign_of_poly(p)
            if s == "?" :
                c, fs = n.factors(p)
                sg, strict = (1 if c > 0 else -1), True
                for f, e in fs:
                    k = n.sign_of_poly(f)
                    if e % 2 == 0:
                        strict = strict and k in ("+", "-")
                    elif k in ("-", "0-"):
                        sg = -sg
                        strict = strict and k == "-"
                    elif k in ("+", "0+"):
                        strict = strict and k == "+"
                    else:
                        sg = 0
                        break
                s = "?" if sg == 0 else ("" if strict else "0") + ("+" if sg > 0 else "-")
            if s == "+" or (goal.op == "le" and s in ("0+", "0")):
                return True, "nf+z3"
        except (Blowup, RecursionError, ZeroDivisionError):
            pass
    if cvc5_unsat(relevant(assumptions, goal) + [t_.not_(goal)], timeout):
        return True, "cvc5"
    return False, "undischarged"


def at(lamt, j):
    bv, lo, hi, body = lamt.args
    return t_.subst(body, {bv: j})


def with_facts(A, *extra):
    from .engine import instantiate
    return list(A) + instantiate(list(A), *extra)


LEMMA_FAIL = {}


def lemmas(A, goal, pool):
    """rewrite extrema of monotone ranges and interpolations whose bracketing
    interval is known; every rewriting is proved under the assumptions"""
    todo = [t for t in t_.subterms(goal) if (t.op == "bind" and t.data in ("min", "max")) or (t.op == "app" and t.data == "interp")]
    if not todo:
        return goal, A
    for t in todo:
        key = (t.id, tuple(a.id for a in A))
        if key in LEMMA_FAIL:
            continue
        r = extremum(A, t, pool) if t.op == "bind" else bracket(A, t, pool)
        if r is None:
            LEMMA_FAIL[key] = True
            continue
        return t_.replace(goal, {t: r}), with_facts(A, r)
    return goal, A


def agree(pool, *pairs):
    """do the pairs agree on the sampled inputs (None: cannot tell)"""
    seen = False
    for e in (pool or [])[:6]:
        try:
            for x, y in pairs:
                u, v = evaluate(x, e), evaluate(y, e)
                if abs(u - v) > 1e-9 * max(abs(u), abs(v), 1e-9):
                    return False
            seen = True
        except EvalError:
            pass
    return seen or None


def extremum(A, t, pool):
    bv, lo, hi, body = t.args
    if bv.sort != t_.I:
        return None
    if check(A + [t_.le(hi, lo)], 2000) != "unsat":
        return None
    k = t_.fresh("k", t_.I)
    bk = t_.subst(body, {bv: k})
    for w in (lo, t_.sub(hi, t_.num(1))):
        v = t_.subst(body, {bv: w})
        if agree(pool, (t, v)) is False:
            continue
        g = t_.le(v, bk) if t.data == "min" else t_.le(bk, v)
        H = with_facts(A + [t_.le(lo, k), t_.lt(k, hi)], g)
        if prove(H, g, 3000):
            return v
    return None


def bracket(A, t, pool):
    x, xs, ys = t.args[:3]
    left, right = (t.args + (None, None))[3:5]
    if xs.op != "bind" or ys.op != "bind":
        return None
    bv, lo, hi, body = xs.args
    last = t_.sub(hi, t_.num(1))
    holds = lambda c: not pool or all(ok(c, e) for e in pool[:6])

    def ok(c, e):
        try:
            return evaluate(c, e)
        except EvalError:
            return True
    g = t_.lt(x, at(xs, lo))
    if holds(g) and prove(with_facts(A, g), g, 2000):
        return at(ys, lo) if left is None or (left.op == "var" and left.data == "<edge>") else left
    g = t_.lt(at(xs, last), x)
    if holds(g) and prove(with_facts(A, g), g, 2000):
        return at(ys, last) if right is None or (right.op == "var" and right.data == "<edge>") else right
    cand = [lo, t_.sub(hi, t_.num(2))]
    for u in t_.subterms(x):
        if u.sort == t_.I and u.op in ("var", "add", "num"):
            cand += [u, t_.sub(u, t_.num(1))]
    for j in cand:
        j1 = t_.add(j, t_.num(1))
        g = t_.and_(t_.le(lo, j), t_.lt(j1, hi), t_.le(at(xs, j), x), t_.le(x, at(xs, j1)), t_.lt(at(xs, j), at(xs, j1)))
        if not holds(g):
            continue
        H = with_facts(A, g)
        if all(prove(H, c, 3000) for c in (g.args if g.op == "and" else [g])):
            return t_.add(at(ys, j), t_.div(t_.mul(t_.sub(at(ys, j1), at(ys, j)), t_.sub(x, at(xs, j))), t_.sub(at(xs, j1), at(xs, j))))
        # the node itself
        g = t_.and_(t_.le(lo, j), t_.lt(j, hi), t_.eq(x, at(xs, j)))
        if holds(g) and all(prove(with_facts(A, g), c, 2000) for c in (g.args if g.op == "and" else [g])):
            return at(ys, j)
    return None


def near(goal, e):
    if goal.op in ("lt", "le"):
        x, y = evaluate(goal.args[0], e), evaluate(goal.args[1], e)
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-30)
    return False


def pool_filter(pool, conds):
    if pool is None:
        return None
    out = []
    for e in pool:
        try:
            if all(evaluate(c, e) for c in conds):
                out.append(e)
        except EvalError:
            pass
    return out
