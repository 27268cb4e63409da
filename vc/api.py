"""Contracts.  A contract names the functions of /repo it constrains, the
domain of the arguments (precondition) and a clause list (postcondition),
written once and read in two ways: symbolically (proof, every input) and
concretely (replay of a candidate counterexample on the real code)."""
import math
import random
import hashlib
import importlib

MODE = ["symbolic"]
CONTRACTS = {}
EPS_REL = 1e-6


class Contract:
    def __init__(self, cid, props, fns, params, requires, body, opts):
        self.id, self.props, self.fns, self.params, self.requires, self.body, self.opts = cid, props, fns, params, requires, body, opts


def contract(props, fns, requires=None, uses=None, id=None, **opts):
    """decorator; keyword `params` maps names to domains"""
    params = opts.pop("params", {})
    if isinstance(props, str):
        props = [props]
    if isinstance(fns, str):
        fns = [fns]

    def deco(body):
        cid = id or body.__name__
        assert cid not in CONTRACTS, cid
        CONTRACTS[cid] = Contract(cid, props, fns, params, requires, body, dict(opts, uses=uses or {}))
        return body
    return deco


class Args(dict):
    __getattr__ = dict.__getitem__


# deterministic pseudo-random functions, shared by the term evaluator and the
# concrete mode
def hval(name, args, lo=0.1, hi=2.0):
    """smooth deterministic function of the arguments with values in (lo, hi)"""
    d = hashlib.md5(name.encode()).digest()
    s = 0.0
    for j, a in enumerate(args):
        a = float(a)
        c = (d[j % 16] + 13) / 37.0
        f = math.copysign(math.log1p(abs(a)), a)
        s += c * f * (1 + 0.3 * j)
    u = 0.5 + 0.5 * math.sin(s + d[15] / 20.0)
    u = 0.02 + 0.96 * u
    return lo + (hi - lo) * u


def elem_rand(name, idx, dom, seed):
    r = random.Random("%s|%s|%s" % (name, ",".join(str(int(i)) for i in idx), seed))
    return dom.draw(r)


# domains -----------------------------------------------------------------------------

class Real:
    """real number; lo/hi are strict bounds unless closed=True"""

    def __init__(self, lo=None, hi=None, closed=False, samp=None, special=()):
        self.lo, self.hi, self.closed, self.samp, self.special = lo, hi, closed, samp, special

    def facts(self, t):
        from . import terms as T
        op = T.le if self.closed else T.lt
        out = []
        if self.lo is not None:
            out.append(op(T.num(frac(self.lo)), t))
        if self.hi is not None:
            out.append(op(t, T.num(frac(self.hi))))
        return out

    def draw(self, r):
        if self.special and r.random() < 0.2:
            return float(r.choice(self.special))
        lo, hi = self.lo, self.hi
        if self.samp:
            a, b = self.samp
        else:
            a, b = lo, hi
            if a is None and b is None:
                a, b = -5.0, 5.0
            elif a is None:
                a, b = b - 10.0, b
            elif b is None:
                a, b = (a + 1e-2, a + 20.0)
        a, b = float(a), float(b)
        if a > 0 and b / a > 20:
            return math.exp(r.uniform(math.log(a), math.log(b)))
        return r.uniform(a, b)

    def make_sym(self, name, st):
        from . import terms as T
        from .sym import SV
        from .engine import ENG
        t = T.var(name)
        for f in self.facts(t):
            ENG.assume(f)
        return SV(t)

    def sample_env(self, name, r, env):
        env[name] = self.draw(r)

    def make_conc(self, name, env, r):
        if name in env:
            return float(env[name])
        return self.draw(r)


def frac(x):
    from fractions import Fraction
    if isinstance(x, float):
        from .terms import float_fraction
        return float_fraction(x)
    return Fraction(x)


class Int:
    def __init__(self, lo=None, hi=None, samp=None):
        self.lo, self.hi, self.samp = lo, hi, samp

    def facts(self, t):
        from . import terms as T
        out = []
        if self.lo is not None:
            out.append(T.le(T.num(self.lo), t))
        if self.hi is not None:
            out.append(T.le(t, T.num(self.hi)))
        return out

    def draw(self, r):
        a, b = self.samp or (self.lo if self.lo is not None else -3, self.hi if self.hi is not None else (self.lo if self.lo is not None else 0) + 5)
        return r.randint(a, b)

    def make_sym(self, name, st):
        from . import terms as T
        from .sym import SV
        from .engine import ENG
        t = T.var(name, T.I)
        for f in self.facts(t):
            ENG.assume(f)
        return SV(t)

    def sample_env(self, name, r, env):
        env[name] = self.draw(r)

    def make_conc(self, name, env, r):
        return int(env[name]) if name in env else self.draw(r)


class Bool:
    def make_sym(self, name, st):
        from . import terms as T
        from .sym import SB
        return SB(T.var(name, T.B))

    def sample_env(self, name, r, env):
        env[name] = r.random() < 0.5

    def make_conc(self, name, env, r):
        return bool(env[name]) if name in env else r.random() < 0.5


class Arr:
    """array with `ndim` axes of arbitrary length >= 1 (or the given shape)"""

    def __init__(self, elem=None, ndim=1, shape=None, minlen=1, increasing=False, where=None):
        self.elem = elem or Real()
        self.where = where
        self.ndim, self.shape, self.minlen, self.increasing = ndim, shape, minlen, increasing

    def dims(self, name, st):
        if self.shape is not None:
            return [st[d] if isinstance(d, str) else d for d in self.shape]
        return None

    def make_sym(self, name, st):
        from . import terms as T
        from .sym import SV, SArr, axis_var
        from .engine import ENG, ELEM_FACTS, PAIR_FACTS
        from . import solver as S
        sh = []
        nd = self.ndim if self.shape is None else len(self.shape)
        for j in range(nd):
            d = None if self.shape is None else self.shape[j]
            if d is None:
                v = T.var("%s.n%d" % (name, j), T.I)
                ENG.assume(T.le(T.num(self.minlen), v))
                sh.append(SV(v))
            elif isinstance(d, str):
                sh.append(st[d])
            else:
                sh.append(d)
        idx = [axis_var(nd - 1 - j) for j in range(nd)]
        sort = T.I if isinstance(self.elem, Int) else T.R
        t = T.mk("app", tuple(idx), name, sort)
        dom = self.elem
        where = self.where
        if where is None:
            ELEM_FACTS[name] = lambda u: dom.facts(u)
        else:
            from .sym import bterm
            ELEM_FACTS[name] = lambda u: dom.facts(u) + [bterm(where(SV(u), st))]
        if self.increasing:
            def pf(a, b):
                return [T.implies(T.lt(a.args[0], b.args[0]), T.lt(a, b))]
            PAIR_FACTS[name] = pf
            S.FN_IMPL[name] = lambda *i: inc_elem(name, i, dom)
        else:
            S.FN_IMPL[name] = lambda *i: elem_rand(name, i, dom, 0)
        return SArr(tuple(sh), SV(t))

    def sample_env(self, name, r, env):
        nd = self.ndim if self.shape is None else len(self.shape)
        for j in range(nd):
            if self.shape is None or self.shape[j] is None:
                env["%s.n%d" % (name, j)] = r.randint(self.minlen, self.minlen + 3)

    def make_conc(self, name, env, r):
        import numpy as np
        nd = self.ndim if self.shape is None else len(self.shape)
        sh = []
        for j in range(nd):
            d = None if self.shape is None else self.shape[j]
            if d is None:
                sh.append(int(env.get("%s.n%d" % (name, j), r.randint(self.minlen, self.minlen + 3))))
            elif isinstance(d, str):
                sh.append(int(env[d]))
            else:
                sh.append(d)
        sh = [min(s, 40) for s in sh]
        a = np.empty(tuple(sh), dtype=int if isinstance(self.elem, Int) else float)
        seed = env.get("__seed__", 0)
        for i in np.ndindex(*sh):
            a[i] = inc_elem(name, i, self.elem) if self.increasing else elem_rand(name, i, self.elem, seed)
        return a


def inc_elem(name, i, dom):
    k = i[0]
    lo = dom.samp[0] if dom.samp else (dom.lo if dom.lo is not None else -3.0)
    hi = dom.samp[1] if dom.samp else (dom.hi if dom.hi is not None else (lo + 10.0))
    u = 0.35 * (k + 0.6 * random.Random("%s%s" % (name, k)).random())
    return lo + (hi - lo) * (0.05 + 0.9 * u / (1 + u))


class Fn:
    """arbitrary function of `n` real arguments (elementwise on arrays)"""

    def __init__(self, n=1, lo=None, hi=None, impl=None, nonneg=False, kw=()):
        self.n, self.lo, self.hi, self.impl, self.nonneg, self.kw = n, lo, hi, impl, nonneg, kw

    def rng(self):
        lo = self.lo if self.lo is not None else -1.0
        hi = self.hi if self.hi is not None else max(lo + 2.0, 2.0)
        return float(lo), float(hi)

    def make_sym(self, name, st):
        from . import terms as T
        from .engine import ELEM_FACTS
        from . import solver as S
        lo, hi = self.rng()

        def facts(u):
            out = []
            if self.lo is not None:
                out.append((T.le if self.nonneg else T.lt)(T.num(frac(self.lo)), u))
            if self.hi is not None:
                out.append(T.lt(u, T.num(frac(self.hi))))
            return out
        ELEM_FACTS[name] = facts
        (S.FN_POS.add if self.lo is not None and self.lo >= 0 and not self.nonneg else S.FN_POS.discard)(name)
        S.FN_IMPL[name] = self.impl or (lambda *a: hval(name, a, lo, hi))
        return sym_fn(name)

    def sample_env(self, name, r, env):
        pass

    def make_conc(self, name, env, r):
        import numpy as np
        lo, hi = self.rng()
        impl = self.impl or (lambda *a: hval(name, a, lo, hi))

        def f(*a, **k):
            a = list(a) + [v for _, v in sorted(k.items())]
            if any(np.ndim(x) for x in a):
                return np.vectorize(impl, otypes=[float])(*a)
            return float(impl(*[float(x) for x in a]))
        return f


def sym_fn(name):
    from . import terms as T
    from .sym import SV, SArr, SSeq, num, lift_term
    from . import vnp
    import numpy as np

    def f(*a, **k):
        a = list(a) + [v for _, v in sorted(k.items())]
        z = None
        for x in a:
            if isinstance(x, (SArr, list, tuple, np.ndarray, SSeq)):
                x = SArr.of(x)
                z = x if z is None else SArr(SArr.bcast(z, x)[0], num(0), SArr.bcast(z, x)[3])
        el = []
        for x in a:
            if isinstance(x, (SArr, list, tuple, np.ndarray, SSeq)):
                el.append(vnp.t_real(vnp.numv(SArr.bcast(SArr.of(x), z)[1]).t))
            else:
                el.append(vnp.t_real(lift_term(x)))
        v = SV(T.app(name, *el))
        return SArr(z.shape, v, z.filt) if z is not None else v
    f.__name__ = name
    return f


class Keyed:
    """dictionary with any number (at least `lo`) of arbitrary keys, distinct
    from every literal of the code; values are numbers (Real) or functions (Fn);
    `extra` adds literal keys"""

    def __init__(self, value, extra=(), lo=1, fam="ch"):
        self.value, self.extra, self.lo, self.fam = value, tuple(extra), lo, fam

    def make_sym(self, name, st):
        from . import terms as T
        from .sym import SMap, SKey, SFun, SV
        from .engine import ENG, ELEM_FACTS
        from . import solver as S
        n = T.var("n_" + self.fam, T.I)
        ENG.assume(T.le(T.num(self.lo), n))
        fn = isinstance(self.value, Fn)
        if fn:
            self.value.make_sym(name, st)
            impl = S.FN_IMPL[name]
            S.FN_IMPL[name] = keyed_impl(name, self.value)

            def val(i):
                f = sym_fn(name)
                return SFun(lambda j: lambda *a: f(SV(j), *a), i)
            ext = {k: (lambda *a, j=j: sym_fn(name)(float(-1 - j), *a)) for j, k in enumerate(self.extra)}
        else:
            dom = self.value
            ELEM_FACTS[name] = dom.facts
            S.FN_IMPL[name] = lambda i: elem_rand(name, (int(i),), dom, 0)

            def val(i):
                return SV(T.app(name, i))
            ext = {k: SV(T.app(name, T.num(-1 - j))) for j, k in enumerate(self.extra)}
        return SMap(SV(n), lambda i: SKey(self.fam, i), val, ext)

    def sample_env(self, name, r, env):
        env.setdefault("n_" + self.fam, max(self.lo, r.randint(1, 3)))

    def make_conc(self, name, env, r):
        if "n_" + self.fam not in env:
            env["n_" + self.fam] = max(self.lo, r.randint(1, 3))
        keys = [("%s%d" % (self.fam, j), j) for j in range(int(env["n_" + self.fam]))] + [(k, -1 - j) for j, k in enumerate(self.extra)]
        if isinstance(self.value, Fn):
            f = Fn(self.value.n + 1, self.value.lo, self.value.hi, impl=keyed_impl(name, self.value)).make_conc(name, env, r)
            return {k: (lambda *a, j=j: f(float(j), *a)) for k, j in keys}
        return {k: elem_rand(name, (j,), self.value, 0) for k, j in keys}


def keyed_impl(name, fn):
    lo, hi = fn.rng()
    if fn.impl:
        return fn.impl
    return lambda j, *a: 0.0 if fn.nonneg and int(j) == 1 and fn.lo == 0 else hval(name, (j * 3.0,) + a, lo, hi)


class Choice:
    def __init__(self, *options):
        self.options = options

    def make_sym(self, name, st):
        from .engine import ENG
        return ("choice", self)

    def sample_env(self, name, r, env):
        env.setdefault("?" + name, r.randrange(len(self.options)))

    def make_conc(self, name, env, r):
        k = env.get("?" + name)
        return self.options[r.randrange(len(self.options)) if k is None else k]


class Either:
    """one of several domains"""

    def __init__(self, *doms):
        self.options = doms

    def make_sym(self, name, st):
        return ("either", [d.make_sym("%s_%d" % (name, j), st) for j, d in enumerate(self.options)])

    def sample_env(self, name, r, env):
        for j, d in enumerate(self.options):
            d.sample_env("%s_%d" % (name, j), r, env)

    def make_conc(self, name, env, r):
        k = env.get("?" + name)
        if k is None:
            k = r.randrange(len(self.options))
        return self.options[k].make_conc("%s_%d" % (name, k), env, r)


def Energies(elem):
    return Either(elem, Arr(elem))


# clause collectors ----------------------------------------------------------------------

def generalise(goal, pc, pool, gens):
    from . import terms as T
    from . import solver as S
    from .engine import ENG
    pc, pool = list(pc), [dict(e) for e in pool]
    m = {}
    for t, v, _ in gens:
        m[t] = v
        envs = pool[:4] or ([ENG.sampler(k) for k in range(4)] if ENG.sampler else [])
        try:
            fp = ["%.9e" % S.evaluate(t, e) for e in envs]
        except S.EvalError:
            fp = None
        if not fp:
            continue
        for u in T.subterms(goal, *pc):
            if u is t or u in m or u.sort != T.R or u.op in ("num", "var") or any(w.data not in envs[0] for w in T.fv(u)):
                continue
            try:
                if ["%.9e" % S.evaluate(u, e) for e in envs] == fp and S.nf_equal(pc, t, u, envs, 5) is True:
                    m[u] = v
            except S.EvalError:
                pass
    for t, v, fs in gens:
        for e in pool:
            try:
                e[v.data] = S.evaluate(t, e)
            except S.EvalError:
                pass
        pc += fs
    return T.replace(goal, m), [T.replace(c, m) for c in pc], pool


def T0(x):
    from . import terms as T
    return T.num(frac(x))


class _Item:
    pass


def patch(name, value, undo):
    import sys
    mod, attr = name.rsplit(".", 1)
    orig = getattr(importlib.import_module(mod), attr)
    for m in list(sys.modules.values()):
        if m is None or not getattr(m, "__name__", "").startswith("hazma"):
            continue
        for k, v in list(vars(m).items()):
            if v is orig:
                undo.append((m, k, orig))
                setattr(m, k, value)
            elif type(v) is dict and not k.startswith("__"):
                for j, w in list(v.items()):
                    if w is orig:
                        undo.append((v, j, orig))
                        v[j] = value


def unpatch(undo):
    for m, k, v in reversed(undo):
        if isinstance(m, dict):
            m[k] = v
        else:
            setattr(m, k, v)


class Failure(Exception):
    def __init__(self, clause, detail):
        super().__init__(clause)
        self.clause, self.detail = clause, detail


class Symbolic:
    symbolic = True

    def __init__(self):
        self.obs = []        # (clause, goal term, pc, pool)
        self.choices = {}
        self.gens = []

    # language -------------------------------------------------------------------
    @property
    def np(self):
        from . import vnp
        return vnp.np

    @property
    def pi(self):
        from . import vnp
        return vnp.PI

    def mod(self, name):
        if name.startswith("scipy"):
            from . import vnp
            return vnp.get_scipy(name)
        return importlib.import_module(name)

    def get(self, name):
        """attribute by dotted name, None when absent"""
        m, _, a = name.rpartition(".")
        try:
            return getattr(importlib.import_module(m), a, None)
        except ImportError:
            return None

    def q(self, x):
        from .sym import num
        from fractions import Fraction
        from . import terms as T
        from .sym import SV
        return SV(T.num(frac(x)))

    def fact(self, n):
        from . import vnp
        return vnp.math.factorial(n)

    def sqrt(self, x):
        from . import vnp
        return vnp.sqrt(x)

    def exp(self, x):
        from . import vnp
        return vnp.exp(x)

    def log(self, x):
        from . import vnp
        return vnp.log(x)

    def abs(self, x):
        from . import vnp
        return vnp.abs(x)

    def ite(self, c, a, b):
        from . import vnp
        from .sym import SArr, ite_val, bterm, as_scalar
        if any(isinstance(x, SArr) for x in (c, a, b)):
            return vnp.where(c, a, b)
        return ite_val(bterm(c), as_scalar(a), as_scalar(b))

    def and_(self, *cs):
        r = cs[0]
        for c in cs[1:]:
            r = r & c
        return r

    def or_(self, *cs):
        r = cs[0]
        for c in cs[1:]:
            r = r | c
        return r

    def not_(self, c):
        return ~c if not isinstance(c, bool) else not c

    def integral(self, f, a, b):
        from . import vnp
        return vnp.quad(f, a, b)[0]

    def each(self, f, a):
        """array of f at every element of a one-dimensional array"""
        from .sym import SArr, SV, axis_var, subst_val, numv, as_scalar
        from .engine import ENG
        from . import terms as T
        a = SArr.of(a)
        ax = axis_var(0)
        k = T.fresh("elem", T.I)
        base, n0 = ENG.snapshot(), len(ENG.pc)
        ENG.assume(T.le(T.ZERO, k))
        from .vnp import dim_term
        ENG.assume(T.lt(k, dim_term(a.shape[0])))
        try:
            v = f(subst_val(numv(a.val), {ax: k}))
        finally:
            new = ENG.pc[n0 + 2:]
            ENG.restore(base)
        v = numv(v)
        if isinstance(v, SArr) and v.ndim == 0:
            v = as_scalar(v.val)
        if new:
            raise Exception("contract decides on the elements of an array")
        return SArr(a.shape, subst_val(v, {k: ax}), a.filt)

    def simpson(self, y, x):
        from . import vnp
        return vnp.simpson(y, x=x)

    def sum(self, f, n):
        from .sym import seq_sum, SV
        return seq_sum(n, lambda i: f(SV(i)))

    def max(self, a, b):
        from . import vnp
        return vnp.minmax(a, b, True)

    def min(self, a, b):
        from . import vnp
        return vnp.minmax(a, b, False)

    def entries(self, d, f, **extra):
        """{k: f(k, d[k])} plus the given literal keys"""
        from .sym import SMap
        if isinstance(d, dict):
            r = {k: f(k, v) for k, v in d.items()}
        else:
            r = SMap(d.n, d.key, lambda i: self._merged(lambda: f(d.key(i), d.val(i))), {k: self._merged(lambda: f(k, v)) for k, v in d.extra.items()})
            r.extra.update(extra)
            return r
        r.update(extra)
        return r

    def total(self, d, f=None):
        """sum of f(k, d[k]) over the keys"""
        from .sym import seq_sum, SV
        f = f or (lambda k, v: v)
        if isinstance(d, dict):
            return sum(f(k, v) for k, v in d.items())
        r = 0
        for k, v in d.extra.items():
            r = r + f(k, v)
        return seq_sum(d.n, lambda i: self._merged(lambda: f(d.key(i), d.val(i)))) + r

    def _merged(self, g):
        from .engine import ENG
        return ENG.merge(g)

    def best_pair(self, grid, f):
        """largest f(grid[i], grid[j]), i < j"""
        from .sym import FlatSeq, SV
        from .vnp import FlatArr, dim_term, mkdim
        from . import terms as T
        if isinstance(grid.shape[0], int):
            k = grid.shape[0]
            return self.np.nanmax([f(grid[i], grid[j]) for i in range(k) for j in range(i + 1, k)])
        n = dim_term(grid.shape[0])

        def inner(i):
            return mkdim(T.sub(T.sub(n, i), T.ONE)), lambda l: f(grid[SV(i)], grid[SV(T.add(T.add(i, l), T.ONE))])
        return FlatArr(FlatSeq(mkdim(T.sub(n, T.ONE)), inner)).extremum("max")

    def fn(self, name, n=1, lo=None, hi=None, **k):
        return Fn(n, lo, hi, **k).make_sym(name, {})

    def opaque(self, name, *args):
        return sym_fn(name)(*args)

    def diff(self, f, x):
        """derivative of f at the parameter x"""
        from .deriv import diff
        from .sym import SV, as_scalar
        from .vnp import t_real
        v = as_scalar(f(x))
        if not isinstance(v, SV):
            return SV(T0(0))
        return SV(diff(t_real(v.t), x.t))

    def extern(self, name, f):
        """the external procedure `name` (dotted) is replaced by f for the rest
        of the body"""
        from .vnp import HOOKS
        HOOKS[name.split(".")[-1]] = f

    undo = ()

    def patch(self, name, value):
        """the module-level object `name` (dotted) is `value`, wherever a hazma
        module holds it, for the rest of the body"""
        self.undo = list(self.undo)
        patch(name, value, self.undo)

    def assume(self, c):
        from .engine import ENG
        from .sym import bterm
        ENG.assume(bterm(c))

    def which(self, a, alts):
        """index of the alternative that agrees with `a` on the sampled inputs
        of this path (a hint: the agreement is then an obligation)"""
        from .engine import ENG
        from .sym import SArr, as_scalar
        from . import solver as S
        from .vnp import t_real
        A = SArr.of(a)
        pool = extend_pool(ENG.pool, A) if A.ndim else ENG.pool
        ok = list(range(len(alts)))
        for j in ok:
            if t_real(as_scalar(SArr.of(alts[j]).val).t) is t_real(as_scalar(A.val).t):
                return j
        n = 0
        for e in pool[:8]:
            try:
                x = S.evaluate(t_real(as_scalar(A.val).t), e)
            except S.EvalError:
                continue
            n += 1
            keep = []
            for j in ok:
                try:
                    y = S.evaluate(t_real(as_scalar(SArr.of(alts[j]).val).t), e)
                except S.EvalError:
                    continue
                if abs(x - y) <= 1e-14 * max(abs(x), abs(y)):
                    keep.append(j)
            ok = keep
        return ok[0] if ok else None

    def fork(self, n, label):
        from .engine import ENG
        k = ENG.choose(n)
        self.choices[label] = k
        return k

    # clauses --------------------------------------------------------------------
    def _add(self, clause, goal):
        from .engine import ENG
        pc, pool = list(ENG.pc), list(ENG.pool)
        if self.gens:
            goal, pc, pool = generalise(goal, pc, pool, self.gens)
        self.obs.append((clause, goal, pc, pool, dict(self.choices)))

    def abstract(self, x, facts=None):
        """in the clauses that follow, x (and whatever is provably equal to it)
        is an arbitrary number with the given facts, each an obligation"""
        from . import terms as T
        from .sym import SV, bterm, as_scalar
        from .vnp import t_real
        t = t_real(as_scalar(x).t)
        v = T.var("abs!%d" % len(self.gens), T.R)
        fs = []
        for f in (facts(x) if facts else []):
            self._add("fact about an abbreviation", bterm(f))
        for f in (facts(SV(v)) if facts else []):
            fs.append(bterm(f))
        self.gens.append((t, v, fs))

    def fail(self, clause, why):
        from . import terms as T
        self.obs.append((clause + ": " + why, T.FALSE) + self._ctx())

    def _ctx(self):
        from .engine import ENG
        return (list(ENG.pc), list(ENG.pool), dict(self.choices))

    def exact(self, x):
        """a number as the instrumented code sees it"""
        from .sym import num
        return num(x)

    def number(self, a):
        """floating-point value of a constant"""
        from . import solver
        from .sym import as_scalar
        return float(solver.evaluate(as_scalar(a).t, {}))

    def close(self, a, b, tol, clause):
        """equal to a number up to a relative error"""
        from .sym import num, as_scalar
        a = as_scalar(a)
        b = float(b)
        r = num(abs(b) * tol)
        b = num(b)
        self.true(a <= b + r, clause)
        self.true(b - r <= a, clause)

    def true(self, c, clause):
        from .sym import bterm, SArr
        if isinstance(c, SArr):
            self._elem(c, lambda v: bterm(v), clause)
            return
        self._add(clause, bterm(c) if not isinstance(c, bool) else bterm(c))

    def _elem(self, arr, f, clause):
        from . import terms as T
        from .engine import ENG
        s = ENG.snapshot()
        for v, d in zip(arr.ivars(), arr.dims()):
            ENG.assume(T.le(T.ZERO, v))
            ENG.assume(T.lt(v, d))
        if arr.filt is not None:
            ENG.assume(arr.filt)
        ENG.pool = extend_pool(ENG.pool, arr)
        try:
            self._add(clause, f(arr.val))
        finally:
            ENG.restore(s)

    def eq(self, a, b, clause, tol=None, shape=True):
        from . import terms as T
        from .sym import SArr, SV, SB, SC, SSeq, SMap, isnum, iscplx, as_scalar, lift_term, same_dim, dim_term, is_sym, subst_any, SView
        from .engine import ENG
        import numpy as np
        if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None))) or (isinstance(b, bool) and not isinstance(a, SB)):
            self._add(clause, T.TRUE if a is b or (type(a) is type(b) and a == b) else T.FALSE)
            return
        if isinstance(a, (SMap, dict)) and isinstance(b, (SMap, dict)) and (isinstance(a, SMap) or isinstance(b, SMap)):
            if not (isinstance(a, SMap) and isinstance(b, SMap)):
                self.fail(clause, "keys differ")
                return
            if set(a.extra) != set(b.extra):
                self.fail(clause, "keys %s differ from %s" % (sorted(a.extra), sorted(b.extra)))
                return
            for k in b.extra:
                self.eq(a.extra[k], b.extra[k], clause + "[%s]" % k, tol)
            self._add(clause + ".len", T.eq(dim_term(a.n), dim_term(b.n)))
            i = T.fresh("k", T.I)
            s = ENG.snapshot()
            ENG.assume(T.le(T.ZERO, i))
            ENG.assume(T.lt(i, dim_term(b.n)))
            try:
                self.eq_key(a.key(i), b.key(i), clause + ".key")
                self.eq(a.val(i), b.val(i), clause + ".value", tol)
            finally:
                ENG.restore(s)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                self.fail(clause, "keys %s differ from %s" % (sorted(map(str, a)), sorted(map(str, b))))
                return
            for k in b:
                self.eq(a[k], b[k], clause + "[%s]" % (k,), tol)
            return
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.fail(clause, "lengths %d and %d" % (len(a), len(b)))
                return
            for j, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, clause + "[%d]" % j, tol)
            return
        if isinstance(a, (SArr, np.ndarray, list, SSeq)) or isinstance(b, (SArr, np.ndarray, list, SSeq)):
            A, Bv = SArr.of(a), SArr.of(b)
            if shape:
                if A.ndim != Bv.ndim:
                    self.fail(clause, "rank %d instead of %d" % (A.ndim, Bv.ndim))
                    return
                for x, y in zip(A.shape, Bv.shape):
                    if not same_dim(x, y):
                        self._add(clause + ".shape", T.eq(dim_term(x), dim_term(y)))
            sh, x, y, filt = SArr.bcast(A, Bv)
            if any(isinstance(d, int) and d == 0 for d in sh):
                return
            self._elem(SArr(sh, as_scalar(x), filt), lambda v: self._eqt(x, y), clause)
            return
        if isinstance(a, SC) or isinstance(b, SC) or iscplx(a) or iscplx(b):
            A, Bv = SC.of(a), SC.of(b)
            self._add(clause + ".re", T.eq(A.re.t, Bv.re.t))
            self._add(clause + ".im", T.eq(A.im.t, Bv.im.t))
            return
        if not (isnum(a) and isnum(b)):
            self.fail(clause, "got %s, expected %s" % (type(a).__name__, type(b).__name__))
            return
        from .sym import nonfinite
        if nonfinite(a) or nonfinite(b):
            if isinstance(a, SV) or isinstance(b, SV):
                from .sym import special_num
                self._add(clause, self._eqt(special_num(a), special_num(b)))
                return
            same = nonfinite(a) and nonfinite(b) and not isinstance(a, SV) and not isinstance(b, SV) and (float(a) == float(b) or (a != a and b != b))
            self._add(clause, T.TRUE if same else T.FALSE)
            return
        self._add(clause, self._eqt(a, b))

    def eq_key(self, a, b, clause):
        from . import terms as T
        from .sym import SKey
        if isinstance(a, SKey) and isinstance(b, SKey) and a.fam == b.fam:
            self._add(clause, T.eq(a.idx, b.idx))
        else:
            self._add(clause, T.TRUE if isinstance(a, str) and a == b else T.FALSE)

    def _eqt(self, a, b):
        from . import terms as T
        from .sym import SB, SC, lift_term, bterm
        if isinstance(a, SC) or isinstance(b, SC):
            a, b = SC.of(a), SC.of(b)
            return T.and_(T.eq(a.re.t, b.re.t), T.eq(a.im.t, b.im.t))
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            x, y = bterm(a), bterm(b)
            return T.and_(T.implies(x, y), T.implies(y, x))
        return T.eq(lift_term(a), lift_term(b))

    def le(self, a, b, clause, tol=None):
        self.true(lift_cmp(a) <= b, clause)

    def lt(self, a, b, clause, tol=None):
        self.true(lift_cmp(a) < b, clause)

    def raises(self, exc, fn, clause):
        from . import terms as T
        try:
            fn()
        except exc:
            self._add(clause, T.TRUE)
            return
        except Exception as e:
            self.fail(clause, "raised %s" % type(e).__name__)
            return
        self._add(clause, T.FALSE)

    def shape(self, a, shape, clause):
        from . import terms as T
        from .sym import SArr, same_dim, dim_term
        A = SArr.of(a)
        if A.ndim != len(shape):
            self.fail(clause, "rank %d instead of %d" % (A.ndim, len(shape)))
            return
        for x, y in zip(A.shape, shape):
            self._add(clause, T.TRUE if same_dim(x, y) else T.eq(dim_term(x), dim_term(y)))


def lift_cmp(a):
    from .sym import as_scalar, isnum
    return as_scalar(a) if isnum(a) else a


def extend_pool(pool, arr):
    """environments for a generic position of an array"""
    from . import terms as T
    from . import solver as S
    out = []
    for e in pool:
        for k in range(2):
            f = dict(e)
            ok = True
            for v, d in zip(arr.ivars(), arr.dims()):
                try:
                    n = int(S.evaluate(d, f))
                except S.EvalError:
                    ok = False
                    break
                if n <= 0:
                    ok = False
                    break
                f[v.data] = min(n - 1, k) if k == 0 else (n * 2) // 3 if n > 1 else 0
            if ok and arr.filt is not None:
                try:
                    ok = S.evaluate(arr.filt, f)
                except S.EvalError:
                    pass
            if ok:
                out.append(f)
    return out


class Concrete:
    symbolic = False

    def __init__(self):
        self.n = 0
        self.choices = {}
        self.env = {}
        self.rng = random.Random(0)

    @property
    def np(self):
        import numpy
        return numpy

    pi = math.pi

    def mod(self, name):
        return importlib.import_module(name)

    def get(self, name):
        m, _, a = name.rpartition(".")
        try:
            return getattr(importlib.import_module(m), a, None)
        except ImportError:
            return None

    def q(self, x):
        return float(x)

    def fact(self, n):
        return math.factorial(n)

    def sqrt(self, x):
        import numpy as np
        return np.sqrt(x)

    def exp(self, x):
        import numpy as np
        return np.exp(x)

    def log(self, x):
        import numpy as np
        return np.log(x)

    def abs(self, x):
        import numpy as np
        return np.abs(x)

    def ite(self, c, a, b):
        import numpy as np
        if np.ndim(c) or np.ndim(a) or np.ndim(b):
            return np.where(c, a, b)
        return a if c else b

    def and_(self, *cs):
        import numpy as np
        r = cs[0]
        for c in cs[1:]:
            r = np.logical_and(r, c)
        return r

    def or_(self, *cs):
        import numpy as np
        r = cs[0]
        for c in cs[1:]:
            r = np.logical_or(r, c)
        return r

    def not_(self, c):
        import numpy as np
        return np.logical_not(c)

    def integral(self, f, a, b):
        from scipy.integrate import quad
        return quad(f, a, b, epsabs=0.0, epsrel=1e-9, limit=400)[0]

    def simpson(self, y, x):
        from scipy.integrate import simpson
        return simpson(y, x=x)

    def each(self, f, a):
        import numpy as np
        return np.array([f(x) for x in a])

    def sum(self, f, n):
        return sum(f(i) for i in range(int(n)))

    def entries(self, d, f, **extra):
        return dict({k: f(k, v) for k, v in d.items()}, **extra)

    def total(self, d, f=None):
        f = f or (lambda k, v: v)
        return sum(f(k, v) for k, v in d.items())

    def abstract(self, x, facts=None):
        pass

    def max(self, a, b):
        import numpy as np
        return np.maximum(a, b)

    def min(self, a, b):
        import numpy as np
        return np.minimum(a, b)

    def best_pair(self, grid, f):
        import numpy as np
        return np.nanmax([f(grid[i], grid[j]) for i in range(len(grid)) for j in range(i + 1, len(grid))])

    def fn(self, name, n=1, lo=None, hi=None, **k):
        return Fn(n, lo, hi, **k).make_conc(name, self.env, self.rng)

    def opaque(self, name, *args):
        from .replay import core_value
        return core_value(name, *args)

    def diff(self, f, x):
        h = 1e-3 * (abs(x) if abs(x) > 1e-3 else 1.0)
        d = lambda s: (8 * (f(x + s) - f(x - s)) - (f(x + 2 * s) - f(x - 2 * s))) / (12 * s)
        a, b = float(d(h)), float(d(h / 2))
        if abs(a - b) > 1e-5 * max(abs(a), abs(b)):
            raise Skip()
        return b

    def patch(self, name, value):
        patch(name, value, self.undo)

    def extern(self, name, f):
        import importlib
        import sys
        mod, attr = name.rsplit(".", 1)
        orig = getattr(importlib.import_module(mod), attr)
        for m in list(sys.modules.values()):
            if m is None or not getattr(m, "__name__", "").startswith(("hazma", "scipy", "skimage")):
                continue
            for k, v in list(vars(m).items()):
                if v is orig:
                    self.undo.append((m, k, orig))
                    setattr(m, k, f)

    def assume(self, c):
        import numpy as np
        if not np.all(c):
            raise Skip()

    def fork(self, n, label):
        k = self.env.get("?" + label)
        if k is None:
            k = self.rng.randrange(n)
        self.choices[label] = k
        return k

    def fail(self, clause, why):
        raise Failure(clause, why)

    def exact(self, x):
        return x

    def number(self, a):
        return float(a)

    def close(self, a, b, tol, clause):
        import numpy as np
        a, b = float(a), float(b)
        self.true(bool(abs(a - b) <= (tol + 1e-12) * abs(b)), clause)

    def true(self, c, clause):
        import numpy as np
        self.n += 1
        if not np.all(c):
            raise Failure(clause, "false: %r" % (c,))

    def eq(self, a, b, clause, tol=None, shape=True):
        import numpy as np
        self.n += 1
        if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
            if not (a == b):
                raise Failure(clause, "%r instead of %r" % (a, b))
            return
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                raise Failure(clause, "keys %s instead of %s" % (list(a) if isinstance(a, dict) else a, list(b) if isinstance(b, dict) else b))
            for k in b:
                self.eq(a[k], b[k], clause + "[%s]" % (k,), tol, shape)
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                raise Failure(clause, "lengths %d and %d" % (len(a), len(b)))
            for j, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, clause + "[%d]" % j, tol, shape)
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == bool:
            x = x.astype(int)
        if y.dtype == bool:
            y = y.astype(int)
        if shape and x.shape != y.shape:
            raise Failure(clause, "shape %s instead of %s" % (x.shape, y.shape))
        tol = tol or EPS_REL
        with np.errstate(all="ignore"):
            d = np.abs(x - y)
            s = np.maximum(np.abs(x), np.abs(y))
            ok = (d <= tol * s) | (x == y) | (np.isnan(x.astype(complex)) & np.isnan(y.astype(complex))) | (d <= getattr(self, "atol", 0.0))
        if not np.all(ok):
            raise Failure(clause, "%s instead of %s" % (short(a), short(b)))

    def le(self, a, b, clause, tol=None):
        import numpy as np
        self.n += 1
        t = tol or EPS_REL
        if not np.all(np.asarray(a) <= np.asarray(b) + t * np.maximum(np.abs(a), np.abs(b))):
            raise Failure(clause, "%s > %s" % (short(a), short(b)))

    def lt(self, a, b, clause, tol=None):
        self.le(a, b, clause, tol)

    def raises(self, exc, fn, clause):
        self.n += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Failure(clause, "raised %r" % e)
        raise Failure(clause, "did not raise")

    def shape(self, a, shape, clause):
        import numpy as np
        self.n += 1
        if np.shape(a) != tuple(int(s) for s in shape):
            raise Failure(clause, "shape %s instead of %s" % (np.shape(a), tuple(shape)))


class Skip(Exception):
    pass


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."
