"""Loads the hazma sources of /repo, instrumented mechanically on every run.

What the instrumentation does: real literals become exact rationals, integer
division and powers become exact, calls of builtins (len, sum, range, ...) and
loops / comprehensions go through `_vc_` so that sequences of unknown length
can be summarised, every function passes through a hook where a callee's
contract may stand for its body, numpy / scipy / math are the verifier's.
What it drops: nothing else - annotations, docstrings and all other statements
run as written."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import functools
import os
import sys
import types
from fractions import Fraction
import numpy as _np
from . import terms as t_
from . import vnp
from .engine import ENG, Unsupported, Infeasible
from .sym import (POISON, FlatSeq, SV, SB, SC, SArr, SSeq, SMap, SView, SKey, SFun, is_sym, isnum, iscplx, num, axis_var, dim_term, mkdim, KSeq,
                  mkbinder, subst_val, subst_any, as_scalar, ite_val, sum_value, lift_term, merge_values)

REPO = os.environ.get("VC_REPO", "/repo")
R, I, B = t_.R, t_.I, t_.B

SUMMARIES = {}          # "module:qualname" -> callable(original, *a, **k)
COVERED = set()         # functions executed
SUMMARISED = set()      # call sites answered by a contract


class Rt:
    """runtime support, one per module"""

    def __init__(self, mod):
        self.mod = mod
        self.cache = {}

    # literals ------------------------------------------------------------------
    def num(self, x):
        v = self.cache.get(x)
        if v is None:
            v = self.cache[x] = num(x) if x == x and x not in (float("inf"), float("-inf")) else x
        return v

    def cnum(self, x):
        return SC(num(x.real), num(x.imag))

    def div(self, a, b):
        if isinstance(a, (int, Fraction, _np.integer)) and isinstance(b, (int, Fraction, _np.integer)) and not isinstance(a, bool):
            return SV(t_.num(Fraction(int(a) if isinstance(a, _np.integer) else a) / Fraction(int(b) if isinstance(b, _np.integer) else b)))
        return a / b

    def pow(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if b >= 0:
                return a ** b
            return SV(t_.num(Fraction(a) ** b))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return as_scalar(a) ** b
        return a ** b

    def mod_(self, a, b):
        if isinstance(a, str):
            try:
                return a % b
            except Unsupported:
                return a    # the text of a message: nothing depends on it
        return a % b

    def iop(self, op, a, b):
        if isinstance(a, SArr):
            return {"/": SArr.__itruediv__, "**": SArr.__ipow__}[op](a, b)
        return self.div(a, b) if op == "/" else self.pow(a, b)

    def asserted(self, c):
        """the condition of an assert statement; a contract may take it as given"""
        if "assume_asserts" in vnp.HOOKS:
            from .sym import bterm
            from .engine import ENG
            from . import terms as T
            t = bterm(c) if not isinstance(c, bool) else (T.TRUE if c else T.FALSE)
            ENG.assume(t)
            return True
        return c

    # hooks ------------------------------------------------------------------------
    def hook(self, qual):
        key = self.mod + ":" + qual

        def deco(f):
            if not isinstance(f, types.FunctionType):
                return f

            @functools.wraps(f)
            def w(*a, **k):
                s = SUMMARIES.get(key)
                if s is not None:
                    SUMMARISED.add(key)
                    return s(f, *a, **k)
                COVERED.add(key)
                return f(*a, **k)
            return w
        return deco

    # builtins -----------------------------------------------------------------------
    def isinstance(self, x, T):
        ts = flat_types(T)
        if not isinstance(x, (SV, SB, SC, SArr, SSeq, SMap, SView, SKey)):
            if isinstance(x, Fraction):
                return float in ts
            return any(safe_isinstance(x, t) for t in ts)
        for t in ts:
            if t is vnp.float64:
                t = _np.float64
            if t is object:
                return True
            if isinstance(x, SV):
                if x.t.sort == I and t in (int,):
                    return True
                if x.t.sort == R and t is float:
                    return True
                if t in NUMABC:
                    return True
            elif isinstance(x, SB):
                if t in (bool, int):
                    return True
            elif isinstance(x, SC):
                if t is complex:
                    return True
            elif isinstance(x, SArr):
                if t in (_np.ndarray,):
                    return True
            elif isinstance(x, SSeq):
                if t in (list,) or getattr(t, "__name__", "") in ("Sequence", "Iterable", "Sized", "Collection"):
                    return True
            elif isinstance(x, (SMap,)):
                if t is dict or getattr(t, "__name__", "") in ("Mapping", "MutableMapping"):
                    return True
            elif isinstance(x, SKey):
                if t is str:
                    return True
        return False

    def type(self, *a):
        if len(a) != 1:
            return type(*a)
        x = a[0]
        if isinstance(x, SV):
            return int if x.t.sort == I else float
        if isinstance(x, SB):
            return bool
        if isinstance(x, SC):
            return complex
        if isinstance(x, SArr):
            return _np.ndarray
        if isinstance(x, SSeq):
            return list
        if isinstance(x, SMap):
            return dict
        if isinstance(x, SKey):
            return str
        return type(x)

    def float(self, *a):
        if not a:
            return num(0.0)
        x = a[0]
        if isinstance(x, SArr):
            return vnp.toreal(vnp.scalar_result(x))
        if isinstance(x, (SV, SB)):
            return vnp.toreal(x)
        if isinstance(x, SC):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        v = float(x)
        return num(v) if not vnp.nonfinite(v) else v

    def int(self, *a):
        if len(a) == 1 and isinstance(a[0], (SV, SB)):
            return index_or(vnp.to_int(a[0] if isinstance(a[0], SV) else a[0]._num()))
        if len(a) == 1 and isinstance(a[0], SArr):
            return vnp.to_int(vnp.scalar_result(a[0]))
        return int(*a)

    def complex(self, *a):
        if any(is_sym(x) for x in a):
            if len(a) == 1:
                return SC.of(a[0])
            x, y = SC.of(a[0]), SC.of(a[1])
            return x + y * SC(num(0.0), num(1.0))
        c = complex(*a)
        return SC(num(c.real), num(c.imag))

    def bool(self, x=False):
        return bool(x)

    def len(self, x):
        f = getattr(x, "symlen", None)
        if f is not None:
            return f()
        return len(x)

    def range(self, *a):
        b = [index_or(x) for x in a]
        if any(isinstance(x, SV) for x in b):
            for x in b:
                if isinstance(x, SV) and x.t.sort == R:
                    raise TypeError("'float' object cannot be interpreted as an integer")
            lo = 0 if len(b) == 1 else b[0]
            hi = b[0] if len(b) == 1 else b[1]
            if len(b) == 3:
                raise Unsupported("symbolic range with a step")
            n = ENG.constant(t_.sub(lift_term(hi), lift_term(lo)))
            if n is not None:
                return [lo + k for k in range(max(n, 0))]
            return SSeq(as_scalar(hi) - lo, lambda i: SV(t_.add(lift_term(lo), i)))
        for x in b:
            if isinstance(x, float):
                raise TypeError("'float' object cannot be interpreted as an integer")
        return range(*b)

    def sum(self, x, *start):
        return vnp.vc_sum(x, *start)

    def abs(self, x):
        return abs(x)

    def min(self, *a, **k):
        return self._ext(False, a, k)

    def max(self, *a, **k):
        return self._ext(True, a, k)

    def _ext(self, mx, a, k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SSeq):
                x = x.to_array()
            if isinstance(x, SArr) and isinstance(x.shape[0], SV):
                return vnp.max(x) if mx else vnp.min(x)
            a = list(x)
            if not a and "default" in k:
                return k["default"]
        if k.get("key"):
            return (max if mx else min)(*a, **k) if len(a) > 1 else a[0]
        if not any(vnp.deep_sym(x) for x in a):
            return (max if mx else min)(a)
        r = a[0]
        for y in a[1:]:
            if isinstance(y, SArr) or isinstance(r, SArr):
                # python semantics: a truth value is taken
                if bool(y > r if mx else y < r):
                    r = y
            else:
                r = vnp.minmax(r, y, mx)
        return r

    def sorted(self, x, **k):
        xs = list(x)
        if any(isinstance(e, SV) for e in xs) and not k:
            # insertion sort through min / max
            out = []
            for e in xs:
                new = []
                cur = e
                for o in out:
                    new.append(vnp.minmax(o, cur, False))
                    cur = vnp.minmax(o, cur, True)
                out = new + [cur]
            return out
        return sorted(xs, **k)

    def round(self, x, *a):
        if isinstance(x, SV):
            raise Unsupported("round")
        return round(x, *a)

    def any(self, x):
        return self._quant(x, False)

    def all(self, x):
        return self._quant(x, True)

    def _quant(self, x, univ):
        if isinstance(x, (SSeq, SView)):
            k = t_.fresh("k", I)
            v = x.elem(k)
            c = bterm_any(v)
            r = SB(mkbinder("all" if univ else "any", k, t_.ZERO, dim_term(x.n), c))
            for e in getattr(x, "tail", []):
                r = r & SB(bterm_any(e)) if univ else r | SB(bterm_any(e))
            return r
        if isinstance(x, SArr):
            return vnp.all(x) if univ else vnp.any(x)
        for e in x:
            if univ and not e:
                return False
            if not univ and e:
                return True
        return univ

    def list(self, *a):
        if a and isinstance(a[0], SMap):
            return a[0].keys() if a[0].extra else SSeq(a[0].n, a[0].key)
        if a and isinstance(a[0], SView):
            v = a[0]
            return v if v.tail else SSeq(v.n, v.elem)
        if a and isinstance(a[0], KSeq):
            return a[0]
        if a and isinstance(a[0], SSeq):
            return SSeq(a[0].n, a[0].elem)
        if a and isinstance(a[0], SArr) and a[0].filt is not None:
            return symiter(a[0])
        if a and isinstance(a[0], SArr) and isinstance(a[0].shape[0], SV):
            return SSeq(a[0].shape[0], lambda i, x=a[0]: x[SV(i)])
        return list(*a)

    def tuple(self, *a):
        if a and is_symiter(a[0]):
            return self.list(*a)
        return tuple(*a)

    def dict(self, *a, **k):
        if a and isinstance(a[0], SMap):
            r = a[0].copy()
            r.extra.update(k)
            return r
        if a and isinstance(a[0], KSeq):
            raise Unsupported("dictionary from a masked sequence")
        if a and isinstance(a[0], (SSeq, SView)):
            return dict_of(a[0])
        return dict(*a, **k)

    def set(self, *a):
        if a and is_symiter(a[0]):
            return self.list(*a)
        return set(*a)

    def zip(self, *xs, **k):
        if any(is_symiter(x) for x in xs):
            ss = [symiter(x) for x in xs]
            n = ss[0].n
            for s in ss:
                if getattr(s, "tail", None):
                    raise Unsupported("zip of a view with concrete items")
            if any(isinstance(s, KSeq) for s in ss):
                k = t_.var("zip", I)
                if not all(isinstance(s, KSeq) and s.keep(k) is ss[0].keep(k) for s in ss):
                    raise Unsupported("pairing differently masked sequences")
                return KSeq(n, lambda i: tuple(s.elem(i) for s in ss), ss[0].keep)
            return SSeq(n, lambda i: tuple(s.elem(i) for s in ss))
        return zip(*xs, **k)

    def enumerate(self, x, start=0):
        if is_symiter(x):
            s = symiter(x)
            if isinstance(s, KSeq):
                raise Unsupported("enumerate of a masked sequence")
            if getattr(s, "tail", None):
                raise Unsupported("enumerate of a view with concrete items")
            return SSeq(s.n, lambda i: (SV(i) + start, s.elem(i)))
        return enumerate(x, start)

    def map(self, f, *xs):
        if any(is_symiter(x) for x in xs):
            z = self.zip(*xs)
            if isinstance(z, KSeq):
                return KSeq(z.n, lambda i: f(*z.elem(i)), z.keep)
            return SSeq(z.n, lambda i: f(*z.elem(i)))
        return map(f, *xs)

    def print(self, *a, **k):
        return None

    def pow_(self, *a):
        return self.pow(*a)

    def callable(self, x):
        return callable(x)

    def hasattr(self, x, n):
        if isinstance(x, SV) and n in ("__len__", "shape", "size", "ndim", "dtype", "__iter__", "__getitem__", "astype", "T"):
            return False
        if isinstance(x, SSeq) and n == "__len__":
            return True
        return hasattr(x, n)

    def iter(self, *a):
        return iter(*a)

    def super(self, *a):
        return super(*a)

    # iteration -------------------------------------------------------------------------
    def it(self, x):
        """iterable of a native loop"""
        if is_symiter(x):
            raise Unsupported("loop with early exit over a sequence of unknown length")
        return x

    def is_sym_iter(self, x):
        return is_symiter(x)

    def contains(self, x, c):
        """x in c"""
        if isinstance(c, KSeq):
            raise Unsupported("membership in a masked sequence")
        if isinstance(c, (SSeq, SView)):
            k = t_.fresh("k", I)
            e = c.elem(k)
            q = (e == x)
            tq = bterm_any(q)
            r = SB(mkbinder("any", k, t_.ZERO, dim_term(c.n), tq)) if tq is not t_.FALSE else False
            for e in getattr(c, "tail", []):
                r = (r | (e == x)) if not isinstance(r, bool) or is_sym(e == x) else (r or (e == x))
            return bool(r)
        if isinstance(c, SArr):
            return bool(vnp.any(c == x))
        return x in c

    def comp(self, kind, it, native_fn, elem_fn, cond_fn):
        if not is_symiter(it):
            return native_fn(it)
        if elem_fn is None:
            raise Unsupported("comprehension over a sequence of unknown length")
        s = symiter(it)
        n = s.n
        k = t_.fresh("k", I)
        snap = ENG.snapshot()
        ENG.assume(t_.le(t_.ZERO, k))
        ENG.assume(t_.lt(k, dim_term(n)))
        cond = None
        masked = isinstance(s, KSeq)
        if masked and (cond_fn is not None or kind == "dict"):
            raise Unsupported("filtered comprehension over a masked sequence")
        try:
            if masked:
                ENG.assume(s.keep(k))
            src = s.elem(k)
            if cond_fn is not None:
                c = ENG.merge(lambda: SB(bterm_any(cond_fn(src))))
                cond = c.t
                if cond is t_.TRUE:
                    cond = None
                elif cond is not t_.FALSE:
                    ENG.assume(cond)
            v = ENG.merge(lambda: elem_fn(src)) if cond is not t_.FALSE else None
        finally:
            ENG.restore(snap)
        tail = []
        for e in getattr(s, "tail", []):
            if cond_fn is None or cond_fn(e):
                tail.append(elem_fn(e))
        if cond is t_.FALSE:
            if kind == "dict":
                return dict(tail)
            return tail
        if cond is not None:
            return FSeq(n, k, cond, v, tail, kind)

        def elem(i, v=v, k=k):
            return subst_any(v, {k: i})
        try:
            subst_any(v, {k: t_.ZERO})
        except Unsupported:
            def elem(i):
                return elem_fn(s.elem(i))
        if masked:
            return KSeq(n, elem, s.keep)
        if kind == "dict":
            m = SMap(n, lambda i: elem(i)[0], lambda i: elem(i)[1], dict(tail))
            return m
        if tail:
            w = SView(SMap(n, None, None), elem, tail)
            return w
        return SSeq(n, elem)

    def run_loop(self, it, body, get, put, names, mutated):
        """summary of `for` over a sequence of unknown length"""
        s = symiter(it)
        if isinstance(s, KSeq):
            raise Unsupported("loop over a masked sequence")
        n = dim_term(s.n)
        s0 = get()
        k = t_.fresh("k", I)
        for nm in mutated:
            if nm in s0 and isinstance(s0[nm], (dict, SMap)):
                pass
            elif nm in s0 and isinstance(s0[nm], list):
                pass
            elif nm in s0 and isinstance(s0[nm], SArr):
                raise Unsupported("array updated in a loop of unknown length")
            else:
                raise Unsupported("object %s updated in a loop of unknown length" % nm)

        def trial(havoc):
            recs = {}

            def go():
                st = {q: POISON for q in names}
                st.update(s0)
                st.update(havoc)
                for nm in mutated:
                    if isinstance(s0[nm], (dict, SMap)):
                        recs[nm] = st[nm] = RecDict(s0[nm])
                    else:
                        recs[nm] = st[nm] = RecList(s0[nm])
                put(st)
                body(s.elem(k))
                r = get()
                out = {}
                for q in names:
                    r.setdefault(q, POISON)
                for q, v in r.items():
                    if isinstance(v, RecDict):
                        out[q] = {"keys": tuple(a for a, _ in v.rec), "vals": [b for _, b in v.rec]}
                    elif isinstance(v, RecList):
                        out[q] = {"vals": list(v.rec)}
                    else:
                        out[q] = v
                return out
            snap = ENG.snapshot()
            ENG.assume(t_.le(t_.ZERO, k))
            ENG.assume(t_.lt(k, n))
            try:
                out = ENG.merge(go)
                return {q: v for q, v in out.items() if q in mutated or q in havoc or not (v is POISON if q not in s0 else v is s0[q])}
            finally:
                ENG.restore(snap)

        def rerun(i, nm, stored):
            """what the body leaves in nm at index i (values that cannot be
            rewritten to another index)"""
            if havoc:
                raise Unsupported("object stored by a loop that carries values")

            def go():
                now = get()
                st = {q: POISON for q in names}
                st.update(s0)
                for q in mutated:
                    st[q] = RecDict(s0[q]) if isinstance(s0[q], (dict, SMap)) else RecList(s0[q])
                put(st)
                try:
                    body(s.elem(i))
                    v = get()[nm]
                finally:
                    put(now)
                if not stored:
                    return v
                v = v.rec[-1]
                return v[1] if isinstance(v, tuple) and isinstance(s0[nm], (dict, SMap)) else v
            return ENG.merge(go)
        havoc = {}
        s1 = trial({})
        for nm, v in s1.items():
            if nm in mutated or nm not in s0 or v is POISON:
                continue
            o = s0[nm]
            if isinstance(v, SArr) and not isinstance(o, SArr) or isinstance(o, SArr):
                vv = SArr.of(v)
                t = t_.fresh("h")
                if isinstance(vv.val, SC):
                    raise Unsupported("complex array carried by a loop")
                args = [axis_var(j) for j in range(vv.ndim)]
                havoc[nm] = SArr(vv.shape, SV(t_.app(t.data, *args))) if vv.ndim else SArr((), SV(t))
            elif isnum(v) and isnum(o):
                havoc[nm] = SV(t_.fresh("h", R))
            elif iscplx(v):
                havoc[nm] = SC(SV(t_.fresh("h")), SV(t_.fresh("h")))
        s2 = trial(havoc) if havoc else s1
        final = dict(s0)
        hv = set()
        hn = set()
        for h in havoc.values():
            for t in comps(h):
                hn.add(t.data if t.op == "app" else t.data)

        def dep(t):
            return any((u.op in ("var", "app")) and u.data in hn for u in t_.subterms(t))
        for nm, v in s2.items():
            if nm in mutated and isinstance(v, SSeq) and not isinstance(v, KSeq) and not s0[nm] and not havoc:
                def turn(i, m=v.n, e=v.elem):
                    def at(l):
                        return subst_any(e(l), {k: i})
                    return subst_any(SV(dim_term(m)), {k: i}), at
                final[nm] = FlatSeq(s.n, turn)
                continue
            if nm in mutated:
                vals = v["vals"]
                if any(dep(t) for x in vals for t in comps_any(x)):
                    raise Unsupported("loop-carried value stored in a container")
                if isinstance(s0[nm], (dict, SMap)):
                    keys = v["keys"]
                    if not keys:
                        continue
                    if len(keys) != 1 or not isinstance(keys[0], SKey):
                        raise Unsupported("dictionary filled in a loop with keys %r" % (keys,))
                    kk, vv = keys[0], vals[0]
                    ext = s0[nm].extra if isinstance(s0[nm], SMap) else s0[nm]
                    if isinstance(s0[nm], SMap) and s0[nm].key is not None:
                        raise Unsupported("map extended twice")
                    if any(isinstance(q, SKey) for q in ext):
                        raise Unsupported("map extended twice")
                    again = not subst_ok(vv, k)
                    m = SMap(s.n, lambda i, kk=kk: subst_any(kk, {k: i}),
                             lambda i, vv=vv, nm=nm, again=again: rerun(i, nm, True) if again else subst_any(vv, {k: i}), ext)
                    for e in getattr(s, "tail", []):
                        pass
                    final[nm] = m
                else:
                    if not vals:
                        continue
                    if len(vals) != 1 or s0[nm]:
                        raise Unsupported("list filled in a loop")
                    vv = vals[0]
                    again = not subst_ok(vv, k)
                    final[nm] = SSeq(s.n, lambda i, vv=vv, nm=nm, again=again: rerun(i, nm, True) if again else subst_any(vv, {k: i}))
                continue
            if v is POISON:
                final[nm] = POISON
                continue
            if nm not in havoc:
                # last write
                final[nm] = subst_any(v, {k: t_.sub(n, t_.ONE)}) if subst_ok(v, k) else rerun(t_.sub(n, t_.ONE), nm, False) if callable(v) else v
                continue
            final[nm] = carried(s0[nm], havoc[nm], v, k, n, dep)
        put(final)
        for e in getattr(s, "tail", []):
            body(e)


def comps(v):
    if isinstance(v, SArr):
        return comps(v.val)
    if isinstance(v, SC):
        return [v.re.t, v.im.t]
    if isinstance(v, (SV, SB)):
        return [v.t]
    return []


def comps_any(v):
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in comps_any(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in comps_any(x)]
    return comps(v)


def subst_ok(v, k):
    try:
        subst_any(v, {k: t_.ZERO})
        return True
    except Unsupported:
        return False


def carried(old, h, v, k, n, dep):
    from .nf import Nf
    if isinstance(v, SC) or isinstance(h, SC):
        v = SC.of(v)
        o = SC.of(old)
        return SC(carried(o.re, h.re, v.re, k, n, dep), carried(o.im, h.im, v.im, k, n, dep))
    if isinstance(v, SArr):
        o = SArr.of(old)
        hh = h
        sh, ov, _, _ = SArr.bcast(o, SArr(v.shape, num(0)))
        return SArr(v.shape, as_scalar(carried(ov, hh.val, v.val, k, n, dep)), v.filt)
    vt, ht = lift_term(v), h.t
    if not dep(vt):
        return ite_val(t_.lt(t_.ZERO, n), SV(t_.subst(vt, {k: t_.sub(n, t_.ONE)})), as_scalar(old))
    nf = Nf(None)

    def change(t, op):
        if t.op == "ite" and not dep(t.args[0]):
            a, b = change(t.args[1], op), change(t.args[2], op)
            return None if a is None or b is None else t_.ite(t.args[0], a, b)
        f, join = (("add", t_.add) if op is t_.sub else ("mul", t_.mul))
        if t is ht or t.op == f and [u for u in t.args if u is ht] == [ht]:
            rest = [u for u in t.args if u is not ht] if t is not ht else []
            r = t_.num(0 if op is t_.sub else 1)
            for u in rest:
                r = join(r, u)
            if not dep(r):
                return r
        dt = nf_term(nf, nf.nf(op(t, ht)))
        return None if dt is None or dep(dt) else dt
    dt = change(vt, t_.sub)
    if dt is not None:
        return as_scalar(old) + sum_value(SV(dt), k, n)
    dt = change(vt, t_.div)
    if dt is not None:
        return as_scalar(old) * sum_value(SV(dt), k, n, "prod")
    raise Unsupported("loop-carried update %s" % t_.show(vt)[:200])


def nf_term(nf, p):
    try:
        return nf.term(p)
    except Exception:
        return None


class FSeq:
    """filtered generic sequence; only sums and quantifiers are supported"""

    def __init__(self, n, k, cond, v, tail, kind):
        self.n, self.k, self.cond, self.v, self.tail, self.kind = n, k, cond, v, tail, kind

    def __iter__(self):
        raise Unsupported("iteration over a filtered sequence of unknown length")

    @property
    def ssum(self):
        v = self.v

        def elem(i):
            return ite_val(t_.subst(self.cond, {self.k: i}), subst_any(v, {self.k: i}), num(0))
        return SView(SMap(self.n, None, None), elem, self.tail)


class RecDict(dict):
    """a dictionary that records what a loop body stores"""

    def __init__(self, base):
        super().__init__(base if isinstance(base, dict) else base.extra)
        self.base = base
        self.rec = []

    def __setitem__(self, k, v):
        self.rec.append((k, v))

    def __getitem__(self, k):
        for a, b in reversed(self.rec):
            if a is k:
                return b
        if isinstance(k, SKey):
            raise Unsupported("reading a map filled by the same loop")
        return dict.__getitem__(self, k)


class RecList(list):
    def __init__(self, base):
        super().__init__(base)
        self.rec = []

    def append(self, v):
        self.rec.append(v)


def bterm_any(v):
    from .sym import bterm
    if isinstance(v, SArr) and v.ndim == 0:
        return bterm(v.val)
    return bterm(v)


def dict_of(s):
    def kv(i):
        return s.elem(i)
    return SMap(s.n, lambda i: kv(i)[0], lambda i: kv(i)[1], dict(getattr(s, "tail", [])))


def index_or(x):
    if isinstance(x, SV):
        if x.t.op == "num" and x.t.sort == I:
            return int(x.t.data)
        return x
    if isinstance(x, _np.integer):
        return int(x)
    return x


def is_symiter(x):
    if isinstance(x, (SSeq, SMap, SView)):
        return True
    if isinstance(x, FSeq):
        return True
    if isinstance(x, SArr):
        return bool(x.shape) and (isinstance(x.shape[0], SV) or x.filt is not None)
    return False


def symiter(x):
    if isinstance(x, SMap):
        return x.keys()
    if isinstance(x, (SSeq, SView)):
        return x
    if isinstance(x, SArr):
        if x.filt is not None:
            f, r = x.filt, x.ndim
            lead = axis_var(r - 1)
            if any(axis_var(j) in t_.fv(f) for j in range(r - 1)):
                raise Unsupported("iteration over a masked array")
            full = SArr(x.shape, x.val)
            return KSeq(x.shape[0], lambda i: full[SV(i)], lambda i: t_.subst(f, {lead: i}))
        return SSeq(x.shape[0], lambda i: x[SV(i)])
    if isinstance(x, FSeq):
        raise Unsupported("iteration over a filtered sequence")
    xs = list(x)
    raise Unsupported("pairing concrete and unknown-length sequences")


def flat_types(T):
    if isinstance(T, tuple):
        return [u for t in T for u in flat_types(t)]
    if isinstance(T, types.UnionType):
        return list(T.__args__)
    o = getattr(T, "__origin__", None)
    if o is not None and getattr(T, "__args__", None) and o.__class__.__name__ == "_SpecialForm":
        return list(T.__args__)
    return [T]


def safe_isinstance(x, t):
    try:
        return isinstance(x, t)
    except TypeError:
        raise


import numbers
NUMABC = (numbers.Number, numbers.Real, numbers.Complex)

BUILTINS = ["isinstance", "type", "float", "int", "complex", "len", "range", "sum", "abs", "min", "max", "sorted", "round",
            "any", "all", "list", "tuple", "dict", "set", "zip", "enumerate", "map", "print", "hasattr"]


# --------------------------------------------------------------------------------------

def L(src):
    return ast.parse(src, mode="eval").body


def names_stored(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def comp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_alias(self, n):
            nm = (n.asname or n.name).split(".")[0]
            if nm not in out:
                out.append(nm)
    for n in nodes:
        V().visit(n)
    return out


def escapes(nodes):
    """return / break / yield / await belonging to this loop body"""
    bad = [False]

    class V(ast.NodeVisitor):
        def __init__(self):
            self.d = 0

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Return(self, n):
            bad[0] = True
        visit_Yield = visit_YieldFrom = visit_Await = visit_Return

        def visit_Break(self, n):
            if self.d == 0:
                bad[0] = True

        def visit_For(self, n):
            self.d += 1
            self.generic_visit(n)
            self.d -= 1
        visit_While = visit_For
    v = V()
    for n in nodes:
        v.visit(n)
    return bad[0]


MUT = ("append", "extend", "update", "add", "insert", "pop", "setdefault", "remove", "clear", "write")


def mutations(nodes):
    """(names whose object is updated, other updates present)"""
    names, other = [], False
    for b in nodes:
        for n in ast.walk(b):
            tgt = None
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                tgt = n.value
            elif isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Name):
                tgt = n.target.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                tgt = n.func.value
            if tgt is None:
                continue
            if isinstance(tgt, ast.Name):
                if tgt.id not in names:
                    names.append(tgt.id)
            else:
                other = True
    return names, other


class ContinueToReturn(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For


class Instr(ast.NodeTransformer):
    def __init__(self, shadow):
        self.scope = []
        self.shadow = shadow
        self.n = 0
        self.stack = []      # ("f"/"c", globals set)

    def qual(self, name):
        return ".".join([s for s in self.scope] + [name])

    def skip_ann(self, node):
        return node

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(L("_vc_.num(%r)" % n.value) if n.value not in (float("inf"),) else n, n)
        if isinstance(n.value, complex):
            return ast.copy_location(L("_vc_.cnum(%r)" % n.value), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_arg(self, n):
        return n

    def visit_match_case(self, n):
        n.body = [self.visit(b) for b in n.body]
        if n.guard:
            n.guard = self.visit(n.guard)
        return n

    def visit_FunctionDef(self, n):
        q = self.qual(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        gl = set()
        for s in ast.walk(n):
            if isinstance(s, ast.Global):
                gl |= set(s.names)
        self.stack.append(("f", gl))
        self.scope.append(n.name)
        n.body = self.block(n.body)
        self.scope.pop()
        self.stack.pop()
        n.decorator_list.append(L("_vc_.hook(%r)" % q))
        return n

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.keywords = [self.visit(k) for k in n.keywords]
        self.stack.append(("c", set()))
        self.scope.append(n.name)
        n.body = self.block(n.body)
        self.scope.pop()
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.body = self.visit(n.body)
        return n

    def block(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_BinOp(self, n):
        n.left, n.right = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(L("_vc_.div"), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(L("_vc_.pow"), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(L("_vc_.mod_"), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Div, ast.Pow)):
            op = "/" if isinstance(n.op, ast.Div) else "**"
            call = ast.Call(L("_vc_.iop"), [ast.Constant(op), ast.Name(n.target.id, ast.Load()), n.value], [])
            return ast.copy_location(ast.Assign([ast.Name(n.target.id, ast.Store())], call), n)
        n.target = self.visit(n.target)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(L("_vc_.contains"), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in BUILTINS and n.func.id not in self.shadow:
            f = n.func.id
            self.generic_visit(n)
            n.func = L("_vc_.%s" % f)
            return n
        if isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypeVar", "NewType"):
            return n
        self.generic_visit(n)
        return n

    def visit_Subscript(self, n):
        n.value = self.visit(n.value)
        n.slice = self.visit(n.slice)
        return n

    def comp(self, n, kind):
        ok = len(n.generators) == 1 and not n.generators[0].is_async
        src = ast.dump(n)
        if "NamedExpr" in src or "'super'" in src or "Await" in src or "Yield" in src or (self.stack and self.stack[-1][0] == "c"):
            ok = False
        if not ok:
            gens = []
            for j, g in enumerate(n.generators):
                g.iter = ast.Call(L("_vc_.it"), [self.visit(g.iter)], [])
                g.ifs = [self.visit(i) for i in g.ifs]
            if kind == "dict":
                n.key, n.value = self.visit(n.key), self.visit(n.value)
            else:
                n.elt = self.visit(n.elt)
            return n
        g = n.generators[0]
        it = self.visit(g.iter)
        ifs = [self.visit(i) for i in g.ifs]
        if kind == "dict":
            n.key, n.value = self.visit(n.key), self.visit(n.value)
            elt = ast.Tuple([n.key, n.value], ast.Load())
        else:
            n.elt = self.visit(n.elt)
            elt = n.elt
        params = None
        if isinstance(g.target, ast.Name):
            params, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            params, star = [e.id for e in g.target.elts], True
        # a closure over the loop variable is bound late: leave it to native code
        late = False
        if params is not None:
            for m in ast.walk(elt):
                if isinstance(m, ast.Lambda):
                    own = {a.arg for a in m.args.args + m.args.kwonlyargs}
                    if any(isinstance(x, ast.Name) and x.id in params and x.id not in own for x in ast.walk(m.body)):
                        late = True
        import copy

        def mk(body):
            f = ast.Lambda(ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), copy.deepcopy(body))
            if star:
                return ast.Lambda(ast.arguments([], [ast.arg("_vc_e")], None, [], [], None, []),
                                  ast.Call(f, [ast.Starred(ast.Name("_vc_e", ast.Load()), ast.Load())], []))
            return f
        none = ast.Constant(None)
        ef = mk(elt) if params is not None and not late else none
        cf = none
        if ifs and params is not None:
            cf = mk(ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs))
        g2 = ast.comprehension(g.target, ast.Name("_vc_it", ast.Load()), ifs, 0)
        n.generators = [g2]
        nat = ast.Lambda(ast.arguments([], [ast.arg("_vc_it")], None, [], [], None, []), n)
        return ast.copy_location(ast.Call(L("_vc_.comp"), [ast.Constant(kind), it, nat, ef, cf], []), n)

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen")

    def visit_DictComp(self, n):
        return self.comp(n, "dict")

    def visit_For(self, n):
        import copy
        raw = copy.deepcopy(n)
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        n.body = self.block(n.body)
        n.orelse = [x for b in n.orelse for x in ([self.visit(b)] if not isinstance(self.visit(copy.deepcopy(b)), list) else self.visit(b))]
        muts, other = mutations(raw.body)
        stored = names_stored([raw])
        cls = self.stack and self.stack[-1][0] == "c"
        if escapes(raw.body) or other or n.orelse or cls or any(isinstance(m, (ast.FunctionDef, ast.ClassDef)) for b in raw.body for m in ast.walk(b)):
            n.iter = ast.Call(L("_vc_.it"), [n.iter], [])
            return n
        self.n += 1
        i = self.n
        names = list(dict.fromkeys(stored + muts))
        infn = any(k == "f" for k, _ in self.stack)
        gl = self.stack[-1][1] if self.stack else set()
        local = [x for x in names if x in stored and x not in gl]
        # names only mutated (not assigned in this scope) need no declaration
        kw = "nonlocal" if infn else "global"
        decl = (kw + " " + ", ".join(local)) if local else "pass"
        gdecl = ("global " + ", ".join(x for x in names if x in gl)) if any(x in gl for x in names) else "pass"
        mutonly = [x for x in muts if x not in stored]
        src = []
        src.append("_vc_it%d = None" % i)
        src.append("if _vc_.is_sym_iter(_vc_it%d):\n pass\nelse:\n pass" % i)
        tree = []
        tree.append(ast.Assign([ast.Name("_vc_it%d" % i, ast.Store())], n.iter))
        body_fn = ast.parse("def _vc_b%d(_vc_e):\n %s\n %s\n pass" % (i, decl, gdecl)).body[0]
        body_fn.body.append(ast.Assign([copy.deepcopy(n.target)], ast.Name("_vc_e", ast.Load())))
        body_fn.body += [ContinueToReturn().visit(copy.deepcopy(b)) for b in n.body]
        # mutated-only names must be rebindable too: they become cells through nonlocal
        decl2 = (kw + " " + ", ".join([x for x in names if x not in gl])) if [x for x in names if x not in gl] else "pass"
        body_fn.body[0] = ast.parse(decl2).body[0]
        get = "def _vc_g%d():\n %s\n _vc_d = {}\n" % (i, gdecl)
        for x in names:
            get += " try:\n  _vc_d[%r] = %s\n except NameError:\n  pass\n" % (x, x)
        get += " return _vc_d"
        put = "def _vc_p%d(_vc_d):\n %s\n %s\n pass\n" % (i, decl2, gdecl)
        for x in names:
            put += " if %r in _vc_d:\n  %s = _vc_d[%r]\n" % (x, x, x)
        fns = [body_fn, ast.parse(get).body[0], ast.parse(put).body[0]]
        call = ast.parse("_vc_.run_loop(_vc_it%d, _vc_b%d, _vc_g%d, _vc_p%d, %r, %r)" % (i, i, i, i, names, muts)).body[0]
        nat = ast.For(n.target, ast.Name("_vc_it%d" % i, ast.Load()), n.body, [], None)
        # make sure mutated-only names are local to the enclosing function
        if mutonly and infn:
            self_assign = [ast.parse("%s = %s" % (x, x)).body[0] for x in mutonly]
            if any(x in self.params_and_locals() for x in mutonly):
                pass
            missing = [x for x in mutonly if x not in self.params_and_locals()]
            if missing:
                n.iter = ast.Call(L("_vc_.it"), [n.iter], [])
                return n
        tree.append(ast.If(L("_vc_.is_sym_iter(_vc_it%d)" % i), fns + [call], [nat]))
        for t in tree:
            ast.copy_location(t, n)
            ast.fix_missing_locations(t)
        return tree

    def params_and_locals(self):
        return self.locals_stack[-1] if self.locals_stack else set()

    locals_stack = []

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_Assert(self, n):
        n.test = ast.Call(ast.Attribute(ast.Name("_vc_", ast.Load()), "asserted", ast.Load()), [self.visit(n.test)], [])
        return n

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body)
        n.handlers = [self.visit(h) for h in n.handlers]
        n.orelse = self.block(n.orelse) if n.orelse else []
        n.finalbody = self.block(n.finalbody) if n.finalbody else []
        return n

    def visit_ExceptHandler(self, n):
        n.body = self.block(n.body)
        return n

    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n


_orig_fd = Instr.visit_FunctionDef


def _visit_fd(self, n):
    loc = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs)
    if n.args.vararg:
        loc.add(n.args.vararg.arg)
    if n.args.kwarg:
        loc.add(n.args.kwarg.arg)
    loc |= set(names_stored(n.body))
    self.locals_stack = self.locals_stack + [loc]
    try:
        return _orig_fd(self, n)
    finally:
        self.locals_stack = self.locals_stack[:-1]


Instr.visit_FunctionDef = _visit_fd


def instrument(src, filename):
    tree = ast.parse(src, filename)
    top = set(names_stored(tree.body))
    ins = Instr(top)
    tree = ins.visit(tree)
    if tree.body:
        k = 0
        # keep `from __future__` first
        while k < len(tree.body) and (isinstance(tree.body[k], ast.ImportFrom) and tree.body[k].module == "__future__"
                                      or (isinstance(tree.body[k], ast.Expr) and isinstance(tree.body[k].value, ast.Constant))):
            k += 1
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


# imports -----------------------------------------------------------------------------

class CoreModule(types.ModuleType):
    """the compiled extension: every function is an uninterpreted elementwise
    function of its (numeric) arguments"""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = CORE_FNS.get(n)
        if v is None:
            v = core_fn(n)
        setattr(self, n, v)
        return v


CORE_FNS = {}


def core_fn(name):
    def f(*a, **k):
        a = list(a) + [v for _, v in sorted(k.items())]
        z = None
        tag = "core." + name
        elems = []
        for x in a:
            if isinstance(x, (SArr, list, tuple, _np.ndarray, SSeq)):
                x = SArr.of(x)
                z = x if z is None else SArr(SArr.bcast(z, x)[0], num(0), SArr.bcast(z, x)[3])
            elif isinstance(x, (str, bool)) or x is None:
                tag += ":%s" % x
        for x in a:
            if isinstance(x, (str, bool)) or x is None:
                continue
            if isinstance(x, (SArr, list, tuple, _np.ndarray, SSeq)):
                elems.append(vnp.numv(SArr.bcast(SArr.of(x), z)[1]).t)
            elif isinstance(x, SArr) or isnum(x):
                elems.append(lift_term(x))
            else:
                raise Unsupported("argument of %s" % name)
        v = SV(t_.app(tag, *[vnp.t_real(e) for e in elems]))
        return SArr(z.shape, v, z.filt) if z is not None else v
    f.__name__ = name
    return f


def vc_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top == "numpy":
            if name in ("numpy.typing",):
                return builtins.__import__(name, globals, locals, fromlist, level)
            if name == "numpy.polynomial.legendre":
                return builtins.__import__(name, globals, locals, fromlist, level)
            return vnp.np
        if top == "math":
            return vnp.math
        if top == "cmath":
            return vnp.cmath
        if top == "scipy":
            if not fromlist:
                return vnp.get_scipy("scipy")
            return vnp.get_scipy(name)
        if top == "functools":
            return FT
        if top in ("skimage", "matplotlib", "h5py"):
            return types.ModuleType(top) if top != "skimage" else SKI
    return builtins.__import__(name, globals, locals, fromlist, level)


class _FT(types.ModuleType):
    def __getattr__(self, n):
        return getattr(functools, n)

    @staticmethod
    def lru_cache(*a, **k):
        if len(a) == 1 and callable(a[0]):
            return a[0]
        return lambda f: f

    @staticmethod
    def cache(f):
        return f

    @staticmethod
    def partial(f, *a, **k):
        return functools.partial(f, *a, **k)


FT = _FT("functools")
SKI = types.ModuleType("skimage")
SKI.measure = types.ModuleType("skimage.measure")
SKI.measure.find_contours = lambda *a, **k: vnp.HOOKS["find_contours"](*a, **k)
SKI.find_contours = SKI.measure.find_contours


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path, pkg):
        super().__init__(name, path)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf8") as fh:
            src = fh.read()
        SOURCES[self.name] = self.path
        b = dict(vars(builtins))
        b["__import__"] = vc_import
        module.__dict__["__builtins__"] = b
        module.__dict__["_vc_"] = Rt(self.name)
        code = instrument(src, self.path)
        exec(code, module.__dict__)


SOURCES = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "hazma" and not name.startswith("hazma."):
            return None
        if name == "hazma._core" or name.startswith("hazma._core."):
            return importlib.machinery.ModuleSpec(name, CoreLoader(), is_package=True)
        rel = name.split(".")
        d = os.path.join(REPO, *rel)
        if os.path.isdir(d):
            f = os.path.join(d, "__init__.py")
            if not os.path.exists(f):
                return None
            spec = importlib.util.spec_from_file_location(name, f, loader=Loader(name, f, True), submodule_search_locations=[d])
            return spec
        if os.path.exists(d + ".pyx") and not os.path.exists(d + ".py"):
            return importlib.machinery.ModuleSpec(name, CoreLoader())
        f = d + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f, False))
        return None


class CoreLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return CoreModule(spec.name)

    def exec_module(self, m):
        pass


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
