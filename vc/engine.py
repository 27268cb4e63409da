"""Path exploration by re-execution.  A symbolic condition used as a Python
truth value is decided here; both outcomes are explored when both are
possible.  Nested explorations merge into if-then-else terms."""
import random
from . import terms as t_
from . import solver as S


class Unsupported(BaseException):
    """construct outside the verifier's reach"""


class Infeasible(BaseException):
    pass


class PathLimit(BaseException):
    pass


ELEM_FACTS = {}     # function symbol -> callable(term) -> list of facts
PAIR_FACTS = {}     # function symbol -> callable(t1, t2) -> list of facts


def instantiate(assumptions, *goals):
    """facts about the declared function symbols occurring in the goal"""
    out = []
    by = {}
    seen = set()
    for t in t_.subterms(*(list(goals) + list(assumptions))):
        if t.op == "app" and t.data in ELEM_FACTS:
            out.extend(ELEM_FACTS[t.data](t))
        if t.op == "app" and t.data in PAIR_FACTS:
            by.setdefault(t.data, []).append(t)
    for name, ts in by.items():
        ts = sorted(ts, key=lambda x: x.id)[:14]
        for a in ts:
            for b in ts:
                if a is not b:
                    out.extend(PAIR_FACTS[name](a, b))
    known = set(a.id for a in assumptions)
    # universal hypotheses, at the elements the goal is about
    alls = [a.args[0] for a in assumptions if a.op == "not" and a.args[0].op == "bind" and a.args[0].data == "any"]
    if alls:
        ids = {t.id: t for t in t_.subterms(*goals) if t.op == "var" and t.sort == t_.I and not str(t.data).startswith("β")}
        for b in alls:
            v, lo, hi, body = b.args[:4]
            for i in list(ids.values())[:6]:
                if t_.le(lo, i).id in known and t_.lt(i, hi).id in known:
                    f = t_.not_(t_.subst(body, {v: i}))
                    out.append(f)
    res = []
    for f in out:
        if f is not t_.TRUE and f.id not in known and f.id not in seen:
            seen.add(f.id)
            res.append(f)
    return res


class Frame:
    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.work = []
        self.decisions = []


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pc = []
        self.pcset = set()
        self.pool = []
        self.frames = []
        self.paths = 0
        self.sampler = None
        self.max_paths = 400
        self.log = []
        self.obligations = []
        self.active = False
        self.decide_timeout = 2500
        self.defined = None

    # assumptions --------------------------------------------------------------
    def assume(self, c):
        if c is t_.TRUE:
            return
        if c is t_.FALSE:
            raise Infeasible()
        for a in (c.args if c.op == "and" else (c,)):
            if a.id not in self.pcset:
                self.pc.append(a)
                self.pcset.add(a.id)
        self.pool = self.filter(self.pool, c)

    def filter(self, pool, c):
        out = []
        for e in pool:
            try:
                if S.evaluate(c, e):
                    out.append(e)
            except S.EvalError:
                out.append(e)
        return out

    def snapshot(self):
        return (list(self.pc), set(self.pcset), list(self.pool))

    def restore(self, s):
        self.pc, self.pcset, self.pool = list(s[0]), set(s[1]), list(s[2])

    def facts(self, *goals):
        return self.pc + instantiate(self.pc, *goals)

    def feasible(self, c):
        und = False
        for e in self.pool:
            try:
                if S.evaluate(c, e):
                    return True
            except S.EvalError:
                und = True
        if c.id in self.pcset:
            return True
        if t_.not_(c).id in self.pcset:
            return False
        A = self.facts(c)
        if S.settled(A, c) is False:
            return False
        r, m = S.check(S.relevant(A, c) + [c], self.decide_timeout if len(self.frames) < 2 else 500, want_model=True)
        if r == "unsat":
            return False
        if r == "sat" and m is not None:
            self.add_model(m, c)
        return True

    def settle(self, c):
        """truth value of a condition on this path if it is forced, or None"""
        if c is t_.TRUE or c is t_.FALSE:
            return c is t_.TRUE
        if not self.feasible(c):
            return False
        if not self.feasible(t_.not_(c)):
            return True
        return None

    def add_model(self, m, c):
        """complete a solver model to an environment for the pool"""
        if self.sampler is None:
            return
        for k in range(3):
            e = self.sampler(k)
            e.update(m)
            try:
                if all(S.evaluate(a, e) for a in self.pc) and S.evaluate(c, e):
                    self.pool.append(e)
                    return
            except S.EvalError:
                pass

    def constant(self, t):
        """the small number an integer must equal on this path, if any"""
        if t.op == "num":
            return int(t.data)
        vals = set()
        for e in self.pool[:6]:
            try:
                vals.add(S.evaluate(t, e))
            except S.EvalError:
                return None
        if len(vals) != 1 or len(self.pool) < 2:
            return None
        v = vals.pop()
        if not -1 <= v <= 8:
            return None
        ne = t_.not_(t_.eq(t, t_.num(int(v))))
        return None if self.feasible(ne) else int(v)

    def decide(self, c):
        if c is t_.TRUE:
            return True
        if c is t_.FALSE:
            return False
        if c.id in self.pcset:
            return True
        nc = t_.not_(c)
        if nc.id in self.pcset:
            return False
        if c.op in ("eq", "lt", "le") and S.ground(c):
            v = S.ground_truth(c)
            if v is not None:
                return v
            if c.op == "eq" and S.prove_eq([], c.args[0], c.args[1], [], timeout=500)[0]:
                return True
        if not self.frames:
            raise Unsupported("symbolic truth value outside an exploration: %s" % t_.show(c)[:120])
        f = self.frames[-1]
        forced = False
        if f.pos < len(f.prefix):
            val, forced = f.prefix[f.pos]
        else:
            known = self.known(c)
            a = self.feasible(c) if known is None else known
            b = self.feasible(nc) if known is None else not known
            if a and b:
                f.work.append(list(f.prefix) + [(False, False)])
                val = True
            elif a:
                val, forced = True, True
            elif b:
                val, forced = False, True
            else:
                raise Infeasible()
            f.prefix.append((val, forced))
        f.pos += 1
        cc = c if val else nc
        f.decisions.append(cc)
        if forced and S.t_size(cc) > 150:
            self.pcset.add(cc.id)       # implied: not worth repeating to the solvers
            return val
        self.assume(cc)
        return val

    def known(self, c):
        """truth value of a condition over binders that restates an assumption"""
        if not any(u.op == "bind" for u in t_.subterms(c)):
            return None
        pool = self.sampler and [self.sampler(k) for k in range(6)] or []
        core = c.args[0] if c.op == "not" else c
        for p in list(self.pc):
            q = p.args[0] if p.op == "not" else p
            if q.op != core.op or q.op not in ("bind", "lt", "le", "eq") or not any(u.op == "bind" for u in t_.subterms(q)):
                continue
            r = S.same_truth([a for a in self.pc if a is not p], p, c, pool)
            if r is not None:
                return r
        return None

    def choose(self, n, label=""):
        """demonic choice of an index < n, all explored"""
        for k in range(n - 1):
            v = t_.fresh("choice", t_.B)
            f = self.frames[-1]
            if f.pos < len(f.prefix):
                val = f.prefix[f.pos]
            else:
                f.work.append(list(f.prefix) + [False])
                val = True
                f.prefix.append(True)
            f.pos += 1
            if val:
                return k
        return n - 1

    # exploration ----------------------------------------------------------------
    def explore(self, fn, limit=None):
        """run fn on every feasible path; yields (conds, outcome, value) with
        outcome 'ok' or 'raise'"""
        limit = limit or self.max_paths
        base = self.snapshot()
        work = [[]]
        n = 0
        res = []
        while work:
            prefix = work.pop()
            n += 1
            if n > limit:
                raise PathLimit("more than %d paths" % limit)
            fr = Frame()
            fr.prefix = list(prefix)
            self.frames.append(fr)
            self.restore(base)
            try:
                try:
                    v = fn()
                    res.append((list(fr.decisions), "ok", v, list(self.pc)))
                except Infeasible:
                    pass
                except (Unsupported, PathLimit, S.EvalError, RecursionError, MemoryError):
                    raise
                except Exception as ex:
                    res.append((list(fr.decisions), "raise", ex, list(self.pc)))
            finally:
                self.frames.pop()
            work.extend(fr.work)
        self.restore(base)
        return res

    def merge(self, fn, limit=200):
        """value of a pure computation as a single (if-then-else) value"""
        from .sym import merge_values
        res = self.explore(fn, limit)
        if not res:
            raise Infeasible()
        bad = [r for r in res if r[1] == "raise"]
        good = [r for r in res if r[1] == "ok"]
        if bad:
            if not good:
                raise bad[0][2]
            for conds, _, ex, _ in bad:
                if self.decide(t_.and_(*conds)):
                    raise ex
        out = good[-1][2]
        for conds, _, v, _ in reversed(good[:-1]):
            out = merge_values(t_.and_(*conds), v, out)
        return out


ENG = Engine()
