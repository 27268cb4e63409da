"""Symbolic verification of one contract: explore every path of the contract
body over the instrumented code, collect the obligations, discharge them."""
import random
import signal
import sys
import time
import traceback
from . import terms as T
from . import solver as S
from . import api, loader, vnp
from .engine import ENG, Unsupported, Infeasible, PathLimit
from .sym import SV, SB, SArr, bterm

sys.setrecursionlimit(20000)


class Timeout(BaseException):
    pass


def alarm(sec):
    def h(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)


def mk_sampler(con, seed):
    def sampler(k):
        r = random.Random("%s/%s/%s" % (con.id, seed, k))
        env = {"<inf>": float("inf"), "<-inf>": float("-inf")}
        for n, d in con.params.items():
            if hasattr(d, "sample_env"):
                d.sample_env(n, r, env)
        return env
    return sampler


def build_args(con, C):
    P = api.Args()
    for n, d in con.params.items():
        C.P = P
        v = d.make_sym(n, P)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "choice":
            k = ENG.choose(len(v[1].options))
            C.choices[n] = k
            v = v[1].options[k]
            if isinstance(v, float):
                v = SV(T.num(v))
        elif isinstance(v, tuple) and len(v) == 2 and v[0] == "either":
            k = ENG.choose(len(v[1]))
            C.choices[n] = k
            v = v[1][k]
        P[n] = v
    return P


def run(con, seed=1, budget=240):
    """result dictionary"""
    t0 = time.time()
    loader.install()
    ENG.reset()
    T.reset_fresh()
    vnp._draws[0] = 0
    ENG.max_paths = con.opts.get("max_paths", 400)
    loader.SUMMARIES.clear()
    loader.COVERED.clear()
    loader.SUMMARISED.clear()
    vnp.HOOKS.clear()
    for k, f in con.opts["uses"].items():
        loader.SUMMARIES[k] = f
    for k, f in con.opts.get("hooks", {}).items():
        vnp.HOOKS[k] = f
    sampler = mk_sampler(con, seed)
    ENG.sampler = sampler
    obs = []
    paths = [0]
    errs = []
    out = {"id": con.id, "obligations": [], "status": "ok", "paths": 0, "wall": 0}
    witnesses = 0
    try:
        alarm(budget)
        # initial pool
        pool = []
        for k in range(con.opts.get("samples", 40)):
            pool.append(sampler(k))

        def once():
            C = api.Symbolic()
            C.contract = con
            ENG.pool = [dict(e) for e in pool]
            P = build_args(con, C)
            if con.requires is not None:
                rq = con.requires(P)
                for c in (rq if isinstance(rq, (list, tuple)) else [rq]):
                    ENG.assume(bterm(c))
            C.P = P
            last[0] = C
            try:
                con.body(C, P)
            finally:
                api.unpatch(C.undo)
            return C
        last = [None]
        paths = explore_obs(once, last, con)
        out["paths"] = len(paths)
        done = {}
        for conds, kind, C, pc, pl in paths:
            if kind == "raise":
                ex = C[1]
                C0 = C[0]
                tb = "".join(traceback.format_exception(ex)[-4:])
                obs.append(("no exception (%s: %s)" % (type(ex).__name__, str(ex)[:120]), T.FALSE, pc, pl, C0.choices if C0 else {}, tb))
            for o in (C.obs if kind == "ok" else []):
                obs.append(o + (None,))
            if pl:
                witnesses += 1
        out["witnessed_paths"] = witnesses
        # a path exists whose assumptions are satisfied by an explicit input
        for j, (clause, goal, pc, pl, choices, tb) in enumerate(obs):
            t1 = time.time()
            key = (goal.id, tuple(c.id for c in pc))
            if key in done:
                out["obligations"].append(dict(done[key], clause=clause, time=0))
                continue
            if sum(not o["ok"] for o in out["obligations"]) >= 4:
                out["obligations"].append({"clause": clause, "ok": False, "by": None, "time": 0, "why": "not attempted after four failures", "choices": choices,
                                           "seeds": [], "goal": "", "path": []})
                continue
            A = pc + inst(pc, goal)
            pl2 = S.pool_filter(pl, pc) if pl else pl
            pl2 = ENG.filter(pl2, T.and_(*A[len(pc):])) if pl2 and len(A) > len(pc) else pl2
            if goal is T.FALSE:
                r = S.check(S.relevant(A, T.and_(*pc[-6:])) if False else A, 6000)
                ok, how = (r == "unsat"), ("z3" if r == "unsat" else "failed")
            else:
                ok, how = S.prove_goal(A, goal, pl2, timeout=con.opts.get("timeout", 8000))
            rec = {"clause": clause, "ok": ok, "by": how if ok else None, "time": round(time.time() - t1, 3)}
            if ok:
                done[key] = rec
            if not ok:
                rec["why"] = how
                rec["choices"] = choices
                rec["seeds"] = seeds(pc, goal, pl2, A)
                rec["goal"] = T.show(goal)[:600]
                rec["path"] = [T.show(c)[:160] for c in pc[-8:]]
                if tb:
                    rec["trace"] = tb[-2500:]
            out["obligations"].append(rec)
    except Timeout:
        out["status"] = "timeout"
        out["error"] = "time budget of %d s exhausted" % budget
    except (Unsupported, PathLimit) as e:
        out["status"] = "unsupported"
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-3000:]
    except Infeasible:
        out["status"] = "vacuous"
        out["error"] = "preconditions unsatisfiable"
    except Exception as e:
        out["status"] = "error"
        out["error"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if out["status"] == "ok":
        if not out["obligations"]:
            out["status"] = "vacuous"
            out["error"] = "no obligation generated"
        elif not witnesses and not con.opts.get("nowitness"):
            out["status"] = "vacuous"
            out["error"] = "no sampled input satisfies the precondition on any path"
    out["covered"] = sorted(loader.COVERED)
    out["summarised"] = sorted(loader.SUMMARISED)
    out["wall"] = round(time.time() - t0, 2)
    out["stats"] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in S.STATS.items()}
    return out


def inst(pc, goal):
    from .engine import instantiate
    return instantiate(pc, goal)


def explore_obs(once, last, con):
    """like Engine.explore but keeps the pool and the partial clause list"""
    from .engine import Frame
    base = ENG.snapshot()
    work = [[]]
    res = []
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > ENG.max_paths:
            raise PathLimit("more than %d paths" % ENG.max_paths)
        fr = Frame()
        fr.prefix = list(prefix)
        ENG.frames = [fr]
        ENG.restore(base)
        last[0] = None
        vnp._draws[0] = 0
        T.reset_fresh()
        try:
            try:
                C = once()
                res.append((list(fr.decisions), "ok", C, list(ENG.pc), list(ENG.pool)))
            except Infeasible:
                if last[0] is not None and last[0].obs:
                    pass
            except Exception as ex:
                res.append((list(fr.decisions), "raise", (last[0], ex), list(ENG.pc), list(ENG.pool)))
        finally:
            ENG.frames = []
        work.extend(fr.work)
    return res


def seeds(pc, goal, pool, A):
    out = []
    neg = T.not_(goal)
    for e in pool or []:
        try:
            if goal is T.FALSE or not S.evaluate(goal, e):
                out.append(e)
        except S.EvalError:
            out.append(e)
        if len(out) >= 6:
            break
    try:
        r, m = S.check(S.relevant(A, neg) + [neg], 4000, want_model=True)
        if m:
            out.append(m)
    except Exception:
        pass
    res = []
    for e in out:
        res.append({k: (float(v) if isinstance(v, float) else v) for k, v in e.items() if not k.startswith("ι") and isinstance(v, (int, float, bool))})
    return res
