"""Concrete mode: run contracts against the real, uninstrumented code of /repo.
The compiled extension is not available here; its functions are replaced by
fixed smooth stand-ins (the contracts treat them as arbitrary functions)."""
import importlib
import importlib.machinery
import json
import math
import os
import random
import signal
import sys
import traceback
import types
import warnings

REPO = os.environ.get("VC_REPO", "/repo")


def core_value(name, *a):
    from .api import hval
    return hval("core." + name, a)


class CoreFn:
    """stand-in of a compiled function (or of a compiled submodule: its attributes are functions)"""

    def __init__(self, name):
        self.__name__ = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = CoreFn(n)
        setattr(self, n, v)
        return v

    def __call__(self, *a, **k):
        import numpy as np
        a = list(a) + [v for _, v in sorted(k.items())]
        tag = self.__name__ + "".join(":%s" % x for x in a if isinstance(x, (str, bool)) or x is None)
        a = [x for x in a if not (isinstance(x, (str, bool)) or x is None)]

        def value(tag):
            if any(np.ndim(x) for x in a):
                return np.vectorize(lambda *q: core_value(tag, *q), otypes=[float])(*a)
            return core_value(tag, *a)
        if tag.startswith("dnde_neutrino"):     # one row per flavor
            return np.array([value("%s.%d" % (tag, i)) for i in range(3)])
        return value(tag)


core_fn = CoreFn


class Core(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = core_fn(n)
        setattr(self, n, v)
        return v


class Finder:
    def find_spec(self, name, path, target=None):
        if name == "hazma._core" or name.startswith("hazma._core."):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        if name.startswith("hazma."):
            d = os.path.join(REPO, *name.split("."))
            if os.path.exists(d + ".pyx") and not os.path.exists(d + ".py"):
                return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return Core(spec.name)

    def exec_module(self, m):
        pass


def install():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    rng = np.random.default_rng
    # unseeded generators are seeded, so that two runs can be compared
    np.random.default_rng = lambda seed=None: rng(7 if seed is None else seed)


class TO(Exception):
    pass


def one(con, env, seed):
    """None if fine, else failure record"""
    from . import api
    r = random.Random("%s-%s" % (con.id, seed))
    C = api.Concrete()
    C.env = dict(env)
    C.rng = r
    C.contract = con
    P = api.Args()
    for n, d in con.params.items():
        P[n] = d.make_conc(n, env, r)
        if isinstance(d, (api.Int,)):
            env.setdefault(n, P[n])
            C.env.setdefault(n, P[n])
    if con.requires is not None:
        rq = con.requires(P)
        import numpy as np
        if not all(bool(np.all(c)) for c in (rq if isinstance(rq, (list, tuple)) else [rq])):
            return "skip"
    import numpy as np
    for n, d in con.params.items():
        w = getattr(d, "where", None)
        if w is not None and isinstance(P[n], np.ndarray) and not all(bool(w(float(x), P)) for x in P[n].ravel()):
            return "skip"
    show = {n: (v.tolist() if isinstance(v, np.ndarray) else v if isinstance(v, (int, float, str, bool, list, tuple, type(None))) else getattr(v, "__name__", str(v))) for n, v in P.items()}
    C.undo = []

    def h(*a):
        raise TO()
    signal.signal(signal.SIGALRM, h)
    signal.alarm(int(con.opts.get("replay_time", 20)))
    try:
        try:
            cp = con.opts.get("concrete")
            (cp or con.body)(C, P)
            if C.n == 0:
                return "skip"
            return None
        except api.Skip:
            return "skip"
        except TO:
            return "skip"
        except api.Failure as f:
            return {"clause": f.clause, "detail": f.detail, "input": show, "choices": C.choices}
        except (ImportError, NameError) as e:
            fr = traceback.extract_tb(e.__traceback__)[-1].filename
            if not fr.startswith(REPO):
                sys.stderr.write("contract %s: %s\n" % (con.id, e))
                return "skip"
            return {"clause": "no exception (%s)" % type(e).__name__, "detail": str(e)[:300], "input": show, "choices": C.choices}
        except Exception as e:
            return {"clause": "no exception (%s)" % type(e).__name__, "detail": "%s: %s" % (type(e).__name__, str(e)[:300]), "input": show,
                    "choices": C.choices, "trace": traceback.format_exc()[-2500:]}
    finally:
        signal.alarm(0)
        api.unpatch(C.undo)


def search(con, envs, n_random, seed=1, limit_s=60):
    import time
    t0 = time.time()
    tried = 0
    for j, e in enumerate(envs):
        f = one(con, dict(e), "seed%d" % j)
        tried += f != "skip"
        if f not in (None, "skip"):
            f["env"] = e
            f["seed"] = "seed%d" % j
            return f, tried
        if time.time() - t0 > limit_s:
            return None, tried
    k = 0
    while k < n_random * 6 and tried < n_random + len(envs):
        e = {"__seed__": k}
        f = one(con, e, "r%d-%d" % (seed, k))
        tried += f != "skip"
        if f not in (None, "skip"):
            f["env"] = {"__seed__": k}
            f["seed"] = "r%d-%d" % (seed, k)
            return f, tried
        k += 1
        if time.time() - t0 > limit_s:
            break
    return None, tried


def main():
    """stdin: {"jobs": [[contract id, envs, n]], "seed":}; stdout: json"""
    os.dup2(2, 1) if False else None
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    req = json.load(sys.stdin)
    install()
    from . import api
    api.MODE[0] = "concrete"
    from . import registry
    registry.load(req["props"])
    res = {}
    for cid, envs, n in req["jobs"]:
        con = api.CONTRACTS[cid]
        try:
            f, tried = search(con, envs, n, req.get("seed", 1), req.get("limit", 60))
        except Exception as e:
            f, tried = None, -1
            sys.stderr.write("replay of %s: %s\n" % (cid, traceback.format_exc()[-1500:]))
        res[cid] = {"failure": f, "tried": tried}
    json.dump(res, out, default=str)
    out.flush()


if __name__ == "__main__":
    main()
