"""Check of one property: prove every contract, replay what fails."""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def work(job):
    cid, seed, budget = job
    import io
    sys.stdout = io.StringIO()
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from . import api, prover
    try:
        return prover.run(api.CONTRACTS[cid], seed, budget)
    except BaseException as e:
        import traceback
        return {"id": cid, "obligations": [], "status": "error", "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-2000:],
                "wall": 0, "covered": [], "summarised": [], "paths": 0}


def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "open"]


def replay(prop, jobs, seed, limit):
    if not jobs:
        return {}
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
    chunks = [jobs[i::8] for i in range(8)]
    procs = []
    for c in chunks:
        if not c:
            continue
        p = subprocess.Popen([VENV, "-m", "vc.replay"], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        p.stdin.write(json.dumps({"props": [prop], "jobs": c, "seed": seed, "limit": limit}))
        p.stdin.close()
        procs.append(p)
    res = {}
    for p in procs:
        o = p.stdout.read()
        e = p.stderr.read()
        p.wait()
        try:
            res.update(json.loads(o))
        except ValueError:
            sys.stderr.write("replay process failed: %s\n" % (e[-1500:]))
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    ap.add_argument("--cross", type=int, default=0, help="run N random concrete inputs of every contract")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    from . import api, registry, loader
    registry.load([a.property])
    cons = [c for c in api.CONTRACTS.values() if a.property in c.props]
    if a.only:
        cons = [c for c in cons if any(o in c.id for o in a.only.split(","))]
    if not cons:
        print("no contract for %s" % a.property)
        return 2
    loader.install()
    mods = sorted({f.split(":")[0] for c in cons for f in c.fns if not f.startswith("rust/")})
    import importlib
    import io
    for m in mods:
        try:
            importlib.import_module(m)
        except Exception as e:
            sys.stderr.write("import %s: %s\n" % (m, e))
    budget = 240 if a.tier == "quick" else 600
    ctx = mp.get_context("fork")
    order = sorted(cons, key=lambda c: -c.opts.get("weight", 1))
    with ctx.Pool(min(8, len(cons)), maxtasksperchild=1) as pool:
        results = pool.map(work, [(c.id, seed, c.opts.get("budget", budget)) for c in order], chunksize=1)
    bad, total, disch = [], 0, 0
    backends = {}
    for r in results:
        for o in r["obligations"]:
            total += 1
            if o["ok"]:
                disch += 1
                backends[o["by"]] = backends.get(o["by"], 0) + 1
        failed = [o for o in r["obligations"] if not o["ok"]]
        if failed or r["status"] != "ok":
            bad.append(r)
        if a.v:
            print("%-40s %-11s paths %3d obligations %4d failed %3d  %.1fs" % (r["id"], r["status"], r["paths"], len(r["obligations"]), len(failed), r["wall"]))
            if r["status"] != "ok":
                print("   ", r.get("error"), "\n", r.get("trace", "")[-1800:])
            for o in failed[:4]:
                print("    FAILED %s: %s\n      goal %s\n      path %s" % (o["clause"], o["why"], o["goal"], o["path"]), o.get("trace", ""))
    jobs = []
    nr = 40 if a.tier == "quick" else 200
    for r in bad:
        seeds, seen = [], set()
        for o in r["obligations"]:
            if not o["ok"]:
                for e in o.get("seeds", [])[:4]:
                    e = dict(e)
                    for k, v in o.get("choices", {}).items():
                        e["?" + k] = v
                    key = json.dumps(e, sort_keys=True, default=str)
                    if key not in seen and len(seeds) < 24:
                        seen.add(key)
                        seeds.append(e)
        jobs.append([r["id"], seeds, nr])
    cross = []
    if a.cross or a.tier == "thorough":
        ids = {j[0] for j in jobs}
        cross = [[c.id, [], a.cross or 25] for c in cons if c.id not in ids]
    rep = {} if a.no_replay else replay(a.property, jobs + cross, seed, 40 if a.tier == "quick" else 120)
    kf = known(a.property)
    viol, found = [], []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    crossfail = []
    for c in cross:
        f = rep.get(c[0], {}).get("failure")
        if f:
            crossfail.append((c[0], f))
    for r in bad:
        f = rep.get(r["id"], {}).get("failure")
        failed = [o for o in r["obligations"] if not o["ok"]]
        clauses = sorted({o["clause"] for o in failed}) or [r["status"] + ": " + str(r.get("error"))]
        k = [x for x in kf if x["contract"] == r["id"] and r["status"] == "ok" and all(any(cl.startswith(y) for y in x["clauses"]) for cl in clauses)]
        if k:
            found.append((k[0], r))
            continue
        path = os.path.join(HERE, "replays", "%s-%s.json" % (a.property, r["id"]))
        con = api.CONTRACTS[r["id"]]
        json.dump({"property": a.property, "contract": r["id"], "functions": con.fns, "status": r["status"], "error": r.get("error"),
                   "failed_obligations": [{k: o.get(k) for k in ("clause", "why", "goal", "path", "choices", "trace")} for o in failed],
                   "failing_input": f, "trace": r.get("trace"),
                   "how_to_replay": "VERIF: cd /verif && python3-vt -m vc.run %s --only %s -v" % (a.property, r["id"])},
                  open(path, "w"), indent=1, default=str)
        viol.append((path, f, r["id"], clauses))
    for x, r in found:
        print("KNOWN-FINDING: property=%s %s" % (a.property, x["what"]))
    for path, f, cid, clauses in viol:
        print("obligation failed: %s / %s" % (cid, "; ".join(clauses)[:300]))
        if f:
            print("  failing input: %s -> %s: %s" % (str(f.get("input"))[:300], f["clause"], f["detail"][:300]))
        print("VIOLATION property=%s replay=%s%s" % (a.property, path, "" if f else " no-failing-input-found"))
    for cid, f in crossfail:
        print("cross-check disagreement (proved contract fails concretely): %s %s" % (cid, json.dumps(f, default=str)[:800]))
        path = os.path.join(HERE, "replays", "%s-%s.json" % (a.property, cid))
        json.dump({"property": a.property, "contract": cid, "failing_input": f}, open(path, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    st = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    fn_u = sorted({f for c in cons for f in c.fns})
    cov = sorted({f for r in results for f in r["covered"]})
    summ = sorted({f for r in results for f in r["summarised"]})
    ev = {
        "property": a.property, "tier": a.tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "obligations": total, "discharged": disch,
            "checker_cmd": "python3-vt -m vc.run %s --tier %s" % (a.property, a.tier),
            "trusted_base": TRUSTED,
            "contracts": {r["id"]: {"obligations": len(r["obligations"]), "discharged": sum(o["ok"] for o in r["obligations"]), "paths": r["paths"],
                                     "witnessed_paths": r.get("witnessed_paths"), "status": r["status"], "wall_s": r["wall"]} for r in results},
            "functions_under_contract": fn_u,
            "functions_executed_symbolically": cov,
            "callees_replaced_by_contract": summ,
            "discharged_by": backends,
            "solver": {k: round(v, 2) for k, v in st.items()},
            "cross_checked_concretely": {k: v.get("tried") for k, v in rep.items()} if cross else {},
        },
        "assumptions": ASSUME + [x for c in cons for x in c.opts.get("assumes", [])],
        "violations": len(viol) + len(crossfail),
        "known_findings": [x["what"] for x, _ in found],
    }
    ev["assumptions"] = list(dict.fromkeys(ev["assumptions"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    print("%s: %d contracts, %d/%d obligations discharged, %d known findings, %d violations, %.1fs" % (
        a.property, len(cons), disch, total, len(found), len(viol) + len(crossfail), time.time() - t0))
    return 1 if viol or crossfail else 0


TRUSTED = [
    "the verifier in /verif/vc: source instrumentation, symbolic values and numpy model, normal form, path exploration",
    "z3 and cvc5", "the Python interpreter executing the instrumented source",
]
ASSUME = [
    "floating-point arithmetic is read as exact real arithmetic; decimal literals are taken exactly",
    "divisions, logarithms and square roots are taken as total functions; definedness is proved only where a clause says so",
    "numpy, scipy and math functions are trusted to compute what they document (integrate.quad is the exact integral; interpolants are arbitrary functions of their table)",
    "pseudo-random draws are arbitrary numbers strictly between 0 and 1, the same for the same seed",
    "functions of the compiled extension hazma._core are arbitrary (uninterpreted) functions of their numeric arguments",
]

if __name__ == "__main__":
    sys.exit(main())
