#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the current tree of /repo.

Runs every harness of harness/<PROPERTY>.py symbolically, replays every
candidate counterexample on the real code, rewrites evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  1: VIOLATION.  2: no answer."""
import argparse
import fnmatch
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
PROJ = "/opt/venv/bin/python"
if __name__ == "__main__" and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.setrecursionlimit(20000)


def jobs_of(prop, tier):
    from symx import api
    path = os.path.join(HERE, "harness", prop + ".py")
    spec = importlib.util.spec_from_file_location("h_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out = []
    for n, f in list(vars(m).items()):
        h = getattr(f, "_h", None)
        if h is None:
            continue
        if h.get("tier") == "thorough" and tier != "thorough":
            continue
        cases = h.get("cases", [None])
        if tier == "thorough":
            cases = list(cases) + [c for c in h.get("thorough", []) if c not in cases]
        for c in cases:
            out.append(api.Job(path, n, c, h))
    return out, getattr(m, "META", {})


def work(a):
    job, tier, seed, deadline = a
    from symx import api
    import signal
    try:
        sys.setrecursionlimit(20000)
        return api.explore(job, tier, seed, deadline)
    except BaseException as ex:
        import traceback
        traceback.print_exc()
        return dict(label=job.label, func=job.func, case=job.case, crash="%s: %s" % (type(ex).__name__, ex))


def _child(a, conn):
    try:
        conn.send(work(a))
    except BaseException as ex:
        conn.send(dict(label=a[0].label, func=a[0].func, case=a[0].case, crash=str(ex)))
    conn.close()


def run_jobs(jobs, tier, seed, total_s, nproc):
    """each job in its own process, with a hard time limit"""
    ctx = mp.get_context("fork")
    from multiprocessing.connection import wait
    end = time.time() + total_s
    todo = sorted(range(len(jobs)), key=lambda i: -jobs[i].opts.get("weight", 1))
    res = [None] * len(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop(0)
            j = jobs[i]
            lim = j.opts.get("seconds", 150) * (4 if tier == "thorough" else 1)
            dl = min(end, time.time() + lim)
            # coincidences may use a fair share of what is left
            j.opts["thin_s"] = 0.8 * max(0, end - time.time()) * nproc / (len(todo) + len(live) + 1)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=((j, tier, seed, dl), w))
            p.start()
            w.close()
            live[r] = (i, p, dl + 45)
        for r in wait(list(live), 1.0):
            i, p, _ = live.pop(r)
            try:
                res[i] = r.recv()
            except EOFError:
                res[i] = dict(label=jobs[i].label, func=jobs[i].func, case=jobs[i].case, crash="the process died")
            p.join()
        for r in list(live):
            i, p, lim = live[r]
            if time.time() > lim:
                p.kill()
                p.join()
                del live[r]
                res[i] = dict(label=jobs[i].label, func=jobs[i].func, case=jobs[i].case, crash="time limit")
    return res


def concrete(reqs, warm=None):
    if not reqs:
        return []
    d = tempfile.mkdtemp(prefix="chk_", dir="/tmp")
    try:
        a, b = os.path.join(d, "req.json"), os.path.join(d, "res.json")
        json.dump(reqs, open(a, "w"))
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        if warm is not None:
            env["VERIF_WARM"] = warm
        p = subprocess.run([PROJ, os.path.join(HERE, "symx", "conc.py"), a, b], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=500)
        try:
            return json.load(open(b))
        except (OSError, ValueError):
            sys.stderr.write(p.stderr[-3000:])
            return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == prop:
                    out.append(k)
    return out


def match(k, f):
    if not fnmatch.fnmatchcase(f["func"], k["harness"]) or k["claim"] != f["claim"]:
        return False
    if "case" in k and k["case"] != f["case"]:
        return False
    if "choices" in k and any(f["choices"].get(a) != b for a, b in k["choices"].items()):
        return False
    return "detail" not in k or k["detail"] in f["detail"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = a.prop, a.tier
    jobs, meta = jobs_of(prop, tier)
    if a.only:
        jobs = [j for j in jobs if fnmatch.fnmatch(j.label, a.only) or fnmatch.fnmatch(j.func, a.only)]
    for j in jobs:
        j.opts["keep_on"] = bool(known(prop))
    total = meta.get("seconds", 420 if tier == "quick" else 780)
    res = run_jobs(jobs, tier, seed, total, int(os.environ.get("VERIF_PROCS", "8")))

    # ---- replay candidates
    cands = [f for r in res for f in r.get("findings", [])]
    by = {}
    for f in cands:
        by.setdefault((f["func"], str(f["case"]), f["claim"], json.dumps(f["choices"], sort_keys=True)), []).append(f)
    ks = known(prop)
    listed = lambda f: any(match(k, f) for k in ks)
    pick = ([f for fs in by.values() for f in fs[:2] if not listed(f)][:60]
            + [f for fs in by.values() for f in fs[:1] if listed(f)][:40])
    reqs = [dict(path=f["path"], func=f["func"], case=f["case"], values=f["values"], choices=f["choices"], tier=tier)
            for f in pick]
    wit = []
    for j, r in zip(jobs, res):
        for w in r.get("witnesses", []):
            wit.append((j, w))
    if a.only is None or True:
        reqs += [dict(path=j.path, func=j.func, case=j.case, values=w["values"], choices=w["choices"], tier=tier)
                 for j, w in wit]
    out = concrete(reqs, meta.get("warm"))
    errors = []
    if out is None:
        errors.append("the replay process failed")
        out = [dict(status="died", failures=[], passed=0, observed=[])] * len(reqs)
    violations, knowns = [], {}

    def confirmed(f):
        for k in ks:
            if match(k, f):
                knowns.setdefault(json.dumps(k, sort_keys=True), (k, f))
                return
        violations.append(f)
    for f, o in zip(pick, out[:len(pick)]):
        if not o["failures"]:
            if o["status"] in ("ok", "assume"):
                f["replay"] = o
            errors.append("counterexample of %s %s claim %r did not reproduce (%s): %s %s" % (
                f["func"], f["case"], f["claim"], o["status"], f["detail"], f["values"]))
            continue
        names = [x[0] for x in o["failures"]]
        f["replayed"] = o["failures"][:6]
        if f["claim"] in names:
            confirmed(f)
        else:
            for nm in names[:1]:
                g = dict(f, claim=nm, detail=o["failures"][0][1])
                confirmed(g)
    validated, disagree, nobs = 0, [], 0
    for (j, w), o in zip(wit, out[len(pick):]):
        if o["failures"]:
            f = dict(func=j.func, case=j.case, path=j.path, values=w["values"], choices=w["choices"],
                     claim=o["failures"][0][0], detail=o["failures"][0][1], how="witness run", replayed=o["failures"][:6])
            for nm, dt in o["failures"]:
                g = dict(f, claim=nm, detail=dt)
                if not any(match(k, g) for k in ks):
                    violations.append(g)
                    break
                confirmed(g)
            else:
                o = dict(o, failures=[])
            if o["failures"]:
                continue
        if o["status"] != "ok":
            if o["status"] in ("died", "timeout"):
                errors.append("witness run of %s %s: %s" % (j.func, j.case, o["status"]))
            continue
        ok = True
        cobs = {}
        for n, row in o["observed"]:
            cobs.setdefault(n, []).append(row)
        for n, row in w["observed"]:
            if not cobs.get(n):
                ok = False
                disagree.append("%s: claim %r is not reached concretely" % (j.label, n))
                continue
            r2 = cobs[n].pop(0)
            big = max([abs(x) for x in row if x is not None] + [0.0])
            for x, y in zip(row, r2):
                if x is None or y is None:
                    continue
                nobs += 1
                if abs(x - y) > 1e-5 * max(abs(x), abs(y)) + 1e-7 * big + 1e-12:
                    ok = False
                    disagree.append("%s: %r is %.9g in the encoding, %.9g in the real run, at %s" % (
                        j.label, n, x, y, w["values"]))
                    break
        validated += ok
    if disagree:
        errors.append("encoding and real code disagree: %s" % "; ".join(disagree[:4]))
    for r in res:
        if r.get("crash"):
            errors.append("%s: %s" % (r["label"], r["crash"]))
        for u in r.get("unsupported", [])[:4]:
            errors.append("%s: no answer: %s" % (r["label"], u))
    # jobs with an unfinished answer: is a listed finding the reason?
    tot = lambda k: sum(r.get(k, 0) for r in res)
    if not a.only and not jobs:
        errors.append("no harness")

    files = sorted({f for r in res for f in r.get("files", []) if "/hyperstatic/" in f})
    kern = sorted({f for r in res for f in r.get("kernels", [])})
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "model_checking"),
              coverage=dict(
                  states=tot("paths") + tot("forks"), transitions=tot("obligations"),
                  traces_validated_against_impl=validated,
                  samples=[dict(harness=j.label, **{k: w[k] for k in ("values", "choices")}) for j, w in wit[:4]],
                  obligations=tot("obligations"), discharged=tot("discharged"),
                  harnesses=[dict(harness=r["label"], paths=r.get("paths"), obligations=r.get("obligations"),
                                  discharged=r.get("discharged"), queries=r.get("queries"), cuts=r.get("cuts"),
                                  infeasible_paths=r.get("ended"), solver_s=round(r.get("solver_s", 0), 2),
                                  wall_s=round(r.get("wall", 0), 2)) for r in res],
                  paths=tot("paths"), solver_queries=tot("queries"), solver_seconds=round(tot("solver_s"), 2),
                  equality_cuts=tot("cuts"), observed_values_compared=nobs,
                  encoded_files=files, encoded_kernels=kern, encoded_functions=meta.get("functions", []),
                  bounds=meta.get("bounds", ""), outside=meta.get("outside", ""),
                  explanation=("states: symbolic paths explored and branch points forked; transitions: assertions decided "
                               "by the solver for all values on a path; traces_validated_against_impl: concrete runs of "
                               "the real code whose observed values equal those of the encoding")),
              assumptions=meta.get("assumptions", []) + STD_ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    for k, f in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r in sorted(res, key=lambda r: r["label"]) if a.v else []:
        print("  %-44s paths %4d  obl %6d/%-6d  q %5d  solver %6.2fs  wall %6.2fs  cuts %d" % (
            r["label"][:44], r.get("paths", 0), r.get("discharged", 0), r.get("obligations", 0), r.get("queries", 0),
            r.get("solver_s", 0), r.get("wall", 0), r.get("cuts", 0)))
    print("%s %s: %d harness runs, %d paths, %d/%d assertions discharged, %d queries, %.1fs solver, %d traces validated, %.1fs"
          % (prop, tier, len(res), tot("paths"), tot("discharged"), tot("obligations"), tot("queries"), tot("solver_s"),
             validated, time.time() - t0))
    if violations:
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        seen, first = set(), []
        for f in violations:
            if (f["func"], f["claim"]) not in seen:
                seen.add((f["func"], f["claim"]))
                first.append(f)
        for n, f in enumerate(first[:10]):
            p = os.path.join(rd, "%s_%d.json" % (prop, n))
            json.dump(dict(f, property=prop, run="%s %s %s" % (PROJ, os.path.join(HERE, "symx", "conc.py"), "REQ RES")),
                      open(p, "w"), indent=1)
            print("  %s %s: %s: %s" % (f["func"], f["case"] if f["case"] is not None else "", f["claim"], f["detail"]))
            print(("    inputs %s %s" % (f["choices"], f["values"]))[:600])
            print("    real code: %s" % (f.get("replayed", [])[:2],))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors[:12]:
            print("NO-ANSWER: " + e[:600])
        return 2
    return 0


STD_ASSUME = [
    "machine floats are exact reals in the encoding: rounding, overflow and cancellation are outside the claim",
    "numpy, scipy.sparse and the file system are replaced by stand-ins that follow their documented behaviour "
    "(sparse direct solve: any x with A x = b; eigsh: any pairs with K v = w M v)",
    "dimensions, topologies and option combinations are the bounded set listed under bounds",
]

if __name__ == "__main__":
    sys.exit(main())
