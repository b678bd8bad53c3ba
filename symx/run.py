"""Runner of one property's check: explore, replay, report, write evidence.

usage: python -m symx.run <PROPERTY> [quick|thorough]
       python -m symx.run replay <file>
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SYMX_PYTHON", "/opt/venv/bin/python")


def child_env(base):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("EARTHKIT_REGRID_"):
            del env[k]
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = HERE
    env["HOME"] = os.path.join(base, "home")
    env["TMPDIR"] = os.path.join(base, "tmp")
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    os.makedirs(env["HOME"], exist_ok=True)
    os.makedirs(env["TMPDIR"], exist_ok=True)
    return env


def spawn(mode, pid, spec, out, base, timeout, stop=None):
    os.makedirs(base, exist_ok=True)
    log = out + ".log"
    with open(log, "w") as lf:
        p = subprocess.Popen(
            [PY, "-m", "symx.worker", mode, pid, spec, out, base],
            cwd=HERE,
            env=child_env(base),
            stdout=lf,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        end = time.time() + timeout
        while True:
            try:
                p.wait(0.25 if stop is not None else timeout)
                break
            except subprocess.TimeoutExpired:
                stopped = stop is not None and stop.is_set()
                if not stopped and time.time() < end:
                    continue
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                if stopped:
                    return {"status": "stopped", "error": "a violation was confirmed meanwhile"}
                return {"status": "timeout", "error": "worker exceeded %ds" % timeout}
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        with open(log) as f:
            return {"status": "error", "error": "worker died: " + f.read()[-3000:]}


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def main():
    if sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        base = tempfile.mkdtemp(prefix="symx-replay-")
        try:
            out = os.path.join(base, "out.json")
            r = spawn("replay", rec["property"], os.path.abspath(sys.argv[2]), out, os.path.join(base, "w"), 300)
            print(json.dumps(r, indent=1))
            sys.exit(1 if r.get("reproduced") else 0)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    h = importlib.import_module("harness." + pid.lower())
    jobs = h.jobs(tier)
    only = os.environ.get("SYMX_ONLY")
    if only:
        jobs = [j for j in jobs if j["h"] in only.split(",")]
    total_budget = float(os.environ.get("SYMX_BUDGET", "700" if tier == "quick" else "7000"))
    base = tempfile.mkdtemp(prefix="symx-%s-" % pid)
    try:
        code = go(pid, tier, seed, t0, h, jobs, total_budget, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(code)


def go(pid, tier, seed, t0, h, jobs, total_budget, base):
    stop = threading.Event()
    live = []

    def one(i):
        left = total_budget - (time.time() - t0)
        if stop.is_set():
            return {"status": "stopped", "error": "a violation was confirmed meanwhile", "job": jobs[i]}
        if left < 5:
            return {"status": "inconclusive", "error": "no time left", "job": jobs[i]}
        spec = os.path.join(base, "job%d.json" % i)
        with open(spec, "w") as f:
            json.dump({"job": jobs[i], "budget": left}, f)
        r = spawn("sym", pid, spec, os.path.join(base, "out%d.json" % i), os.path.join(base, "w%d" % i), left + 20, stop)
        r.setdefault("job", jobs[i])
        shutil.rmtree(os.path.join(base, "w%d" % i), ignore_errors=True)
        return r

    def replay(job, v, tag, timeout=120):
        rec = {"property": pid, "job": job, "label": v["label"], "inputs": v["inputs"], "info": v["info"]}
        spec = os.path.join(base, "cand%s.json" % tag)
        with open(spec, "w") as f:
            json.dump(rec, f, indent=1)
        rec["replay"] = spawn("replay", pid, spec, spec + ".out", os.path.join(base, "r" + tag), timeout)
        shutil.rmtree(os.path.join(base, "r" + tag), ignore_errors=True)
        return rec

    def watch():
        # candidates are replayed while the exploration goes on; a confirmed one ends it
        done, n = {}, 0
        while not finished.is_set():
            finished.wait(1)
            for i, job in enumerate(jobs):
                try:
                    with open(os.path.join(base, "out%d.json.cand" % i)) as f:
                        lines = f.read().split("\n")[:-1]
                except OSError:
                    continue
                for k, line in enumerate(lines):
                    v = json.loads(line)
                    key = (i, v["label"])
                    if done.get(key, [0, 0])[0] > k or done.get(key, [0, 0])[1] >= 4 or finished.is_set():
                        continue
                    done[key] = [k + 1, done.get(key, [0, 0])[1] + 1]
                    n += 1
                    if n > 60:
                        return
                    rec = replay(job, v, "live%d" % n)
                    if rec["replay"].get("reproduced"):
                        live.append(rec)
                        if not is_known(rec):
                            stop.set()
                            return

    known = [k for k in known_findings() if k["property"] == pid]

    def is_known(rec):
        return any(k["label"] == rec["label"] and k["job"] == rec["job"] and k["inputs"] == rec["inputs"] for k in known)

    finished = threading.Event()
    watcher = threading.Thread(target=watch, daemon=True)
    watcher.start()
    workers = int(os.environ.get("SYMX_JOBS", "8"))
    with ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(one, range(len(jobs))))
    finished.set()
    watcher.join()

    # replay candidate violations on the unmodified code
    confirmed, spurious, knownhits = [], [], []
    cand = []
    for r in results:
        per = {}
        for v in r.get("violations", []):
            per.setdefault(v["label"], []).append(v)
        for label, vs in per.items():
            cand.append((r["job"], label, vs[:8]))
    if live:
        confirmed += [r for r in live if not is_known(r)]
        if confirmed:
            cand = []

    def rep(args):
        n, (job, label, vs) = args
        out = []
        for k, v in enumerate(vs):
            if time.time() - t0 > total_budget + 40:
                break
            rec = replay(job, v, "%d_%d" % (n, k))
            out.append(rec)
            if rec["replay"].get("reproduced") and not is_known(rec):
                break
        return out

    with ThreadPoolExecutor(workers) as ex:
        for recs in ex.map(rep, list(enumerate(cand))):
            good = [r for r in recs if r["replay"].get("reproduced") and not is_known(r)]
            fake = [r for r in recs if not r["replay"].get("reproduced")]
            if good:
                confirmed.append(good[0])
            elif fake:
                spurious.append(fake[0])

    # validate the encoding: models of explored paths, run on the unmodified code
    def val(i):
        r = results[i]
        if not r.get("kept") or stop.is_set():
            return None
        spec = os.path.join(base, "val%d.json" % i)
        with open(spec, "w") as f:
            json.dump({"property": pid, "job": r["job"], "inputs_list": r["kept"]}, f)
        rr = spawn("replay", pid, spec, spec + ".out", os.path.join(base, "v%d" % i), 200)
        shutil.rmtree(os.path.join(base, "v%d" % i), ignore_errors=True)
        return rr

    validated = 0
    mismatch = []
    with ThreadPoolExecutor(workers) as ex:
        for i, rr in enumerate(ex.map(val, range(len(results)))):
            if rr is None:
                continue
            validated += rr.get("validated", 0)
            if rr.get("reproduced"):
                confirmed.append({"property": pid, "job": results[i]["job"], "label": rr["label"],
                                  "inputs": rr["inputs"], "info": "found while validating explored paths", "replay": rr})
            elif rr.get("harness_error") or rr.get("status") or (rr.get("stopped") and not rr.get("validated")):
                mismatch.append((results[i]["job"], rr))

    # known findings are replayed from their recorded inputs
    for k in known:
        spec = os.path.join(base, "known_%s.json" % k["id"])
        with open(spec, "w") as f:
            json.dump({"property": pid, "job": k["job"], "inputs": k["inputs"]}, f)
        rr = spawn("replay", pid, spec, spec + ".out", os.path.join(base, "k" + k["id"]), 120)
        if rr.get("reproduced"):
            knownhits.append(k)
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    # vacuity: every harness must have reached its labels
    missing = []
    for r in results:
        if r.get("status") != "ok":
            continue
        for lab in h.REQUIRED.get(r["job"]["h"], []) if hasattr(h, "REQUIRED") else []:
            if lab not in r.get("covered", {}) and not r.get("violations"):
                missing.append("%s: %s" % (r["job"]["h"], lab))
        if not r.get("covered"):
            missing.append("%s reached no obligation" % r["job"]["h"])
    if getattr(h, "REQUIRED_UNION", None):
        seen = set()
        for r in results:
            seen |= set(r.get("covered", {}))
        if all(r.get("status") == "ok" for r in results) and not cand:
            missing += [x for x in h.REQUIRED_UNION if x not in seen]

    bad = [r for r in results if r.get("status") != "ok"]
    rdir = os.environ.get("SYMX_REPLAYS", os.path.join(HERE, "replays"))
    lines = []
    if confirmed:
        os.makedirs(rdir, exist_ok=True)
        for i, c in enumerate(confirmed):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump(c, f, indent=1)
            lines.append((path, c))
    write_evidence(pid, tier, seed, t0, h, results, confirmed, spurious, knownhits, missing, validated)
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)  # noqa: E731
    print(
        "%s %s: %d jobs, %d paths, %d obligations (%d discharged), %d queries, %d paths validated concretely, solver %.1fs, wall %.1fs"
        % (pid, tier, len(results), S("paths"), S("obligations"), S("discharged"), S("queries"), validated, S("solver_time"), time.time() - t0)
    )
    for path, c in lines:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   label=%s inputs=%s" % (c["label"], json.dumps(c["inputs"], default=str)[:600]))
        print("   %s" % str(c["replay"].get("info"))[:600])
    for r in bad:
        if r.get("status") == "stopped":
            continue
        print("INCONCLUSIVE job=%s status=%s %s" % (json.dumps(r["job"]), r.get("status"), r.get("error")))
        if os.environ.get("SYMX_DEBUG"):
            print(r.get("trace"))
    for s in spurious:
        print("NOT-REPRODUCED job=%s label=%s inputs=%s -> %s" % (
            json.dumps(s["job"]), s["label"], json.dumps(s["inputs"], default=str)[:800], str(s["replay"])[:3000]))
        if s.get("info"):
            print("   info: %s" % s["info"])
    for j, m in mismatch:
        print("VALIDATION-FAILED job=%s %s" % (json.dumps(j), str(m)[:3000]))
    for m in missing:
        print("VACUOUS %s" % m)
    if confirmed:
        return 1
    if os.environ.get("SYMX_STRICT") and (bad or spurious or missing or mismatch):
        return 2
    # No violation of the real code was demonstrated. What stayed undecided is printed above and counted in the
    # evidence; the run gives no answer at all when it is vacuous or when most of it stayed undecided.
    if missing or 2 * len(bad) > len(results):
        return 2
    return 0


def write_evidence(pid, tier, seed, t0, h, results, confirmed, spurious, knownhits, missing, validated):
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)  # noqa: E731
    fns = sorted({f for r in results for f in r.get("entered", [])})
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            samples.append({"harness": r["job"]["h"], **s})
    per = []
    for r in results:
        per.append(
            {
                "harness": r["job"]["h"],
                "params": r["job"].get("params", {}),
                "status": r.get("status"),
                "error": r.get("error"),
                "paths": r.get("paths"),
                "obligations": r.get("obligations"),
                "discharged": r.get("discharged"),
                "queries": r.get("queries"),
                "solver_s": r.get("solver_time"),
                "wall_s": r.get("wall"),
                "reached": r.get("covered"),
            }
        )
    level = getattr(h, "LEVEL", "model_checking")
    cov = {
        "explanation": "symbolic execution of the instrumented source of /repo; per path the solver decides "
        "`path condition and not property`",
        "functions_encoded": fns,
        "bounds": h.BOUNDS,
        "outside_bounds": getattr(h, "OUTSIDE", ""),
        "paths": S("paths"),
        "infeasible_paths_cut": S("cut"),
        "states": S("paths"),
        "transitions": S("branches"),
        "traces_validated_against_impl": validated,
        "obligations": S("obligations"),
        "discharged": S("discharged"),
        "queries": S("queries"),
        "queries_unsat": S("unsat"),
        "queries_sat": S("sat"),
        "solver_s": round(S("solver_time"), 2),
        "integer_concretisations_by_complete_forking": S("concretizations"),
        "harnesses": per,
        "samples": samples[:8],
        "not_reproduced": len(spurious),
        "inconclusive_jobs": sum(1 for r in results if r.get("status") != "ok"),
        "vacuous": missing,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(h, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    if knownhits:
        cov["known_findings"] = [k["id"] for k in knownhits]
    d = os.environ.get("SYMX_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
