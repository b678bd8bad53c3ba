"""Runs one exploration job (symbolic) or one replay (concrete) in its own process."""
import importlib
import json
import os
import shutil
import sys
import time
import traceback


def scratch_env(base):
    home = os.path.join(base, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["XDG_CACHE_HOME"] = os.path.join(home, ".cache")
    os.environ["ECKIT_GEO_CACHE_PATH"] = os.path.join(home, "eckit")
    for k in list(os.environ):
        if k.startswith("EARTHKIT_REGRID_"):
            del os.environ[k]
    tmp = os.path.join(base, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.environ["TMPDIR"] = tmp
    import tempfile

    tempfile.tempdir = tmp


def load_harness(pid):
    return importlib.import_module("harness." + pid.lower())


def scheduler(h):
    """The thread scheduler, for the harnesses of code with threads."""
    if not getattr(h, "SCHED", False):
        return None
    from . import sched

    sched.install()
    return sched


def disk_model(h, sym):
    """The disk and sqlite, for the harnesses of the disk cache."""
    if not getattr(h, "DISK", False):
        return None
    from . import disk

    disk.install(sym)
    return disk


def pick(vs, per=8):
    """A few candidate violations of each label."""
    n = {}
    for v in vs:
        n[v.label] = n.get(v.label, 0) + 1
        if n[v.label] <= per:
            yield v


def wipe_home(home):
    for k in list(os.environ):
        if k.startswith("EARTHKIT_REGRID_"):
            del os.environ[k]
    # only ever a scratch home made by scratch_env
    if os.path.isdir(home) and os.path.basename(home) == "home" and os.path.basename(os.path.dirname(home))[:1] in ("w", "r", "v", "k"):
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(home)


def run_symbolic(pid, job, out, budget):
    from . import binfile, core, ctx as C, env, hooks, rewrite

    h = load_harness(pid)
    root = os.path.join(C.repo_root(), "src", "earthkit", "regrid")
    finder = rewrite.install(root)
    hooks.NP["obj"] = hooks.np_setup()
    env.install()
    binfile.install()
    sched = scheduler(h)
    disk = disk_model(h, True)
    fn = h.HARNESS[job["h"]]
    params = job.get("params", {})
    E = core.Engine(
        timeout_ms=job.get("timeout_ms", 60000),
        max_paths=job.get("max_paths", 200000),
        deadline=time.time() + budget,
        fp=job.get("fp", "slack"),
    )
    fresh = job.get("fresh", True)
    first = [True]
    home = os.environ["HOME"]

    def begin():
        if sched:
            sched.S.reset()
        hooks.reset_run()
        hooks.INTERN.entries = []
        hooks.FLOATBITS.clear()
        hooks.V.BYTESOF.clear()
        hooks.TOKENS.clear()
        env.reset()
        binfile.reset()
        if disk:
            disk.D.reset()
        # names of temporary files are the same each time a path is executed
        import tempfile

        tempfile._name_sequence = iter("t%06d" % i for i in range(10**6))
        if isinstance(fresh, str) and not first[0]:
            # only this module has to be fresh
            sys.modules.pop(C.PKG + "." + fresh, None)
        elif fresh or first[0]:
            C.purge_modules()
            first[0] = False
            wipe_home(home)

    E.on_begin = begin

    def on_violation(label, seen):
        # candidates are handed over at once: the parent replays them and stops when one is confirmed
        if seen < 6:
            with open(out + ".cand", "a") as f:
                for v in E.violations[-2:]:
                    if v.label == label:
                        f.write(json.dumps({"label": v.label, "inputs": v.model, "info": v.info}, default=str) + "\n")

    E.on_violation = on_violation
    res = {"job": job, "status": "ok", "error": None}
    E.result = res
    t0 = time.time()

    import contextlib
    import io

    kept = []
    leaked = []
    leaks = [0]
    nval = job.get("validate", 12)

    def keep():
        # a model of some completed paths, for concrete validation of the encoding
        if len(kept) < nval and (len(kept) < nval // 2 or E.paths % 7 == 3):
            kept.append(E.model_inputs(E.get_model()))

    def one():
        cx = C.SymCtx(params, E)
        try:
            body(cx)
        except core.Leak as e:
            # outside the encoding: remember it, try this path's model on the real code, go on
            if res["status"] == "ok":
                res["status"] = "leak"
                res["error"] = str(e)
                res["trace"] = res.get("trace") or traceback.format_exc()[-3000:]
            leaks[0] += 1
            if leaks[0] > 60:
                raise
            try:
                leaked.append(E.model_inputs(E.get_model()))
            except core.PathInfeasible:
                pass
            raise core.PathStop()

    def body(cx):
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    fn(cx)
                except core.PathStop:
                    if not E.violations:
                        keep()
                    raise
            keep()
        except core.SymxControl:
            raise
        except Exception as e:
            hooks.check_leak(e)
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]]
            in_repo = any(f.filename.startswith(root) for f in tb)
            if not in_repo:
                res["trace"] = traceback.format_exc()[-3000:]
                raise core.Leak("harness error: %s: %s at %s" % (type(e).__name__, core._show(e), where))
            E.check(False, "unexpected-exception", "%s: %s at %s" % (type(e).__name__, core._show(e.args), where))

    try:
        E.explore(one)
    except core.Leak as e:
        res["status"] = "leak"
        res["error"] = str(e)
        res["trace"] = res.get("trace") or traceback.format_exc()[-3000:]
    except core.Inconclusive as e:
        res["status"] = "inconclusive"
        res["error"] = str(e)
    except core.Nondeterminism as e:
        res["status"] = "nondeterminism"
        res["error"] = str(e)[:2000]
    except Exception as e:
        res["status"] = "error"
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-4000:]
    res.update(
        paths=E.paths,
        cut=E.cut,
        branches=E.branches,
        obligations=E.obligations,
        discharged=E.discharged,
        queries=E.queries,
        sat=E.sat,
        unsat=E.unsat,
        solver_time=round(E.solver_time, 3),
        wall=round(time.time() - t0, 3),
        covered=E.covered,
        entered=sorted(E.entered),
        samples=E.samples,
        concretizations=E.concretizations,
        kept=kept + leaked,
        violations=[{"label": v.label, "inputs": v.model, "info": v.info} for v in pick(E.violations)],
    )
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def run_replay(pid, path, out):
    from . import ctx as C

    with open(path) as f:
        rec = json.load(f)
    h = load_harness(pid)
    src = os.path.join(C.repo_root(), "src")
    sys.path.insert(0, src)
    # the editable install and this path agree when SYMX_REPO is /repo
    import earthkit  # noqa

    if os.path.join(src, "earthkit") not in list(earthkit.__path__):
        earthkit.__path__.insert(0, os.path.join(src, "earthkit")) if hasattr(earthkit.__path__, "insert") else None
    import earthkit.regrid

    got = os.path.realpath(os.path.dirname(earthkit.regrid.__file__))
    want = os.path.realpath(os.path.join(src, "earthkit", "regrid"))
    import contextlib
    import io

    res = {"reproduced": False, "label": None, "info": None, "validated": 0, "stopped": 0}
    if got != want:
        res["info"] = "wrong package: %s" % got
        rec["inputs_list"] = []
        rec.pop("inputs", None)
    batch = rec["inputs_list"] if "inputs_list" in rec else [rec["inputs"]]
    fn = h.HARNESS[rec["job"]["h"]]
    home = os.environ["HOME"]
    sched = scheduler(h)
    disk = disk_model(h, False)
    from . import env

    if sched:
        os.statvfs = env.statvfs
    for inputs in batch:
        env.DISK[0] = None
        if disk:
            disk.D.reset()
        if sched:
            sched.S.reset()
        C.purge_modules()
        wipe_home(home)
        cx = C.ConcCtx(rec["job"].get("params", {}), inputs)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                fn(cx)
            res["info"] = "no violation in the concrete run"
            res["validated"] += 1
        except C.Violated as e:
            res.update(reproduced=True, label=e.label, info=repr(e.info)[:2000], inputs=inputs)
        except C.Stop as e:
            res["info"] = "replay stopped: %s" % e
            res["stopped"] += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.startswith(want) for f in tb):
                res.update(
                    reproduced=True,
                    label="unexpected-exception",
                    info="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]),
                    inputs=inputs,
                )
            else:
                res["info"] = "harness error in replay: " + traceback.format_exc()[-2500:]
                res["harness_error"] = True
        finally:
            for c in reversed(cx.cleanups):
                c()
        if res["reproduced"] or res.get("harness_error"):
            break
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    os._exit(0)


def main():
    mode, pid, spec, out, base = sys.argv[1:6]
    scratch_env(base)
    if mode == "sym":
        with open(spec) as f:
            j = json.load(f)
        run_symbolic(pid, j["job"], out, j["budget"])
        sys.stdout.flush()
        os._exit(0)
    else:
        run_replay(pid, spec, out)


if __name__ == "__main__":
    main()
