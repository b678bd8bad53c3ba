"""Developer aid: run one job in-process and print its statistics."""
import json
import sys
import tempfile
import time

from . import worker


def main():
    pid, idx, budget = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    h = worker.load_harness(pid)
    job = h.jobs(sys.argv[4] if len(sys.argv) > 4 else "quick")[idx]
    base = tempfile.mkdtemp(prefix="w")
    worker.scratch_env(base)
    out = base + "/o.json"
    import cProfile
    import pstats

    pr = cProfile.Profile()
    pr.enable()
    t = time.time()
    worker.run_symbolic(pid, job, out, budget)
    pr.disable()
    r = json.load(open(out))
    for k in ("entered", "kept"):
        r.pop(k, None)
    print(json.dumps(r, indent=1)[:6000])
    print("wall", time.time() - t)
    pstats.Stats(pr).sort_stats("cumtime").print_stats(25)


main()
