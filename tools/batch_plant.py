"""Developer aid: record planted bugs from a list file (python: BUGS = [dict(id, prop, file, old, new, needs, breaks, demo)])."""
import json, os, subprocess, sys
HELP = '''import json, os, sys
import numpy as np
D = os.environ["SCRATCH"]


def inventory(where, entries):
    """entries: list of (name, in grid, out grid, method, memory, matrix)"""
    from scipy.sparse import csr_array, save_npz

    idx = {"version": 1, "matrix": {}}
    for name, i, o, method, memory, m in entries:
        os.makedirs("%s/mir_1_%s" % (where, method), exist_ok=True)
        m = csr_array(np.array(m, dtype=float))
        save_npz("%s/mir_1_%s/%s.npz" % (where, method, name), m)
        size = m.data.nbytes + m.indptr.nbytes + m.indices.nbytes
        idx["matrix"][name] = {"input": dict(i, shape=[m.shape[1]]), "output": dict(o, shape=[m.shape[0]]),
                               "interpolation": {"engine": "mir", "version": "1", "method": method}, "memory": size if memory is None else memory}
    with open(where + "/index.json", "w") as f:
        json.dump(idx, f)
    return {n: (idx["matrix"][n]["memory"]) for n in idx["matrix"]}


def get(where, i, o, method="linear", x=None):
    from earthkit.regrid.array import regrid

    return regrid(np.array([1.0, 2.0] if x is None else x), in_grid=i, out_grid=o, interpolation=method, backend="precomputed", inventory=where)[0]


LL = {"grid": [10, 10]}


'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d, exist_ok=True)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"))
    open(d + "/demo.py", "w").write(HELP * b.get("help", True) + b["demo"])
    for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
        p = "/tmp/wt/src/earthkit/regrid/" + f
        s = open(p).read()
        assert s.count(old) >= 1, (b["id"], old)
        open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["bash", "/verif/tools/plant.sh", b["id"], b["prop"]], capture_output=True, text=True)
    print(r.stdout[-900:], r.stderr[-300:])
