"""Building precomputed-weights inventories for harnesses."""
import os


def write_inventory(cx, entries, version=1):
    """entries: list of dicts with name, input, output, engine, iversion, method, weights, shape, extra."""
    d = cx.dir()
    matrix = {}
    for e in entries:
        inter = {"engine": e.get("engine", "mir"), "version": e.get("iversion", 16), "method": e["method"]}
        inter.update(e.get("inter", {}))
        rec = {"input": e["input"], "output": e["output"], "interpolation": inter}
        if "memory" in e:
            rec["memory"] = e["memory"]
        matrix[e["name"]] = rec
        if e.get("weights") is not None:
            m = e["method"]["type"] if isinstance(e["method"], dict) else e["method"]
            sub = "%s_%s_%s" % (inter["engine"], inter["version"], m)
            cx.matrix(os.path.join(d, sub, e["name"] + ".npz"), e["weights"], e["wshape"], nnz=e.get("nnz"))
    cx.dump_json(os.path.join(d, "index.json"), {"version": version, "matrix": matrix})
    return d
