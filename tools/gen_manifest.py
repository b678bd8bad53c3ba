"""Writes MANIFEST.json from the harness modules (run: python3 tools/gen_manifest.py)."""
import importlib
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
NA = {
    "C29": "the numerics live in the native MIR library (closed shared object behind mir-python); its source is not in this repository, "
    "so there is nothing here to encode for a solver",
}
PENDING = "no check has been built for this property"


def main():
    props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(root, "harness", i.lower() + ".py")
        if os.path.exists(f):
            h = importlib.import_module("harness." + i.lower())
            checks.append(
                {
                    "property": i,
                    "quick_cmd": "./check.sh %s quick" % i,
                    "thorough_cmd": "./check.sh %s thorough" % i,
                    "evidence_file": "evidence/%s.json" % i,
                    "technique": h.TECHNIQUE,
                    "level": getattr(h, "LEVEL", "model_checking"),
                    "level_note": h.LEVEL_NOTE + " Bounds: " + h.BOUNDS + ".",
                }
            )
        else:
            na.append({"property": i, "reason": NA.get(i, PENDING)})
    m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
