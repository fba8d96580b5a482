#!/usr/bin/env python3
"""Writes MANIFEST.json from vf/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vf"))
import props
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[])
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for i in ids:
    if i in props.PROPS:
        c = props.PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="bounded symbolic execution of the compiled crate's LLVM IR, path conditions and assertions decided by Z3",
            level="model_checking",
            level_note="Exhaustive within the bounds: " + c["bounds"] + " Outside: " + c.get("outside", "larger sizes.") + " Trusted: the IR interpreter (cross-checked natively on sampled paths), Z3, LLVM code generation."))
    else:
        m["not_applicable"].append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "no check built yet")))
m["notes"] = "No hooks in /repo: every check drives the public API. Checks share one engine (engine/), one harness crate (harness/) and one driver (vf/run.py)."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
