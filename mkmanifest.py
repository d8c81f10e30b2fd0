#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg(cambrian_verif)", "enable": "RUSTFLAGS=\"--cfg cambrian_verif\" (set by check.py for the harness build)", "source_commits": ["cd6e813"]},
    "checks": [{
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the compiled code (LLVM bitcode) with Z3 deciding every branch and assertion",
        "level": "model_checking",
        "level_note": "Bounded: " + PROPS[i]["bounds"] + ". Outside: " + PROPS[i]["outside"] + ".",
    } for i in ids if i in PROPS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS],
    "notes": "Every counterexample is replayed natively against the real build (release, then dev profile) before it is reported.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
