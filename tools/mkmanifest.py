#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the jobs in props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
T = "symbolic execution of rustc's LLVM bitcode of the crate, path-wise SMT (Z3) discharge, counterexample replayed natively"
NA = {


}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "cfg(verif_small_nodes)",
        "enable": "run.py compiles /repo as a path dependency with RUSTFLAGS='--cfg verif_small_nodes' (8 entries per node) for the 'small' variants and without it (shipped capacity) for the 'big' ones",
        "source_commits": ["9aab249a9214fe717e15ecf5e125c7f061691e68"],
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": "python3 run.py check %s --tier quick" % i,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T,
            "level": "model_checking",
            "level_note": "bounded: holds for every value of the symbolic inputs within: " + props.PROPS[i]["bounds"] + ". " + "Trusted: rustc's bitcode as the meaning of the source, the executor's instruction semantics (sampled paths are replayed natively and compared), Z3.",
        }
        for i in ids
        if i in props.PROPS
    ],
    "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in props.PROPS],
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
