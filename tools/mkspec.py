#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py and the harness sources."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from spec import PROPS, NA
have = {f[:-3].upper() for f in os.listdir(os.path.join(R, "harness/src/bin"))}
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["all"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": [p.get("observe", "public API of the crate: build a WorkBook, write it, read it back, compare")]},
        }, ensure_ascii=False) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 check.py --setup",
       "checks": [], "not_applicable": []}
for p in PROPS:
    if p["id"] in NA:
        man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    assert p["id"] in have, p["id"]
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": "symbolic execution of the whole program's LLVM IR (engine llsym), z3 decides every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": p.get("note", "Bounded: every value of the symbolic inputs within the harness bounds listed in the evidence. Trusts rustc's LLVM IR, the engine's IR semantics (cross-checked by native replay) and z3."),
        "evidence_file": "evidence/%s.json" % p["id"],
    })
json.dump(man, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
