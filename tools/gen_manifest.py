#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NA = {
 "P18": "Resource use on inputs of unbounded size is outside what bounded symbolic execution decides: every path has a fixed input length and a step limit, so neither stack depth nor growth rates for arbitrary nesting can be stated as an assertion over it. Non-termination within the bounds is covered by P01 and P05.",
}
NOTE = {
 "P10": "The oracle is an independent precedence parser over the documented operator table.",
 "P03": "The oracle is an independent reference lexer written from GoogleSQL's lexical rules, itself run on the symbolic bytes of each path.",
 "P04": "The oracle is the same independent reference lexer as P03's.",
 "P15": "The declarations are read from the .d.ts that the build of the current tree produces.",
}
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "bounded symbolic execution of the compiled crate (wasm from /repo's current source) with z3; counterexamples replayed on the real module",
        "level": "model_checking",
        "level_note": "Exhaustive over all values of the symbolic inputs within the bounds listed in DESIGN.md and in the evidence; nothing is claimed for longer inputs or other contexts. "
            + NOTE.get(i, "") + (" " if i in NOTE else "")
            + "Trusts rustc's wasm back end, the executor's models of wasm-bindgen's imports, regex automata and ASCII upper-casing (60 paths per run are compared with the real module under node), and z3.",
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: /repo is compiled as it is; its commits there are repairs only (known_findings.txt)."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
