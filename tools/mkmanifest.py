#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "py"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = dict(version=1, setup_cmd="./check --setup",
           hooks=dict(guard="SHR_VERIF_HOOKS (unused: no hook was needed; the monitors interpose on library calls)",
                      enable="nothing to enable: the checks build /repo's tree out of tree, as it is", source_commits=[]),
           checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        out["not_applicable"].append(dict(property=p["id"], reason="no check yet"))
        continue
    out["checks"].append(dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="./check %s --thorough" % p["id"],
                              technique=c.get("technique", "runtime monitoring: differential monitor against a sequential model"),
                              level=c.get("level", "exploration"), level_note=c.get("note", "")))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
