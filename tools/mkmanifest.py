"""Writes MANIFEST.json from the checks that exist and tools/manifest_notes.json."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "manifest_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and not n.get("not_applicable"):
        checks.append(dict(
            property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"bin/check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="symbolic execution of the repository's source with z3 deciding every "
                      "branch and obligation; counterexamples replayed on the real code",
            level="model_checking",
            level_note=n.get("note", "bounded: holds for all values within the stated sizes")))
    else:
        na.append(dict(property=i, reason=n.get("not_applicable", "check not built yet")))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
_ = importlib, sys
