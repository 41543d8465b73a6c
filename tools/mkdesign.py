"""Writes DESIGN.md: tools/design_head.md, a section per property, and the planted changes."""
import glob
import importlib
import json
import os
import sys
import textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import sx  # noqa: E402,F401  (finds z3)
out = [open(os.path.join(V, "tools", "design_head.md")).read().rstrip(), ""]
w = lambda s: textwrap.fill(" ".join(s.split()), 100)
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
notes = json.load(open(os.path.join(V, "tools", "manifest_notes.json")))
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if not os.path.exists(os.path.join(V, "checks", i + ".py")) or notes.get(i, {}).get("not_applicable"):
        out += [w(notes.get(i, {}).get("not_applicable", "no check")), ""]
        continue
    m = importlib.import_module("checks." + i)
    out += [w(getattr(m, "EXPLANATION", "")), "", w("*Bounds:* " + getattr(m, "BOUNDS", "")), ""]
    if getattr(m, "OUTSIDE", ""):
        out += [w("*Outside:* " + m.OUTSIDE), ""]
    if getattr(m, "ASSUMPTIONS", []):
        out += [w("*Assumed:* " + "; ".join(m.ASSUMPTIONS)), ""]
    if i in seeds:
        out += ["*Planted:* " + "; ".join(f"{s}" for s, _ in seeds[i]), ""]
out += ["## Planted changes", "", "Each passes the test suite and breaks its property; `tools/seedcheck.sh`"
        " confirms it. All are caught", "by the check of their property; notes say which were"
        " missed at first and what changed.", ""]
hist = json.load(open(os.path.join(V, "tools", "seed_notes.json")))
for i, ss in seeds.items():
    for s, m in ss:
        out += [w(f"* **{s}** ({i}): {m['what_it_breaks']} *Needs:* {m['needs']}"
                  + (f" *Note:* {hist[s]}" if s in hist else "")).replace("\n", "\n  ")]
tail = os.path.join(V, "tools", "design_tail.md")
if os.path.exists(tail):
    out += ["", open(tail).read().rstrip()]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
