"""tools/mkseed.py <id> <spec.py>: write seeded/<id> from a spec (PROPERTY, NEEDS, BREAKS, FILE, OLD, NEW, DEMO)."""
import json, os, subprocess, sys, tempfile, stat
sid, spec = sys.argv[1:3]
ns = {}
exec(open(spec).read(), ns)
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(dir="/tmp")
subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
for f, old, new in edits:
    p = f"{w}/r/instancespace/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
patch = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
open(d + "/patch.diff", "w").write(patch)
subprocess.run(["rm", "-rf", w], check=True)
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
