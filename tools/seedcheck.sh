#!/bin/bash
# tools/seedcheck.sh <id> [check ...]: confirm a planted bug in a scratch clone of /repo
S=/verif/seeded/$1; mkdir -p /tmp/mut; W=$(mktemp -d /tmp/mut/s.XXXX)
trap 'rm -rf "$W"' EXIT
git clone -q ${SRC:-/repo} $W/repo; cd $W/repo
base=$(git rev-list --max-parents=0 HEAD | tail -1)
bash $S/demo.sh >$W/o 2>&1 || { echo "$1: demo fails on the clean tree"; tail -5 $W/o; }
git apply --check $S/patch.diff && git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 1; }
bash $S/demo.sh >$W/o 2>&1 && echo "$1: demo passes on the patched tree"; tail -1 $W/o
if [ -z "$NOTESTS" ]; then
 PYTHONPATH=$W/repo MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 timeout 800 /opt/venv/bin/python -m pytest -q -n 4 --dist loadfile -p no:cacheprovider --timeout=300 --ignore=tests/test_pythia.py --ignore=tests/test_pilot_pythia.py --ignore=tests/test_sifted.py 2>&1 | grep -E "^FAILED|passed|failed"
fi
shift 1 2>/dev/null
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in $props; do SX_REPO=$W/repo /verif/bin/check $p 2>&1 | grep -E "VIOLATION|exit|^OK|CRASH" | head -3 | cut -c1-250; echo "$(basename $S) $p rc=${PIPESTATUS[0]}"; done
