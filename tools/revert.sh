#!/bin/bash
# tools/revert.sh <commit> <property>...: run checks against /repo with one commit undone
W=$(mktemp -d /tmp/mut/r.XXXX); git -C /repo worktree list >/dev/null
git clone -q /repo $W/repo; git -C $W/repo show $1 | git -C $W/repo apply -R || { echo "CONFLICT $1"; rm -rf "$W"; exit 9; }
for p in "${@:2}"; do echo "== $(git -C /repo log --format=%s -1 $1) :: $p"; SX_REPO=$W/repo /verif/bin/check $p 2>&1 | tail -3 | cut -c1-300; done
rm -rf "$W"
