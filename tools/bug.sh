#!/bin/bash
# bug.sh new ID          make /tmp/wk/ID, a copy of /repo to edit
# bug.sh keep ID         write /verif/seeded/ID/patch.diff from it, run demo on both trees, run the tests on it
# bug.sh check ID PROP.. run checks against it
set -u
cmd=$1; id=$2; shift 2
W=/tmp/wk/$id; S=/verif/seeded/$id
case $cmd in
new) rm -rf "/tmp/wk/$id"; mkdir -p /tmp/wk; cp -a /repo "$W";;
keep)
  mkdir -p "$S"; git -C "$W" diff > "$S/patch.diff"; wc -l "$S/patch.diff"
  (cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/wk/$id.clean 2>&1; echo "clean: $?")
  (cd "$W" && timeout 300 bash "$S/demo.sh" >/tmp/wk/$id.bug 2>&1; echo "bug: $?"; tail -3 /tmp/wk/$id.bug)
  /verif/tools/tests.sh "$W";;
check) for p in "$@"; do (cd /verif && VERIF_REPO=$W ./check.py $p | tail -2 | cut -c1-400); done;;
drop) rm -rf "/tmp/wk/$id";;
esac
