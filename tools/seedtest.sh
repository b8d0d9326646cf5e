#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy, then run their check against them (CHECK=0: skip)
root=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$root/seeded/$id; w=/tmp/seedtest-$id
  git -C /repo worktree prune
  git -C /repo worktree add -q --detach "$w" HEAD || exit 1
  ok=1; say() { echo "$id: $*"; }
  ( . /opt/vp/env.sh; cd "$w"; bash "$d/demo.sh" >/tmp/seed-$id.out 2>&1 ) || { ok=0; say "demo fails on the clean tree"; tail -5 /tmp/seed-$id.out; }
  git -C "$w" apply "$d/patch.diff" || { ok=0; say "patch does not apply"; }
  ( . /opt/vp/env.sh; cd "$w"; go build ./... ) || { ok=0; say "does not build"; }
  ( . /opt/vp/env.sh; export TZ=Asia/Tokyo; cd "$w"; go test -vet=off -count=1 -short ./... ) >/tmp/seed-$id.test 2>&1 || { ok=0; say "existing tests fail"; grep -m5 -E "^(--- )?FAIL" /tmp/seed-$id.test; }
  ( . /opt/vp/env.sh; cd "$w"; bash "$d/demo.sh" >/tmp/seed-$id.out 2>&1 ) && { ok=0; say "demo passes with the patch"; }
  [ $ok = 1 ] && say "planted bug is valid"
  if [ "$CHECK" != 0 ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    VERIF_REPO=$w VERIF_SEED=1 timeout 900 "$root/check" "$p" quick >/tmp/seed-$id.check 2>&1; rc=$?
    [ $rc = 1 ] && grep -q "^VIOLATION property=$p" /tmp/seed-$id.check && say "CAUGHT by $p" || { say "MISSED by $p (rc=$rc)"; tail -3 /tmp/seed-$id.check; }
  fi
  git -C /repo worktree remove --force "$w"
done
