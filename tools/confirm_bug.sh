#!/bin/bash
# confirm_bug.sh ID...: in a scratch copy of /repo, checks that a planted bug applies, builds, passes the stable
# tests, and that its demonstration tells the changed tree from the unchanged one.
for id in "$@"; do
  b=/verif/seeded/$id
  w=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo/. "$w/r"
  cp -r "$b" "$w/b"
  rm -f "$w/b/patch.diff" "$w/b/meta.json"
  cd "$w/r" || exit 1
  export CARGO_TARGET_DIR=$w/target
  git -C "$w/r" checkout -q -- .
  unset CARGO_TARGET_DIR
  (timeout 300 bash "$w/b/demo.sh" >"$w/clean.log" 2>&1); clean=$?
  if ! git -C "$w/r" apply "$b/patch.diff"; then echo "$id: DOES NOT APPLY"; continue; fi
  (timeout 300 bash "$w/b/demo.sh" >"$w/bug.log" 2>&1); bug=$?
  CARGO_TARGET_DIR=$w/target cargo test --offline -q >"$w/test.log" 2>&1; t=$?
  passed=$(grep -o "[0-9]* passed" "$w/test.log" | awk '{s+=$1} END {print s}')
  failed=$(grep -o "[0-9]* failed" "$w/test.log" | awk '{s+=$1} END {print s}')
  ok=BAD; [ $clean = 0 ] && [ $bug != 0 ] && [ $t = 0 ] && ok=ok
  echo "$id: $ok clean=$clean bug=$bug tests rc=$t passed=$passed failed=$failed $(git -C "$w/r" diff --stat | tail -1)"
  [ $ok = BAD ] && { tail -5 "$w/clean.log"; tail -5 "$w/bug.log"; grep -E "FAILED|failed|panicked|error" "$w/test.log" | head; }
  cd /; find "$w" -delete
done
