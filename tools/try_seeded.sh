#!/bin/bash
# usage: try_seeded.sh ID...   validates planted changes in scratch copies:
# applies, builds, passes the stable tests, demo passes without and fails with it
for id in "$@"; do
  d=/verif/seeded/$id; w=$(mktemp -d /tmp/seed.XXXXXX)
  mkdir "$w/repo" "$w/demo"
  (cd /repo && cp -r src Cargo.toml $( [ -f Cargo.lock ] && echo Cargo.lock ) README.md LICENSE* "$w/repo/" 2>/dev/null)
  cp $d/*.sh $d/*.rs $d/Cargo.lock "$w/demo/"
  cd "$w/repo" || exit 1
  bash "$w/demo/demo.sh" > "$w/clean.log" 2>&1; clean=$?
  (git init -q . && git apply "$d/patch.diff") > "$w/apply.log" 2>&1 || echo "$id: DOES NOT APPLY"
  CARGO_TARGET_DIR=/tmp/seedtarget CARGO_NET_OFFLINE=true cargo test --offline --workspace -- --skip optimize::differential_evolution > "$w/test.log" 2>&1; t=$?
  bash "$w/demo/demo.sh" > "$w/bug.log" 2>&1; bug=$?
  ok=BAD; [ $clean = 0 ] && [ $t = 0 ] && [ $bug != 0 ] && [ $bug -lt 124 ] && ! grep -q "could not compile" "$w/bug.log" && ok=ok
  [[ $id == c26-not-send ]] && [ $clean = 0 ] && [ $t = 0 ] && [ $bug != 0 ] && ok=ok
  echo "$ok $id clean=$clean tests=$t bug=$bug"
  [ $ok = BAD ] && { tail -n 5 "$w/clean.log"; tail -n 5 "$w/bug.log"; grep -E "^error|FAILED|failed|panicked" -A6 "$w/test.log" | head -20; }
  rm -rf -- "$w"
done
