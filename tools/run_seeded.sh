#!/bin/bash
# usage: run_seeded.sh [ID...]   runs the check of each planted change's
# property against it, in a scratch copy of /repo and of the checks
# (SCRATCH, kept for the next call; remove it when done)
cd /verif || exit 1
S=${SCRATCH:-/tmp/sd}
mkdir -p "$S/verif/harness" "$S/repo"
cp check.py known_findings.txt properties.jsonl MANIFEST.json "$S/verif/"
sed -i "s#REPO = Path(\"/repo\")#REPO = Path(\"$S/repo\")#" "$S/verif/check.py"
for f in src Cargo.toml Cargo.lock; do rsync -a --delete "harness/$f" "$S/verif/harness/" 2>/dev/null || { rm -rf "$S/verif/harness/$f"; cp -a "harness/$f" "$S/verif/harness/"; }; done
[ -d harness/.cargo ] && cp -a harness/.cargo "$S/verif/harness/"
sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" "$S/verif/harness/Cargo.toml"
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  rm -rf "$S/repo"; mkdir "$S/repo"
  git -C /repo archive HEAD | tar -x -C "$S/repo"
  (cd "$S/repo" && git init -q . && git apply "/verif/seeded/$id/patch.diff" && rm -rf .git) || { echo "$id: DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} python3 "$S/verif/check.py" "$p" --tier quick > "$S/rs-$id.log" 2>&1; rc=$?
  echo "$id $p exit=$rc $(( $(date +%s) - t0 ))s $(grep -m1 '^violated' "$S/rs-$id.log" | cut -c1-160)"
done
