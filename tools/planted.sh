#!/bin/bash
# planted.sh [ids]: applies each planted bug to /repo, runs the check of its property, undoes it, prints what happened.
# Not a check; only for keeping the table in DESIGN.md current.
d=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for i in ${@:-$(ls "$d/seeded")}; do
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/seeded/$i/meta.json")
    git -C /repo apply "$d/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
    t=$SECONDS
    out=$("$d/check.sh" "$p" quick 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    m=$(echo "$out" | grep -E "^minimised" | tail -1 | cut -c1-110)
    echo "$i | $p | rc=$rc | $((SECONDS - t)) s | $m"
done
