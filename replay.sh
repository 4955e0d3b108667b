#!/bin/bash
# replay.sh <replay file> [trace]: replays a reported violation; exit 1 if it is reproduced exactly, 0 if it does not occur
f=$(realpath "$1") || exit 2
d=$(dirname "$(realpath "$0")")
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
case $id in C16 | C17) v=rocks ;; C18) v=unicache ;; *) v=core ;; esac
"$d/check.sh" --build || exit 2
exec "$d/target-$v/release/simcheck" replay "$f" ${2:+trace}
