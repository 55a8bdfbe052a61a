#!/bin/bash
# mut.sh ID file 's/a/b/' ... : run ./check ID quick with the sed edits applied to /repo/<file>, then undo
id=$1; f=$2; shift 2
cd /repo; [ -z "$(git status --short -uno)" ] || { echo "repo dirty"; exit 2; }
for e in "$@"; do sed -i -E "$e" "$f"; done
git diff --stat | tail -1
cd /verif; ./check $id quick 2>&1 | grep -v '^warning' | tail -3 | cut -c1-300
git -C /repo checkout -q -- .
