#!/bin/bash
# run.sh [REPO]: which of the recorded defects show in the tree (default /repo)
R=${1:-/repo}; D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
gcc -g -std=gnu99 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -I$R/include -I$R/src "$D/defects.c" $(find $R/src -name '*.c') -o $W/d || exit 2
cd $W; bad=0
for i in $(seq 1 26); do
  if timeout 60 ./d $i >out 2>&1; then echo "case $i ok"; else bad=$((bad+1)); echo "case $i FAILS: $(grep -m1 -E 'ERROR: |FAILED|runtime error' out | cut -c1-110)"; fi
done
echo "$bad failing"; [ $bad = 0 ]
