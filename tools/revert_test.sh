#!/bin/bash
# usage: revert_test.sh CHECK COMMIT...: runs the check with these fix commits taken back, in a scratch copy
id=$1; shift
W=/tmp/gwrev
[ -d $W ] || git clone -q /repo $W
git -C $W fetch -q origin && git -C $W checkout -q -f $(git -C /repo rev-parse HEAD) && git -C $W clean -fdq
for c in "$@"; do git -C $W revert -n $c > /dev/null 2>&1 || { echo "$c cannot be taken back"; git -C $W revert --abort; exit 3; }; done
cd "$(dirname "$0")/.."
GSIM_REPO=$W GSIM_BUILD=/tmp/gwrevbuild python3 check.py $id 2>&1 | grep -v "^$" | tail -4
