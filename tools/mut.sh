#!/bin/bash
# mut.sh PATCH|revert:COMMIT PROPERTY... : run checks against a scratch copy of the code with a change applied
p=$1; shift; d=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $d/
if [[ $p == revert:* ]]; then git -C $d revert --no-commit ${p#revert:} >/dev/null || { echo "cannot revert"; exit 3; }; else git -C $d apply $p || exit 3; fi

for q in "$@"; do VERIF_REPO=$d python3 /verif/tools/check.py $q > /tmp/mut.$$.out 2>&1; rc=$?; echo "== $q rc=$rc"; grep -E -A14 "VIOLATION|no answer|ERROR|unreproduced" /tmp/mut.$$.out | head -${MUTL:-24}; done
rm -rf "$d" /tmp/mut.$$.out
