#!/bin/bash
# tools/mut.sh CHECK 'python snippet editing files under $R' : run a check against a scratch copy of /repo
R=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/src "$R/src"; export R
PYTHONPATH=/verif/tools python3 -c "$2" || exit 9
(cd /repo && diff -r src "$R/src" | head -${3:-6})
VF_REPO=$R VF_OUT=$R/out python3 /verif/check.py $1 | cut -c1-600; echo "rc=${PIPESTATUS[0]}"
rm -rf "$R"
