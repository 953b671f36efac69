#!/bin/bash
# tools/seedtest.sh <seed id> [--notest]: scratch copy, patch, existing tests, demo both ways, the property's check
set -u
S=/verif/seeded/$1
W=$(mktemp -d /tmp/seedXXXXXX)
trap "rm -rf $W" EXIT
git -C /repo archive HEAD | (mkdir -p $W/repo && tar -x -C $W/repo)
cd $W/repo && git init -q . && git add -A >/dev/null && git -c user.name=x -c user.email=x@x commit -qm base
cp -a $S $W/seed; chmod +x $W/seed/demo.sh
export PYTHONDONTWRITEBYTECODE=1
. /opt/vp/env.sh; export PYTHONPATH=$W/repo/src
bash $W/seed/demo.sh >$W/d0 2>&1; r0=$?
git apply $S/patch.diff || { echo "$1 PATCH FAILS"; exit 1; }
bash $W/seed/demo.sh >$W/d1 2>&1; r1=$?
t=skipped
if [ "${2:-}" != --notest ]; then
 /opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider -n 8 --timeout=600 tests >$W/t 2>&1; t=$(tail -1 $W/t)
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif && ONEPOWER_SRC=$W/repo VERIF_EVDIR=$W/ev python3 -m sa.harness $P >$W/c 2>&1; rc=$?
echo "$1 [$P] demo base=$r0 patched=$r1 tests='$t' check rc=$rc: $(grep -m1 -E '^  |ANALYSIS' $W/c | cut -c1-220)"
[ $r0 = 0 ] || tail -3 $W/d0
