#!/bin/bash
# trybug.sh ID: applies the bug in a scratch copy; demo on clean/patched, stable tests, property check
id=$1; b=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
w=$(mktemp -d /tmp/trybug-XXXX); cp -a /repo "$w/r"; cd "$w/r" && git checkout -q -- .
(bash $b/demo.sh >$w/c.out 2>&1); c=$?
git apply $b/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
(bash $b/demo.sh >$w/d.out 2>&1); d=$?
t=skip
if [ "$2" != notest ]; then
 t=$(. /opt/torchrir/env.sh 2>/dev/null; PYTHONPATH=src timeout 300 /opt/venv/bin/python -m pytest -q -x --no-header 2>&1 | tail -1)
fi
cd /verif; out=$(VF_REPO=$w/r VF_NOEVIDENCE=1 python3 -m vf.run $prop -v 2>&1); rc=$?
echo "$id [$prop] clean-demo=$c bug-demo=$d tests=[$t] check=$rc  $(echo "$out" | grep -m1 '^VIOL' | cut -c1-180)"
[ $c -ne 0 ] && tail -3 $w/c.out
rm -rf "$w"
