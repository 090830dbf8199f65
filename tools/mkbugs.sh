#!/bin/bash
# mkbugs.sh FILE...: each FILE (ID.py) defines PROP, NEEDS, BREAKS, EDITS, DEMO
for f in "$@"; do
  id=$(basename $f .py)
  python3 - "$f" "$id" <<'PY'
import sys,subprocess
ns={}; exec(open(sys.argv[1]).read(),ns)
subprocess.run(["python3","/verif/tools/mkbug.py",sys.argv[2],ns["PROP"],sys.argv[1],"--needs",ns["NEEDS"],"--breaks",ns["BREAKS"]],check=True)
PY
  bash /verif/tools/trybug.sh $id
done
