"""mkbug.py ID PROPERTY file old new --needs .. --breaks .. (demo.sh written separately): writes seeded/ID/patch.diff and meta.json"""
import argparse, json, pathlib, subprocess, sys, tempfile, shutil
a = argparse.ArgumentParser()
a.add_argument("id"); a.add_argument("prop"); a.add_argument("edits"); a.add_argument("--needs", required=True); a.add_argument("--breaks", required=True)
a = a.parse_args()
ROOT = pathlib.Path(__file__).resolve().parent.parent
ns = {}
exec(open(a.edits).read(), ns)
d = ROOT / "seeded" / a.id
d.mkdir(parents=True, exist_ok=True)
w = pathlib.Path(tempfile.mkdtemp(prefix="mkbug-"))
subprocess.run(["git", "clone", "-q", "/repo", str(w / "r")], check=True)
for f, o, n in ns["EDITS"]:
    p = w / "r" / "src" / "torchrir" / f
    s = p.read_text()
    assert s.count(o) >= 1, (f, o)
    p.write_text(s.replace(o, n, 1))
diff = subprocess.run(["git", "-C", str(w / "r"), "diff"], capture_output=True, text=True).stdout
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps({"property": a.prop, "needs": a.needs, "what_it_breaks": a.breaks}, indent=1) + "\n")
(d / "demo.sh").write_text('#!/bin/bash\n. /opt/torchrir/env.sh 2>/dev/null\nPYTHONPATH=src exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
(d / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
shutil.rmtree(w)
