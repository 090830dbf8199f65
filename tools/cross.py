"""Every check against combinations of other properties' behaviour-preserving edits (selftest cases marked Q); anything but silence is printed.
usage: python3 tools/cross.py [seed] [group size] [workers]"""
import os, pathlib, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from selftest import load, ROOT, REPO

seed, size, workers = [int(x) for x in (sys.argv[1:] + ["1", "8", "5"][len(sys.argv) - 1:])[:3]]
pids = sorted(p.stem.upper() for p in (ROOT / "selftest").glob("c*.py"))
checks = sorted(p.stem.upper() for p in (ROOT / "checks").glob("c*.py"))
cases = [(p, c) for p in pids for c in load(p) if c[1] == "Q"]
random.Random(seed).shuffle(cases)


def group(cs):
    d = pathlib.Path(tempfile.mkdtemp(prefix="vfcross-"))
    out = []
    try:
        shutil.copytree(REPO / "src", d / "src")
        names = []
        for p, c in cs:
            new = {}
            ok = True
            for f, old, rep, *every in c[2]:
                s = new.get(f, (d / "src" / "torchrir" / f).read_text())
                ok = ok and old in s
                new[f] = s.replace(old, rep, -1 if every else 1)
            try:
                for f, s in new.items():
                    compile(s, f, "exec")
            except SyntaxError:
                ok = False
            if ok:
                names.append(f"{p}:{c[0]}")
                for f, s in new.items():
                    (d / "src" / "torchrir" / f).write_text(s)
        env = dict(os.environ, VF_REPO=str(d), VF_NOEVIDENCE="1")
        for pid in checks:
            try:
                r = subprocess.run([sys.executable, "-m", "vf.run", pid, "-v"], cwd=ROOT, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                out.append(f"{pid} TIMEOUT with {names}")
                continue
            if r.returncode:
                det = [l.strip()[:260] for l in (r.stdout + r.stderr).splitlines() if l.startswith("VIOL ")][:2] or [(r.stdout + r.stderr)[-300:]]
                out.append(f"{pid} rc={r.returncode} {det} with {names}")
        return out or [f"quiet: {len(names)} edits"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(workers) as ex:
    for res in ex.map(group, [cases[i:i + size] for i in range(0, len(cases), size)]):
        for l in res:
            print(l, flush=True)
