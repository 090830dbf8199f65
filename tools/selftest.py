"""Self-test of the checks: textual mutants (must alarm) and refactorings (must stay quiet) of scratch copies.
usage: python3 tools/selftest.py C01 [name]   -- reads selftest/c01.py: CASES = [(name, 'V'|'Q'|'?', [(file, old, new), ...]), ...]"""
import importlib.util, os, pathlib, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")


def load(pid):
    sp = importlib.util.spec_from_file_location("m", ROOT / "selftest" / f"{pid.lower()}.py")
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.CASES


def one(pid, case):
    name, exp, edits = case[:3]
    d = pathlib.Path(tempfile.mkdtemp(prefix="vfself-"))
    try:
        shutil.copytree(REPO / "src", d / "src")
        for f, old, new, *every in edits:
            p = d / "src" / "torchrir" / f
            s = p.read_text()
            if old not in s:
                return name, exp, "BADEDIT", f"{f}: {old[:60]!r}"
            s = s.replace(old, new, -1 if every else 1)
            p.write_text(s)
        for f in {e[0] for e in edits}:
            try:
                compile((d / "src" / "torchrir" / f).read_text(), f, "exec")
            except SyntaxError as e:
                return name, exp, "BADEDIT", f"{f}: {e}"
        env = dict(os.environ, VF_REPO=str(d), VF_NOEVIDENCE="1")
        r = subprocess.run([sys.executable, "-m", "vf.run", pid, "-v"], cwd=ROOT, env=env, capture_output=True, text=True)
        out = r.stdout
        got = {0: "Q", 1: "V"}.get(r.returncode, f"rc{r.returncode}")
        det = [l.strip()[:200] for l in out.splitlines() if l.startswith("VIOL " if got == "V" else "?   ")][:2]
        if got.startswith("rc"):
            det = [(r.stdout + r.stderr)[-400:]]
        return name, exp, got, " || ".join(det)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pids = [a for a in sys.argv[1:] if a[0] == "C" and a[1:].isdigit()] or sorted(p.stem.upper() for p in (ROOT / "selftest").glob("c*.py"))
    only = [a for a in sys.argv[1:] if a not in pids and not a.startswith("-")]
    verbose = "-v" in sys.argv
    bad = 0
    for pid in pids:
        cs = [c for c in load(pid) if not only or c[0] in only]
        with ThreadPoolExecutor(8) as ex:
            for name, exp, got, det in ex.map(lambda c: one(pid, c), cs):
                ok = got == exp or exp == "?"
                bad += not ok
                if not ok or verbose:
                    print(("ok  " if ok else "BAD ") + f"{pid} {name}: expected {exp} got {got}  {det}")
        print(pid, len(cs), "cases")
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
