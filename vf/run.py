"""python3 -m vf.run C01 [--thorough] [-v]"""
import importlib, os, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from vf.report import Check  # noqa: E402


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    c = Check(pid, tier)
    importlib.import_module(f"checks.{pid.lower()}").check(c)
    rc = c.finish()
    if "-v" in argv:
        for r, s, v, d in c.obs:
            print({True: "ok  ", False: "VIOL", None: "?   "}[v], r, "@", s, "|", d[:300])
        print(c.errors)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
