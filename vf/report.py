"""Obligation bookkeeping, evidence, known findings, exit codes."""
from __future__ import annotations
import contextlib, json, os, pathlib, signal, sys, time, traceback
from .loader import PKG, AnalysisBroken, Module, Program
from .interp import Interp

ROOT = pathlib.Path(__file__).resolve().parent.parent


RULE_S, TOTAL_S = 240, 660
RULE_END = []


class OutOfTime(BaseException):
    pass


def _expired(*a):
    raise OutOfTime()


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.P = Program()
        self.obs = []            # (rule, site, verdict, detail)
        self.notes = []
        self.analysed = set()
        self.broken = []
        self.errors = []
        self._runs = {}

    # -------------------------------------------------------- obligations
    def ob(self, rule, site, verdict, detail=""):
        """verdict True (holds) / False (violated, positive evidence) / None (undecided)."""
        self.obs.append((rule, str(site), verdict, str(detail)))
        return verdict

    @contextlib.contextmanager
    def rule(self, name, site="-"):
        """An internal failure of the analysis, or one that runs out of time, leaves this rule undecided, never silently passed."""
        outer, RULE_END[:] = list(RULE_END), RULE_END or [min(time.time() + RULE_S, self.t0 + TOTAL_S)]
        try:
            if not outer:
                signal.signal(signal.SIGALRM, _expired)
                signal.setitimer(signal.ITIMER_REAL, max(RULE_END[0] - time.time(), 0.05))
            yield
        except AnalysisBroken as e:
            self.broken.append(f"{name}: {e}")
            self.ob(name, site, None, f"anchor missing: {e}")
        except OutOfTime:
            if outer:
                raise
            self.errors.append(f"{name}: out of time")
            self.ob(name, site, None, "analysis gave up (time)")
        except RecursionError:
            self.errors.append(f"{name}: recursion limit")
            self.ob(name, site, None, "analysis gave up (recursion)")
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.errors.append(f"{name}: {type(e).__name__}: {e} at {tb.filename}:{tb.lineno}")
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            self.ob(name, site, None, f"analysis gave up ({type(e).__name__}: {e})")
        finally:
            if not outer:
                signal.setitimer(signal.ITIMER_REAL, 0)
                RULE_END.clear()

    # -------------------------------------------------------- analysis runs
    def run(self, full, args=(), kw=None, pre=None, key=None, **opts):
        k = (full, key) if key is not None or not (args or kw or pre or opts) else None
        if k is not None and k in self._runs:
            return self._runs[k]
        I = Interp(self.P, **opts)
        r = I.run(full, args, kw, pre=pre)
        self.analysed.add(full)
        for m in I.unsupported:
            if m not in self.notes:
                self.notes.append("unsupported construct: " + m)
        if k is not None:
            self._runs[k] = r
        return r

    def user(self, src, key, fn="use", pre=None, **opts):
        """Analyse a small client program `def use(...)`, written against the package's public interface."""
        k = ("user", key)
        if k not in self._runs:
            name = PKG + "._client"
            self.P.modules[name] = Module(name, self.P.root / "_client.py", self.P, src)
            try:
                I = Interp(self.P, **opts)
                self._runs[k] = I.run(f"{name}.{fn}", pre=pre)
                self.notes += ["unsupported construct: " + m for m in I.unsupported if "unsupported construct: " + m not in self.notes]
            finally:
                del self.P.modules[name]
        return self._runs[k]

    def interp(self, **opts):
        return Interp(self.P, **opts)

    # -------------------------------------------------------- finish
    def known(self):
        f = ROOT / "known_findings.txt"
        out = {}
        if f.exists():
            for l in f.read_text().splitlines():
                if l.startswith("KNOWN-FINDING: property=%s " % self.pid):
                    rest = l.split(" ", 2)[2]
                    key, _, txt = rest.partition(" :: ")
                    out[key.strip()] = txt
        return out

    def finish(self):
        known = self.known()
        uniq = {}
        for r, s, v, d in self.obs:
            o = uniq.get((r, s))
            if o is None or (v is False and o[0] is not False) or (v is None and o[0] is True):
                uniq[(r, s)] = (v, d)
        self.obs = [(r, s, v, d) for (r, s), (v, d) in uniq.items()]
        viol, seen = [], []
        for r, s, v, d in self.obs:
            if v is False:
                key = f"{r} @ {s}"
                if key in known:
                    if key not in seen:
                        seen.append(key)
                        print(f"KNOWN-FINDING: property={self.pid} {key} :: {known[key]}")
                elif key not in [x[0] for x in viol]:
                    viol.append((key, d))
        n = len(self.obs)
        dis = sum(1 for o in self.obs if o[2] is True)
        und = [f"{r} @ {s}: {d}"[:300] for r, s, v, d in self.obs if v is None]
        samples = [f"{r} @ {s}: {'holds' if v else 'VIOLATED' if v is False else 'undecided'} {d}"[:240] for r, s, v, d in self.obs[:12]]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static decision over the current source: interprocedural gated value-flow graph; each obligation is one rule at one construct. "
                               "Obligations that the analysis cannot decide are listed, never counted as discharged.",
                "obligations": n, "discharged": dis, "undecided": len(und), "undecided_list": und[:60],
                "rules": sorted({o[0] for o in self.obs}),
                "functions_analysed": sorted(self.analysed), "modules": len(self.P.modules),
                "source_digest": self.P.digest, "samples": samples, "analysis_errors": self.errors[:20], "notes": self.notes[:20],
                "known_findings_matched": seen,
            },
            "violations": len(viol), "wall_s": round(time.time() - self.t0, 3),
            "assumptions": ["third-party libraries behave as documented", "type annotations of the package are honest"],
        }
        if os.environ.get("VF_NOEVIDENCE"):
            return self._verdict(viol, n, dis, und, seen, ev, None)
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        return self._verdict(viol, n, dis, und, seen, ev, 1)

    def _verdict(self, viol, n, dis, und, seen, ev, write):
        if viol and write is None:
            return 1
        if viol:
            rp = ROOT / "evidence" / f"{self.pid}.violations.txt"
            rp.write_text("\n".join(f"{k}\n    {d}" for k, d in viol) + "\n")
            for k, d in viol:
                print(f"  {k}: {d}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.broken:
            print(f"{self.pid}: public anchor missing: " + "; ".join(self.broken))
            return 2
        if not self.obs or dis == 0 and self.errors:
            print(f"{self.pid}: nothing decided; " + "; ".join(self.errors[:5]))
            return 2
        print(f"{self.pid}: {dis}/{n} obligations hold, {len(und)} undecided, {len(seen)} known findings ({ev['wall_s']} s)")
        return 0
