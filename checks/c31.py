"""C31: device selection decided by constant propagation of every supported device name through the selection code of small client programs, evaluated in every combination of available back ends; plus a taint rule that no requested device name reaches PyTorch without that selection."""
import ast
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken, PKG
from .c04 import params

NAMES = ["cuda", "cuda:0", "cuda:1", "mps", "mps:0", "CUDA", "MPS", "Cuda:0", "cpu", "CPU"]
PREFER = [None, ("cuda", "mps", "cpu"), ("mps", "cuda", "cpu"), ("cpu", "cuda", "mps"), ("cpu",), ("cuda",), ("mps",), ()]
WORLDS = [dict(cuda=c, mps=m, bcuda=bc, bmps=bm) for c in (0, 1) for m in (0, 1) for bc in (0, 1) for bm in (0, 1) if bc >= c and bm >= m]


def avail(name, w):
    n = name.lower()
    return n == "cpu" or n.startswith("cuda") and w["cuda"] or n.startswith("mps") and w["mps"]


def asg(w):
    def flag(x):
        n = callname(x) or (x.args[0] if x.op == "ext" else "")
        if n in ("torch.cuda.is_available", "torch._C._cuda_isAvailable"):
            return w["cuda"]
        if n in ("torch.backends.mps.is_available", "torch.mps.is_available"):
            return w["mps"]
        if n in ("torch.cuda.device_count", "torch._C._cuda_getDeviceCount"):
            return 8 * w["cuda"]
        if n == "torch.mps.device_count":
            return w["mps"]
        if n in ("torch.backends.mps.is_built", "torch.backends.mps.is_macos_or_newer"):
            return w["bmps"]
        if n in ("torch.backends.cuda.is_built", "torch.cuda._is_compiled", "torch._C._has_cuda", "torch.version.cuda"):
            return w["bcuda"]
        if n == "torch.cuda.is_initialized":
            return 0
        if n in ("torch.accelerator.is_available",):
            return int(w["cuda"] or w["mps"])
        if is_const(x) and isinstance(x.args[0], (int, float, bool)):
            return x.args[0]
        if x.op == "phi":
            z = beval(x.args[0], f)
            return None if z is None else flag(x.args[1] if z else x.args[2])
        if n == "builtins.bool":
            return flag(cargs(x)[0])
        return None

    def f(a):
        if a.op == "truth":
            v = flag(a.args[0])
            return None if v is None else bool(v)
        if a.op == "cmp":
            u, v = flag(a.args[1]), flag(a.args[2])
            if u is not None and v is not None:
                return {"==": u == v, "is": u == v, "<": u < v, "<=": u <= v}.get(a.args[0])
            if a.args[0] == "is" and NONE in a.args[1:]:
                o = a.args[1] if a.args[2] is NONE else a.args[2]
                if o.op == "ext" and o.args[0] == "torch.version.cuda":
                    return not w["bcuda"]
                if is_const(o) or callname(o) or o.op in ("tuple", "list"):
                    return o is NONE
        return None
    return f


def choose(t, f):
    while t.op == "phi":
        z = beval(t.args[0], f)
        if z is None:
            return None
        t = t.args[1] if z else t.args[2]
    return t


def devname(t, f):
    """Canonical name of a torch.device value, or None."""
    t = choose(t, f)
    if t is None:
        return None
    if callname(t) == "torch.device":
        a = [choose(x, f) for x in cargs(t)] + [choose(v, f) for k, v in ckw(t).items()]
        if not a or any(x is None or not is_const(x) for x in a):
            return devname(a[0], f) if len(a) == 1 and a[0] is not None and a[0].op == "call" else None
        return ":".join(str(x.args[0]) for x in a)
    return None


def home(P, name):
    for m in P.modules.values():
        if name in m.defs:
            return m.name
    return None


def warned(ev, f):
    z = [beval(conj(e.pc), f) for e in ev if e.kind == "call" and (e.fn in ("warnings.warn", "warnings.warn_explicit") or e.fn in ("m.warning", "m.warn", "logging.warning", "m.error"))]
    return True if True in z else None if None in z else False


def raised(r, f):
    z = [beval(conj(pc), f) for n, pc, e in r.raises]
    return True if True in z else None if None in z else False


def check(c):
    where = {n: home(c.P, n) for n in ("resolve_device", "DeviceSpec", "infer_device_dtype")}
    if not where["resolve_device"] and not where["infer_device_dtype"]:
        with c.rule("C31.anchor"):
            raise AnalysisBroken("no device selection helper")
    forms = []
    if where["resolve_device"]:
        forms.append(("resolve_device", "resolve_device({0})", "resolve_device({0}, prefer={1})", False))
    if where["infer_device_dtype"]:
        forms.append(("infer_device_dtype", "infer_device_dtype(device={0})[0]", None, False))
        forms.append(("infer_device_dtype with tensor", "infer_device_dtype(torch.zeros(3), device={0})[0]", None, True))
    if where["DeviceSpec"]:
        forms.append(("DeviceSpec.resolve", "DeviceSpec(device={0}).resolve()[0]", "DeviceSpec(device={0}, prefer={1}).resolve()[0]", False))
        forms.append(("DeviceSpec.resolve with tensor", "DeviceSpec(device={0}).resolve(torch.zeros(3))[0]", None, True))
    for label, plain, pref, tens in forms:
        head = "".join(f"from {m} import {n}\n" for n, m in where.items() if m) + "import torch\n"
        for nm in NAMES:
            with c.rule("C31.named", f"{label}: {nm}"):
                named(c, label, nm, c.user(head + f"def use():\n    return {plain.format(repr(nm))}\n", (label, nm)))
        if tens:
            continue
        for p in PREFER:
            if p is not None and pref is None:
                continue
            for auto in ("auto", "AUTO"):
                with c.rule("C31.auto", f"{label}: {p}"):
                    src = plain.format(repr(auto)) if p is None else pref.format(repr(auto), repr(p))
                    automatic(c, label, p, auto, c.user(head + f"def use():\n    return {src}\n", (label, auto, p)))
    with c.rule("C31.routed"):
        routed(c, where)


def named(c, label, nm, r):
    for w in WORLDS:
        f = asg(w)
        acc = [k for k in ("cuda", "mps") if w[k]]
        sit = f"{label}({nm!r}) with {' and '.join(acc) or 'no accelerator'}"
        kind = "C31.available" if avail(nm, w) else "C31.fallback"
        g = raised(r, f)
        if g:
            c.ob(kind, sit, False, "raises")
            continue
        d = devname(r.ret, f)
        if d is None:
            c.ob(kind, sit, None, "device not determined")
            continue
        if avail(nm, w):
            ok = d.lower() == nm.lower() or d.lower() + ":0" == nm.lower() or nm.lower() + ":0" == d.lower()
            if ok and d != d.lower():
                c.ob(kind, sit, False, f"torch.device({d!r}) is not a valid device string")
                continue
            c.ob(kind, sit, ok, f"gives {d}")
        else:
            if d.lower() != "cpu":
                c.ob(kind, sit, False, f"gives the unavailable {d}")
                continue
            k = warned(r.events, f)
            c.ob(kind, sit, k, "CPU with a warning" if k else "falls back silently: no warning" if k is False else "warning not decided")


def automatic(c, label, p, auto, r):
    order = p if p is not None else ("cuda", "mps", "cpu")
    for w in WORLDS:
        f = asg(w)
        acc = [k for k in ("cuda", "mps") if w[k]]
        sit = f"{label}({auto!r}{'' if p is None else ', prefer=' + repr(p)}) with {' and '.join(acc) or 'no accelerator'}"
        if raised(r, f):
            c.ob("C31.auto", sit, False, "raises")
            continue
        d = devname(r.ret, f)
        if d is None:
            c.ob("C31.auto", sit, None, "device not determined")
            continue
        want = next((x for x in order if avail(x, w)), "cpu")
        un = d.split(":")[0].lower()
        if not avail(d, w):
            c.ob("C31.auto", sit, False, f"automatic selection gives the unavailable {d}")
        else:
            c.ob("C31.auto", sit, True if un == want else False if p is not None or want != "cpu" and un == "cpu" else None, f"gives {d}" + ("" if un == want else f" instead of {want}"))


def routed(c, where):
    """A device name given to any function is resolved before PyTorch sees it."""
    req = const("cuda:1")
    f = asg(dict(cuda=0, mps=0, bcuda=0, bmps=0))
    skip = {"resolve_device"}
    runs, pub = [], public_names(c.P)
    for full, m, n, o in all_functions(c.P):
        ps = [(p.arg, p.annotation) for p, d in params(n)]
        an = next((a for p, a in ps if p == "device"), None)
        if an is None or "str" not in ast.unparse(an) or full.split(".")[-1] in skip or not public(full, o, pub):
            continue
        runs.append((full, lambda full=full: c.run(full, kw={"device": req}, key="dev")))
    ds = [k for k, m in ((k, home(c.P, k)) for k in ("simulate_rir", "simulate_dynamic_rir")) if m]
    cm = home(c.P, "SimulationConfig")
    if cm and "device" in [s.target.id for s in c.P.modules[cm].defs["SimulationConfig"].body if isinstance(s, ast.AnnAssign)]:
        for k in ds:
            ents = "src_traj=src, mic_traj=mics" if "dynamic" in k else "sources=src, mics=mics"
            src = f"from {home(c.P, k)} import {k}\nfrom {cm} import SimulationConfig\ndef use(room, src, mics):\n    return {k}(room=room, {ents}, max_order=2, nsample=100, config=SimulationConfig(device='cuda:1'))\n"
            runs.append((f"{k}(config.device)", lambda src=src, k=k: c.user(src, ("cfg", k))))
    for full, go in runs:
        with c.rule("C31.routed", full):
            r = go()
            bad = unk = None
            k = 0
            for e in r.events:
                if e.kind != "call" or beval(conj(e.pc), f) is False:
                    continue
                fn = e.fn or ""
                if not fn.startswith(("torch.", "t.", "m.")) or fn == "torch.device":
                    continue
                tgt = [v for kk, v in (e.kw or {}).items() if kk in ("device", "device_or_dtype")]
                if fn.split(".")[-1] in ("to", "new_tensor", "new_zeros"):
                    tgt += e.args[1:]
                for v in tgt:
                    k += 1
                    for x, sure in reach(v, f):
                        if x is req or devname(x, f) == "cuda:1":
                            bad, unk = (e, unk) if sure else (bad, e)
                        elif x.op == "call" and not callname(x).startswith(("t.", "torch.")) and contains(x, req):
                            unk = e
            v = False if bad else None if unk else True
            c.ob("C31.routed", full, v, f"{k} device uses" if v else f"{site(bad)} hands the requested name to PyTorch although that device is unavailable" if bad else "not decided")


def public(full, o, pub):
    n = full.split(".")[-1]
    return not n.startswith("_") and (n in pub if o is None else o.name in pub)


def reach(t, f, sure=True):
    """(leaf, certain) pairs of a value in this world; a leaf behind a test on an opaque call is not certain."""
    if t.op == "phi":
        z = beval(t.args[0], f)
        if z is None and any(f(a) is None and any(isinstance(s, T) and s.op == "call" and not str(callname(s)).startswith(("t.", "torch.")) for s in subterms(a)) for a in atoms(t.args[0])):
            sure = False
        return ([] if z is False else reach(t.args[1], f, sure)) + ([] if z is True else reach(t.args[2], f, sure))
    return [(t, sure)]
