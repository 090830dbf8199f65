"""Analysed configurations of the simulator and their laws."""
from __future__ import annotations
from .simlaw import *

TENSOR = frozenset({"Tensor"})
SO, MO, NB = S("src_ori"), S("mic_ori"), S("nb_img")
PATTERN = {"omni": lambda x: C(1), "subcardioid": lambda x: B("+", C(0.75), B("*", C(0.25), x)), "cardioid": lambda x: B("+", C(0.5), B("*", C(0.5), x)),
           "hypercardioid": lambda x: B("+", C(0.25), B("*", C(0.75), x)), "bidir": lambda x: x,
           "homni": lambda x: T("phi", T("cmp", "<", C(0), x), C(1), C(0))}


def red(body, D):
    return T("red", "sum", T("bv", 0), C(D), body)


def norm_(body, D):
    return B("**", red(B("**", body, C(2)), D), C(0.5))


def gains(sp, mp, D, so, mo):
    """Law of the gain for unit directions so(b), mo(b) given as unnormalised vectors."""
    b = T("bv", 0)

    def gain(law):
        g = C(1)
        if sp != "omni":
            o = so(b)
            g = B("*", g, PATTERN[sp](B("/", red(B("*", law.diff, o), D), B("*", law.dist, norm_(o, D)))))
        if mp != "omni":
            o = mo(b)
            g = B("*", g, PATTERN[mp](B("/", red(B("*", B("-", C(0), law.diff), o), D), B("*", law.dist, norm_(o, D)))))
        return g
    return gain


def options(D, orient=None, patterns=None, nb=False):
    """(keyword arguments, shapes, types, gain)"""
    kw, sh, ty, gain = {}, {}, {}, None
    if nb:
        kw["nb_img"] = NB
        sh[NB] = (C(D),)
        ty[NB] = TENSOR
    if patterns:
        kw["directivity"] = const(patterns[0]) if patterns[0] == patterns[1] and orient != "tuple" else T("tuple", const(patterns[0]), const(patterns[1]))
        if orient == "each":
            sh.update({SO: (NS, C(D)), MO: (NM, C(D))})
            so = lambda b: T("at", SO, s_, b)
            mo = lambda b: T("at", MO, m_, b)
        else:
            sh.update({SO: (C(D),), MO: (C(D),)})
            so = lambda b: T("at", SO, b)
            mo = lambda b: T("at", MO, b)
        ty.update({SO: TENSOR, MO: TENSOR})
        kw["orientation"] = T("tuple", SO, MO)
        gain = gains(patterns[0], patterns[1], D, so, mo)
    return kw, sh, ty, gain


def sim(c, dyn, D, orient=None, patterns=None, nb=False, shapes=None, beta=True, facts=(), tag=None):
    kw, sh, ty, gain = options(D, orient, patterns, nb)
    sh.update(shapes or {})
    X = Sim(c, dyn, D, kw=kw, extra_shapes=sh, extra_ty=ty, key=(orient, patterns, nb, bool(shapes), tag), beta=beta, facts=facts)
    X.gain = gain
    X.label = f"{'dynamic' if dyn else 'static'} {D}-D" + (f" {patterns[0]}/{patterns[1]} {orient}" if patterns else "") + (" nb_img" if nb else "") + ("" if beta else " no beta")
    return X


def study(X, **kw):
    """(view, Study) per arrival; Study of every accumulation into the response."""
    return [(v, Study(X, v, X.D, X.gain, **kw)) for v in arrival_views(X)]


def peel(t):
    """Value behind conversions that keep layout."""
    while isinstance(t, T) and t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in (
            "t.contiguous", "t.detach", "t.clone", "t.as_tensor", "torch.as_tensor", "t.float", "t.double", "t.cpu") and t.args[1]:
        t = t.args[1][0]
    return t


def leaves(t, out=None):
    out = [] if out is None else out
    if t.op == "phi":
        leaves(t.args[1], out)
        leaves(t.args[2], out)
    elif t not in out:
        out.append(t)
    return out


def result_dims(X):
    """[(verdict, detail)] for the axes of what is returned."""
    want = ((NT, NS, NM, S("nsample")) if X.dyn else (NS, NM, S("nsample")))
    out = []
    for l in leaves(X.r.ret):
        sh = X.I.shape(peel(l))
        if sh is None:
            out.append((None, "shape of a returned value unknown"))
        elif len(sh) == len(want) and all(a is b for a, b in zip(sh, want)):
            out.append((True, ""))
        elif sorted(x.id for x in sh) == sorted(x.id for x in want):
            out.append((False, f"returned with axes ({', '.join(show(x) for x in sh)}) instead of ({', '.join(show(x) for x in want)})"))
        else:
            out.append((None, f"axes ({', '.join(show(x, 2)[:30] for x in sh)})"))
    return out


def drops(X, v):
    """Conditions on the data under which an arrival is not accumulated: [(verdict, condition)]."""
    out = []
    raised = set()
    for e in X.r.events:
        if e.kind == "raise":
            raised.update(e.pc)
    if v["why"]:
        return out
    for p in v["e"].pc:
        q = X.sub(p)
        if neg(p) in raised or p in raised:
            continue
        if not any(y in (LAT, S("sources"), S("mics"), S("src_traj"), S("mic_traj")) for y in subterms(q) if isinstance(y, T)):
            continue
        for a in atoms(q):
            x = a.args[0] if a.op == "truth" else a
            if not any(y in (LAT, S("sources"), S("mics"), S("src_traj"), S("mic_traj")) for y in subterms(x) if isinstance(y, T)):
                continue
            nm = callname(x) or ""
            if a is q and nm == "t.all" and not any(neg(p) in o.pc for o in X.r.events if o.kind in ("mut", "setitem")):
                out.append((False, show(a, 3)[:120]))
                continue
            if nm.split(".")[-1] in ("any", "numel", "is_cuda", "is_floating_point", "is_complex", "is_sparse", "requires_grad"):
                continue
            if a.op == "cmp":
                kinds = {callname(y) for y in subterms(x) if isinstance(y, T) and y.op == "call"}
                if any(k and k.split(".")[-1] in ("numel", "shape", "any", "sum", "count_nonzero") for k in kinds) and not any(k in ("t.norm", "t.prod") for k in kinds):
                    continue
                out.append((None, show(a, 3)[:120]))
            else:
                out.append((None, show(a, 3)[:120]))
    return out
