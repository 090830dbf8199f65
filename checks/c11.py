"""C11: device and dtype inference over the value-flow graph of every numerical entry point: each created tensor, conversion and join of operands gets a symbolic place (requested, inherited from a named input, fixed CPU/default); operations that mix places and results that leave the promised place are violations."""
from vf.law import *
from vf.simconf import *
from vf.place import *
from vf.loader import AnalysisBroken, PKG
from vf.rules import beval

DEV, DT = frozenset({"device"}), frozenset({"dtype"})
TXT = {"device": "operands on different devices", "dtype": "a helper tensor of fixed precision is combined with data", "generator": "random numbers drawn on another device than their generator",
       "numpy": "a tensor that may be on another device is read as a numpy array", "narrow": "data is converted to a fixed lower precision", "helper": "a helper tensor is computed in default precision and converted afterwards",
       "dtypes": "tensors of different inputs are combined without conversion"}


def plain(c):
    """Branches taken off MPS (which has no double precision) and without an explicit precision switch."""
    if c.op == "cmp" and c.args[0] in ("==", "!=") and const("mps") in c.args[1:]:
        return c.args[0] == "!="
    if c.op == "truth" and c.args[0].op == "attr" and c.args[0].args[1] == "mixed_precision":
        return False
    return None


def roots(r, L=None):
    """Terms computed by the run, without those under an explicit precision switch."""
    out = []
    if isinstance(r.ret, T) and r.ret.op != "dead":
        out.append(r.I.freeze(r.state, r.ret))
    for e in r.events:
        if e.kind == "raise" or any((beval(f, plain) if L is None else L.cond(f)) is False for f in e.pc if isinstance(f, T)):
            continue
        out += [a for a in [*e.args, *e.kw.values(), e.res] if isinstance(a, T)]
        if e.kind == "mut" and e.fn and len(e.args) > 1 and e.fn != "out=":
            out.append(T("call", T("ext", "t." + e.fn), tuple(x for x in e.args if isinstance(x, T)), ()))
        if e.kind == "setitem" and len(e.args) == 3:
            out.append(T("store", *e.args))
    for li in r.I.loopinfo.values():
        out += [x for x in [li.get("iter"), *li.get("init", {}).values()] if isinstance(x, T)]
    return out


def walk(t, seen, L=None):
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        if x.op == "phi":
            d = beval(x.args[0], plain) if L is None else L.cond(x.args[0])
            if d is not None:
                st.append(x.args[1 if d else 2])
                continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                q = list(a)
                while q:
                    y = q.pop()
                    if isinstance(y, T):
                        st.append(y)
                    elif isinstance(y, tuple):
                        q += y


def pretty(t):
    return show(t, 2)[:70]


def origin(r, t):
    """Function in which the term was computed, when an event shows it."""
    for e in r.events:
        if e.kind in ("call", "mut") and e.res is t:
            return site(e).replace("torchrir.", "")
    best = None
    for e in r.events:
        for a in list(e.args) + list(e.kw.values()):
            if isinstance(a, T) and best is None and t in (a, *a.args):
                best = site(e).replace("torchrir.", "")
    return best


def scan(r, L, kinds):
    """(conflicts, terms) under one assignment of the split conditions."""
    seen, n = set(), 0
    for t in roots(r, L):
        for x in walk(t, seen, L):
            n += 1
            if x.op == "store":
                b, v = L.of(x.args[0]), L.of(x.args[2])
                if not b.py and not v.py and not b.np and not v.np:
                    if b.dev is not None and v.dev is not None and b.dev is not v.dev and not (v.dev is CPU and not L.vec(x.args[2])):
                        L.note("device", x, b.dev, v.dev)
                    if b.dt is not None and v.dt is not None and b.dt.op == "ext" and b.dt.args[0] in LOW and v.dt.op != "ext":
                        L.note("narrow", x, v.dt, b.dt)
            else:
                L.of(x)
    return [b for b in L.bad if b[0] in kinds and b[1] in seen], seen


def mixes(c, name, r, L, kinds):
    bad, seen = scan(r, L, kinds)
    for f in L.splits[:6]:
        for v in (True, False):
            b2, _ = scan(r, L.assuming(f, v), kinds)
            bad += [b for b in b2 if not any(b[0] == x[0] and b[1] is x[1] for x in bad)]
    said = set()
    for kind, t, a, b in bad:
        w = origin(r, t) or pretty(t)
        if (kind, w) not in said:
            said.add((kind, w))
            c.ob(f"C11.{kind}", f"{name}: {w}", False, f"{TXT[kind]}: {pretty(a)} and {pretty(b)} at {pretty(t)}")
    for kind in kinds:
        if not any(b[0] == kind for b in bad):
            c.ob(f"C11.{kind}", name, True, f"{len(seen)} terms, {sum(1 for x in seen if not L.memo.get(x, UNK) == UNK)} placed, {len(L.splits)} splits")


def live(L, t):
    """Values t can take, without branches the places exclude."""
    if t.op == "phi":
        d = L.cond(t.args[0])
        if d is not None:
            return live(L, t.args[1 if d else 2])
        return live(L, t.args[1]) | live(L, t.args[2])
    return {t}


def result(c, name, r, L, dev, dt, pick=None):
    t = r.I.freeze(r.state, r.ret) if r.state is not None and isinstance(r.ret, T) and r.ret.op != "dead" else None
    if t is None:
        c.ob("C11.result", name, None, "no result")
        return
    if pick is not None:
        t = pick(t)
    for l in live(L, t):
        if l is NONE:
            continue
        p = L.of(l)
        if p.py or p.np:
            c.ob("C11.result", name, None, f"not a tensor: {pretty(l)}")
            continue
        for what, got, want in (("device", p.dev, dev), ("dtype", p.dt, dt)):
            if got is None:
                c.ob("C11.result", f"{name} {what}", None, f"unknown for {pretty(l)}")
            else:
                c.ob("C11.result", f"{name} {what}", got is want, f"is {pretty(got)}, expected {pretty(want)}")


def fl(t):
    return T("truth", T("call", T("ext", "t.is_floating_point"), (t,), ()))


ALL = ("device", "dtype", "generator", "numpy", "narrow", "helper")


def engine(c):
    D, Y = S("device"), S("dtype")
    for full, ins in ((STATIC, ("sources", "mics")), (DYNAMIC, ("src_traj", "mic_traj"))):
        nm = full.split(".")[-1]
        ty = {CFG: frozenset({"SimulationConfig"}), ROOM: frozenset({"Room"}), D: DEV, Y: DT}
        ty.update({S(x): TEN for x in ins})
        a, b = S(ins[0]), S(ins[1])
        pre0 = [given(CFG)] + [fl(x) for x in (a, b, attr(ROOM, "size"))]
        cases = {
            "device and dtype given": ({}, D, Y, []),
            "only dtype given": ({"device": NONE}, attr(a, "device"), Y, [T("cmp", "is", attr(CFG, "device"), NONE)]),
            "only device given": ({"dtype": NONE}, D, attr(a, "dtype"), []),
            "nothing given": ({"device": NONE, "dtype": NONE}, attr(a, "device"), attr(a, "dtype"), [T("cmp", "is", attr(CFG, "device"), NONE)]),
        }
        for case, (kw, dev, dt, pre) in cases.items():
            with c.rule("C11.engine", f"{nm}, {case}"):
                r = c.run(full, kw={"config": CFG, **kw}, pre=pre0 + pre, key=("c11", case), symty=ty, updates=True)
                L = Places(r.I, None, plain)
                mixes(c, f"{nm}, {case}", r, L, ALL)
                result(c, f"{nm}, {case}", r, L, dev, dt)


def given(t):
    return neg(T("cmp", "is", t, NONE))


def convolution(c):
    sig, rir = S("signal"), S("rirs")
    for full, kw, other in (("torchrir.signal.static.fft_convolve", {}, S("rir")), ("torchrir.signal.static.convolve_rir", {}, rir),
                            ("torchrir.signal.dynamic.DynamicConvolver.convolve", {}, rir)):
        nm = ".".join(full.split(".")[3:])
        with c.rule("C11.convolution", nm):
            r = c.run(full, key="c11", symty={sig: TEN, other: TEN}, updates=True)
            al = {attr(other, "device"): attr(sig, "device"), attr(other, "dtype"): attr(sig, "dtype")}
            L = Places(r.I, al, plain)
            mixes(c, nm, r, L, ALL)
            result(c, nm, r, L, attr(sig, "device"), attr(sig, "dtype"))


def helpers(c):
    """Functions taking one geometry tensor and optional device and dtype."""
    D, Y = S("device"), S("dtype")
    P = c.P
    skip = ("sim.ism.api", "signal.static", "signal.dynamic", "geometry.sampling")
    for full, m, node, owner in all_functions(P):
        mod = m.name.replace(PKG + ".", "")
        if owner is not None or node.name.startswith("_") or not mod.startswith(("util.", "geometry.", "sim.", "signal.", "models.")) or mod in skip:
            continue
        names = [x.arg for x in node.args.args + node.args.kwonlyargs]
        tens = [x.arg for x in node.args.args + node.args.kwonlyargs if x.annotation is not None and "Tensor" in mentions(x.annotation)]
        if not tens:
            continue
        nm = f"{mod}.{node.name}"
        with c.rule("C11.helper", nm):
            # further tensor arguments are moved to the place of the first, or expected there
            for case in (("given", "absent") if "device" in names and "dtype" in names else ("absent",)):
                kw = {"device": D, "dtype": Y} if case == "given" else {x: NONE for x in ("device", "dtype") if x in names}
                ty = {S(x): TEN for x in tens}
                ty.update({D: DEV, Y: DT} if case == "given" else {})
                r = c.run(full, kw=kw, pre=[fl(S(x)) for x in tens], key=("c11", case), symty=ty, updates=True)
                first = S(tens[0])
                al = {}
                for x in tens[1:]:
                    al[attr(S(x), "device")], al[attr(S(x), "dtype")] = attr(first, "device"), attr(first, "dtype")
                L = Places(r.I, al, plain)
                kinds = tuple(k for k in ALL if k not in ("narrow",)) if case == "absent" else ("dtype", "helper", "generator") if len(tens) > 1 else ("device", "dtype", "helper", "generator")
                mixes(c, f"{nm} ({case})", r, L, kinds)
                if "device" in names and "dtype" in names and isinstance(r.ret, T) and r.ret.op != "dead" and "Tensor" in r.I.ty(r.ret):
                    result(c, f"{nm} ({case})", r, L, D if case == "given" else attr(first, "device"), Y if case == "given" else attr(first, "dtype"))
    # sampling: positions are float32 by contract, the reference point may be anywhere
    full = "torchrir.geometry.sampling.sample_positions_min_distance"
    if P.function(full) if hasattr(P, "function") else True:
        with c.rule("C11.helper", "geometry.sampling"):
            r = c.run(full, key="c11", symty={S("center"): TEN, S("room_size"): TEN}, updates=True)
            L = Places(r.I, None, plain)
            mixes(c, "geometry.sampling.sample_positions_min_distance", r, L, ("device", "numpy"))


def check(c):
    engine(c)
    convolution(c)
    helpers(c)
