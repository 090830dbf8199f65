"""C14: index-level value-flow lowering of everything accumulated into the response, compared with the image-source law in polynomial normal form (four parity/sign cases per axis, symbolic room, positions and coefficients)."""
from vf.terms import *
from vf.rules import *
from vf.simconf import *

ASPECTS = {"images": "every factor of an arrival belongs to the same image", "align": "axes line up", "delay": "delay = distance / sound speed",
           "amp": "amplitude = reflections / distance"}


def check(c):
    confs = [dict(dyn=d, D=D) for d in (False, True) for D in (3, 2)] + [dict(dyn=False, D=3, nb=True), dict(dyn=True, D=3, nb=True), dict(dyn=False, D=2, nb=True)]
    for k in confs:
        with c.rule("C14.law", str(k)):
            X = sim(c, **k)
            law(c, X, "C14", ASPECTS)
            lattice(c, X, nb=k.get("nb", False))


def law(c, X, pid, aspects):
    st = study(X)
    if not st:
        c.ob(f"{pid}.arrivals", X.label, None, "no accumulation into the response identified")
    for v, s in st:
        w = f"{site(v['e'])} ({X.label})"
        for a in aspects:
            if a in s.v:
                r, d = s.verdict(a)
                c.ob(f"{pid}.{a}", w, r, d or aspects[a])
        for r, d in drops(X, v):
            c.ob(f"{pid}.kept", w, r, f"arrivals are skipped when {d} is false")


def lattice(c, X, nb):
    """The images are the integer grid, filtered by total order, each once."""
    w = f"image indices ({X.label})"
    if X.lat is None:
        c.ob("C14.lattice", w, None, "list of image indices not identified")
        return
    D, lat, masks = X.D, X.lat, []
    while lat.op == "item":
        its = lat.args[1].args if lat.args[1].op == "tuple" else (lat.args[1],)
        if len([z for z in its if not (z.op == "slice" and all(y is NONE for y in z.args))]) != 1:
            c.ob("C14.lattice", w, None, "selection not understood")
            return
        masks.append(its[0])
        lat = lat.args[0]
    L = Lower(X.I, leaves=set())
    idx = [S(f"i{k}") for k in range(D)]
    try:
        sh = X.I.shape(lat)
        fs = sh_.factors(sh[0])
        axes = fs if len(fs) == D else None
        grids = [y for y in subterms(lat) if isinstance(y, T) and y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] == "vf.grid"]
        if grids:
            gs = X.I.shape(grids[0])
            axes = list(gs) if gs and len(gs) == D else axes
        if axes is None:
            c.ob("C14.lattice", w, None, "extent of the grid not understood")
            return
        scal = {y: num(L.at(y, ())) for a in axes for y in subterms(a) if isinstance(y, T) and y.op == "item" and "Tensor" in X.I.ty(y) and X.I.shape(y) == ()}
        q = mix(*zip(idx, axes))
        axes = [substitute(a, scal) for a in axes]
        ent = [num(L.at(lat, (q, C(k)))) for k in range(D)]
    except NoLower as e:
        c.ob("C14.lattice", w, None, f"grid not understood: {e}")
        return
    mo = S("max_order")

    def mk(f=None):
        N = Norm(X.I, ints=set(idx) | {mo, NB}, nonneg=set(idx) | {mo, NB}, facts=f or {}, fold=None)
        N.intb |= {NB}
        N.nnb |= {NB}
        return N
    N = mk()
    lows, spans, cols = [], [], []
    for k in range(D):
        e = N.norm(ent[k])
        used = [i for i in idx if contains(e, i)]
        if len(used) != 1 or any(y.op in ("item", "unknown", "phi") for y in subterms(e) if isinstance(y, T)):
            c.ob("C14.lattice", w, None, f"coordinate {k} not understood: {pshow(e, 3)[:120]}")
            return
        i = used[0]
        lo = padd(e, i, -1)
        if contains(lo, i):
            st = pd(e).get(((i, cpoly(1)),)) if e.op == "poly" else None
            c.ob("C14.lattice", w, False if st not in (None, 1) else None, f"coordinate {k} runs as {pshow(e, 3)[:120]}: not every integer")
            return
        lows.append(lo)
        cols.append(i)
        spans.append(N.norm(axes[idx.index(i)]))
    if len(set(cols)) != D:
        c.ob("C14.lattice", w, False, f"two coordinates share one grid axis ({[show(x) for x in cols]}): images repeat and others are missing")
        return
    for k in range(D):
        o = N.norm(T("at", NB, C(k))) if nb else mo
        hi = padd(padd(lows[k], spans[k]), cpoly(1), -1)
        dl, dh = padd(pmul(cpoly(-1), o), lows[k], -1), padd(hi, o, -1)   # both must be >= 0 (== 0 without a mask)
        exact = pconst(dl) == 0 and pconst(dh) == 0
        wide = N.sign(dl) in ("0", "0+", "+") and N.sign(dh) in ("0", "0+", "+")
        short = N.sign(dl) == "-" or N.sign(dh) == "-"
        known = not any(y.op in ("unknown", "call", "phi", "item") for z in (lows[k], hi) for y in subterms(z) if isinstance(y, T))
        d = f"coordinate {k} runs from {pshow(lows[k], 3)} to {pshow(hi, 3)}"
        if exact:
            c.ob("C14.lattice", f"{w} axis {k}", True, d)
        elif nb:
            c.ob("C14.lattice", f"{w} axis {k}", False if known and separated(N, lows[k], pmul(cpoly(-1), o), {}) or known and separated(N, hi, o, {}) else None, d + f", requested -{pshow(o)}..{pshow(o)}")
        elif wide and masks:
            c.ob("C14.lattice", f"{w} axis {k}", True, d)
        else:
            c.ob("C14.lattice", f"{w} axis {k}", False if known and (short or sampled_neg(N, dl) or sampled_neg(N, dh)) else None, d + ", but orders up to max_order are requested")
    tot = C(0)
    for k in range(D):
        tot = B("+", tot, T("call", T("ext", "t.abs"), (ent[k],), ()))
    want = TRUE if nb else T("cmp", "<=", tot, mo)
    got = TRUE
    for m in masks:
        got = conj(got, num(L.at(m, (q,)))) if got is not TRUE else num(L.at(m, (q,)))
    if got is TRUE and want is TRUE:
        c.ob("C14.order", w, True, "full grid")
    elif got is TRUE:
        c.ob("C14.order", w, False, "no restriction to total reflection order <= max_order")
    elif want is TRUE:
        c.ob("C14.order", w, False if L.opaque == [] else None, "images of the requested per-axis grid are filtered out")
    else:
        C1 = Cmp(mk)
        r = C1.compare(got, want)
        c.ob("C14.order", w, r, f"images kept when {pshow(N.norm(got), 4)[:160]}, required {pshow(N.norm(want), 4)[:160]}")


def sampled_neg(N, x):
    for seed in range(40):
        try:
            v = Point(seed, N).val(x)
        except (Undefined, TypeError, ZeroDivisionError, OverflowError, ValueError):
            continue
        if isinstance(v, (int, float)) and v < -1e-9:
            return True
    return False
