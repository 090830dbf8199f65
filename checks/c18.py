"""C18: per-pattern specialisation of the gain function, compared in normal form with the documented formula; lowered arrival amplitudes compared with the law for source and microphone orientations in vector and angle form; refusal paths of unknown patterns and missing orientation."""
from vf.simconf import *

ALIASES = {"omni": ("omni", "omnidirectional"), "homni": ("homni", "halfomni", "half-omni"), "subcardioid": ("subcardioid", "subcard"), "cardioid": ("cardioid", "card"),
           "hypercardioid": ("hypercardioid", "hypcard"), "bidir": ("bidir", "bidirectional", "figure8", "figure-8")}
X_ = S("cos")


def gain_function(P):
    hits = [f for f, m, n, o in all_functions(P) if f.rsplit(".", 1)[-1] == "directivity_gain"]
    if not hits:
        raise AnalysisBroken("directivity_gain not found")
    return hits[0]


def check(c):
    full = gain_function(c.P)
    for canon, names in ALIASES.items():
        for nm in names + (names[0].upper(),):
            with c.rule("C18.formula", nm):
                formula(c, full, canon, nm)
    for nm in ("no-such-pattern", "", "cardioid2"):
        with c.rule("C18.unknown", nm):
            r = c.run(full, args=(const(nm), X_), shapes={X_: (S("n"),)}, symty={X_: TENSOR}, updates="ops")
            returned = r.ret is not None and r.state is not None
            c.ob("C18.unknown", f"{full} {nm!r}", False if returned else True, "an unknown pattern is given a gain" if returned else "rejected")
    for dyn in (False, True):
        with c.rule("C18.omni", f"dyn={dyn}"):
            base = study(sim(c, dyn, 3))
        fine = bool(base) and all(s.verdict("amp")[0] is True for _v, s in base)
        for k in [dict(D=3, orient="each", patterns=("cardioid", "hypercardioid")), dict(D=3, orient="one", patterns=("subcardioid", "bidir")),
                  dict(D=2, orient="each", patterns=("omni", "cardioid")), dict(D=2, orient="each", patterns=("hypercardioid", "omni")),
                  dict(D=3, orient="each", patterns=("homni", "homni"))]:
            with c.rule("C18.applied", str((dyn, k))):
                applied(c, sim(c, dyn, **k), fine)
        for which in ((NONE, MO), (SO, NONE), None):
            with c.rule("C18.needed", str((dyn, which))):
                needed(c, dyn, which)
    hits = [f for f, m, n, o in all_functions(c.P) if f.rsplit(".", 1)[-1] == "orientation_to_unit"]
    for full2 in hits[:1]:
        for D, shp, lead in ((3, (NS, C(2)), 1), (3, (NS, C(3)), 1), (2, (NS, ONE), 1), (2, (NS, C(2)), 1), (3, (C(2),), 0), (3, (C(3),), 0), (2, (C(2),), 0)):
            with c.rule("C18.unit", f"{D}-D {len(shp)} axes of {show(shp[-1])}"):
                unit(c, full2, D, shp, lead)


def formula(c, full, canon, nm):
    r = c.run(full, args=(const(nm), X_), shapes={X_: (S("n"),)}, symty={X_: TENSOR}, updates="ops")
    w = f"{full} {nm!r}"
    if r.ret is None or r.state is None:
        c.ob("C18.formula", w, False, "a documented pattern is rejected")
        return
    L = Lower(r.I, leaves={X_})
    i = S("i")
    got = num(L.at(r.ret, (i,)))
    k = Cmp(lambda f=None: Norm(r.I, facts=f or {}))
    x = T("at", X_, i)
    v = k.compare(got, PATTERN[canon](x))
    c.ob("C18.formula", w, v, f"gain {pshow(k.witness[1], 4)}, documented {pshow(k.witness[2], 4)}" if k.witness else "documented formula")


def unit(c, full, D, shp, lead):
    """Angles and vectors become unit direction vectors: (azimuth, elevation), one planar angle, or a vector over its norm."""
    r = c.run(full, args=(SO, const(D)), shapes={SO: shp}, symty={SO: TENSOR}, updates="ops")
    w = f"{full} {D}-D, {len(shp)} axes, last of {show(shp[-1])}"
    if r.ret is None or r.state is None:
        c.ob("C18.unit", w, False, "a documented orientation form is rejected")
        return
    e = (s_,) if lead else ()
    L = Lower(r.I, leaves={SO})
    k = shp[-1].args[0]
    at = lambda i: T("at", SO, *e, i)
    f = lambda n, x: T("call", T("ext", "t." + n), (x,), ())
    if k == D:
        vec = [B("/", at(C(i)), norm_(at(T("bv", 0)), D)) for i in range(D)]
    elif D == 2:
        vec = [f("cos", at(C(0))), f("sin", at(C(0)))]
    else:
        a, el = at(C(0)), at(C(1))
        vec = [B("*", f("cos", el), f("cos", a)), B("*", f("cos", el), f("sin", a)), f("sin", el)]
    for i in range(D):
        got = num(L.at(r.ret, e + (C(i),)))
        K = Cmp(lambda ff=None: Norm(r.I, facts=ff or {}, epsmax=1e-3))
        v = K.compare(got, vec[i])
        c.ob("C18.unit", f"{w} component {i}", v, f"{pshow(K.witness[1], 4)[:150]}, documented {pshow(K.witness[2], 4)[:150]}" if K.witness else "documented direction")


def applied(c, X, fine):
    for v, s in study(X):
        w = f"{site(v['e'])} ({X.label})"
        r, d = s.verdict("amp")
        if r is False and not fine:
            r, d = None, "the omnidirectional amplitude already differs"
        c.ob("C18.applied", w, r, d or "gain of the image-to-microphone direction, and of its opposite at the microphone")
        if "align" in s.v:
            r, d = s.verdict("align")
            c.ob("C18.align", w, r, d)


def needed(c, dyn, which):
    sh = {x: (C(3),) for x in (which or ()) if x is not NONE}
    X = Sim(c, dyn, 3, kw={"directivity": const("cardioid"), "orientation": NONE if which is None else T("tuple", *which)}, extra_shapes=sh,
            extra_ty={x: TENSOR for x in sh}, key=("needed", which))
    w = f"{X.full} cardioid, orientation {'None' if which is None else tuple(show(x) for x in which)}"
    arr = X.arrivals()
    c.ob("C18.needed", w, True if not arr else False, "refused" if not arr else "a directional pattern is evaluated without an orientation")
