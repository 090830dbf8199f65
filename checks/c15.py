"""C15: the lowered arrival terms of the dynamic simulator, at every time, source and microphone index, compared in normal form with those of the static simulator; the stages after the accumulation compared; axis order by symbolic shapes."""
from vf.simconf import *
from . import c33

CONFS = [dict(D=3), dict(D=2), dict(D=3, nb=True), dict(D=3, orient="each", patterns=("cardioid", "hypercardioid")), dict(D=3, orient="one", patterns=("cardioid", "hypercardioid")),
         dict(D=2, orient="each", patterns=("subcardioid", "bidir"))]


def check(c):
    for k in CONFS:
        with c.rule("C15.equal", str(k)):
            X, Y = sim(c, False, **k), sim(c, True, **k)
            equal(c, X, Y)
            axes(c, Y)
    with c.rule("C15.single", "single trajectory"):
        Y = sim(c, True, 3, shapes={S("src_traj"): (NT, C(3)), S("mic_traj"): (NT, C(3))})
        single(c, Y)
    with c.rule("C15.post", "after accumulation"):
        post(c)


def post(c):
    """The same stages follow the accumulation: the low-frequency filter runs on both responses or on neither."""
    A, B_ = c33.Run(c, False, 3, False), c33.Run(c, True, 3, False)
    fl = [sorted({callname(x) for x in subterms(R.on) if callname(x) in c33.FILTERS}) for R in (A, B_)]
    raw = [R.on is R.off or all(l in leaves(R.off) for l in leaves(R.on)) for R in (A, B_)]
    r = True if fl[0] == fl[1] else False if any(not f and u for f, u in zip(fl, raw)) else None
    c.ob("C15.post", "low-frequency filter", r, f"both end with {', '.join(fl[0]) or 'the accumulated response'}" if r else f"with the filter enabled the static response ends with {fl[0] or 'no filter'}, the dynamic one with {fl[1] or 'no filter'}")


def relabel(X, t):
    """Static terms with the positions of time step t."""
    def go(x, memo={}):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "at" and x.args[0] in (S("sources"), S("mics")):
            r = T("at", S("src_traj") if x.args[0] is S("sources") else S("mic_traj"), t_, *[go(a) for a in x.args[1:]])
        else:
            r = T(x.op, *[go(a) if isinstance(a, T) else tuple(go(b) if isinstance(b, T) else b for b in a) if isinstance(a, tuple) else a for a in x.args])
        memo[x] = r
        return r
    return go(t)


def equal(c, X, Y):
    a, b = arrival_views(X), arrival_views(Y)
    for v in b:
        for bad in (v["L"].bad if "L" in v else ()):
            c.ob("C15.align", f"{site(v['e'])} ({Y.label})", False, str(bad[1])[:200])
    a, b = [v for v in a if not v["why"]], [v for v in b if not v["why"]]
    if len(a) != 1 or len(b) != 1:
        c.ob("C15.equal", Y.label, None, "arrivals of one of the simulators not understood")
        return
    u, v = a[0], b[0]
    w = f"{site(v['e'])} ({Y.label})"
    if len(v["images"]) > 1:
        c.ob("C15.align", w, False, "operands taken from different images")
        return
    if u["lead"] != ((s_, NS), (m_, NM)) or v["lead"] != ((t_, NT), (s_, NS), (m_, NM)):
        c.ob("C15.equal", w, None, "rows of the response not identified")
        return
    for what in ("pos", "val", "mask"):
        if u.get(what) is None or v.get(what) is None:
            c.ob(f"C15.{what}", w, None if u.get(what) is not v.get(what) else True, "absent in one")
            continue
        x, y = u[what], v[what]
        if what == "pos":
            x = B("-", x, B("*", flat(u["q"]), u["dims"][-1]))
            y = B("-", y, B("*", flat(v["q"]), v["dims"][-1]))
        x = relabel(X, x)
        res = []
        for case in CASES:
            mk = mknorm(Y.I, case)
            k = Cmp(mk)
            r = k.compare(y, x)
            res.append((r, k.witness))
        r = worst(z[0] for z in res)
        wit = next((z[1] for z in res if z[0] is False), None)
        c.ob(f"C15.{what}", w, r, f"dynamic {pshow(wit[1], 4)[:160]} versus static {pshow(wit[2], 4)[:160]}" if wit else "equal to the static term" if r else "terms not comparable")


def axes(c, Y):
    for v in arrival_views(Y):
        if v["dims"] is not None:
            d, want = v["dims"], (NT, NS, NM, S("nsample"))
            w = f"{site(v['e'])} ({Y.label})"
            if len(d) == 4:
                ok = all(p is q for p, q in zip(d, want))
                perm = sorted(x.id for x in d) == sorted(x.id for x in want)
                c.ob("C15.axes", w, True if ok else False if perm else None, f"accumulated with axes ({', '.join(show(x, 2) for x in d)})")
    for r, d in result_dims(Y):
        c.ob("C15.result", f"result ({Y.label})", r, d)


def single(c, Y):
    want = (NT, ONE, ONE, S("nsample"))
    for v in arrival_views(Y):
        if v["dims"] is None:
            c.ob("C15.single", site(v["e"]), None, "shape unknown")
        else:
            d = v["dims"]
            ok = len(d) == 4 and all(p is q for p, q in zip(d, want))
            perm = len(d) == 4 and sorted(x.id for x in d) == sorted(x.id for x in want)
            c.ob("C15.single", site(v["e"]), True if ok else False if perm else None, f"one trajectory gives axes ({', '.join(show(x, 2) for x in d)})")
