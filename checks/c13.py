"""C13: extracted expressions of the geometry and acoustics helpers (through client programs) and of every arrival and tail sample of both simulators, evaluated with floating-point division rules at the degenerate inputs; explicit errors are followed through their path conditions."""
import math
from vf.law import *
from vf.simconf import *
from vf.rules import *
from vf.lower import Lower, NoLower
from vf.simlib import arrival_views
from vf.degen import Degen, Unknown_

i_ = S("i")
G = "torchrir.geometry"


class Input:
    """Values of the inputs at one degenerate point."""

    def __init__(self, vec=None, num=None, guess=True):
        self.vec, self.num = vec or {}, num or {}
        self.guess = guess

    def __call__(self, D, t, env):
        if t.op == "at":
            b = t.args[0]
            f = self.vec.get(b)
            ix = [D.val(x, env) for x in t.args[1:]]
            if any(x != x for x in ix):
                return float("nan")
            if f is not None:
                return f(*[int(x) for x in ix])
            if b.op == "call" and str(callname(b)).startswith(("torch.randn", "torch.rand", "t.sinc", "torch.hann")):
                return 0.7
            return None
        if t in self.num:
            return self.num[t]
        n = callname(t) if t.op == "call" else None
        if n and n.startswith(("vf.hann", "torch.rand")):
            return 0.7
        if t.op == "cmp" and t.args[0] == "is":
            return None
        return None


def report(c, rule, at, D, v, what):
    if math.isnan(v) or math.isinf(v):
        z = next((x for x in D.zero), None)
        c.ob(rule, at, False, f"{what} is {'NaN' if v != v else 'infinite'}" + (f": {show(z.args[2] if z.op == 'bin' else z, 4)[:90]} is zero there" if z is not None else ""))
        return False
    return True


def taken(I, pc, inp):
    """The path is taken at this input: True / False / None."""
    r = True
    for q in pc:
        L = Lower(I)
        D = Degen(inp, L)
        try:
            if not D.val(L.at(q, ())):
                return False
        except (Unknown_, NoLower, TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, RecursionError):
            r = None
    return r


def scenario(c, rule, at, src, key, shapes, ty, inp, fin="", inf_ok=False):
    """The client program fails with an error or returns finite numbers."""
    with c.rule(rule, at):
        r = c.user(src, key, shapes=shapes, symty=ty)
        I = r.I
        seen = [taken(I, e.pc, inp) for e in r.events if e.kind == "raise"]
        if True in seen or r.state is None or isinstance(r.ret, T) and r.ret.op == "dead":
            c.ob(rule, at, True, "rejected with an error")
            return
        t = I.freeze(r.state, r.ret)
        outs = t.args if t.op == "tuple" else (t,)
        good, n = True, 0
        for o in outs:
            sh = I.shape(o)
            dims = [d.args[0] if d.op == "const" else None for d in sh] if sh is not None else []
            if None in dims:
                dims = [2 if d is None else d for d in dims]
            for ix in indices(dims):
                L = Lower(I)
                D = Degen(inp, L)
                try:
                    v = D.val(L.at(o, tuple(const(x) for x in ix)))
                except (Unknown_, NoLower, TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, RecursionError) as ex:
                    c.ob(rule, at, None, f"not followed: {show(ex.args[0], 3)[:90] if ex.args and isinstance(ex.args[0], T) else ex}")
                    return
                n += 1
                if inf_ok and v == math.inf:
                    continue
                if not isinstance(v, (int, float)):
                    continue
                if math.isnan(v) or math.isinf(v):
                    if None in seen:
                        c.ob(rule, at, None, "an error may be raised first")
                        return
                    report(c, rule, at, D, v, "the result")
                    return
        c.ob(rule, at, True if n else None, f"{n} values finite{fin}")


def indices(dims):
    out = [()]
    for d in dims:
        out = [o + (k,) for o in out for k in (range(d) if d <= 4 else (0, d // 2, d - 1))]
    return out


def rows(*vs):
    return lambda *ix: vs[ix[0] % len(vs)][ix[1]] if len(ix) == 2 else vs[0][ix[0]]


ZERO3, GEN3 = (0.0, 0.0, 0.0), (0.3, -1.1, 0.7)
AXES = {"x": (1.0, 0.0, 0.0), "-x": (-1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "-y": (0.0, -1.0, 0.0), "z": (0.0, 0.0, 1.0), "-z": (0.0, 0.0, -1.0), "long x": (4.0, 0.0, 0.0), "generic": GEN3}


def helpers(c):
    v, w, x = S("v"), S("w"), S("x")
    U = "torchrir.util.orientation"
    # orientations
    for shp, val, nm in (((const(3),), rows(ZERO3), "zero vector"), ((const(2), const(3)), rows(GEN3, ZERO3), "zero row"), ((const(2), const(2), const(3)), lambda a, b, k: GEN3[k] if a else 0.0, "zero rows in a batch"), ((const(2), const(3)), rows(GEN3, AXES["-z"]), "ordinary")):
        scenario(c, "C13.orientation", f"normalize_orientation, {nm}", f"from {U} import normalize_orientation as f\ndef use(v):\n    return f(v)\n", ("c13-no", nm), {v: shp}, {v: TEN}, Input({v: val}))
        scenario(c, "C13.orientation", f"orientation_to_unit 3-D, {nm}", f"from {U} import orientation_to_unit as f\ndef use(v):\n    return f(v, 3)\n", ("c13-ou", nm), {v: shp}, {v: TEN}, Input({v: val}))
    for shp, val, nm in (((const(2),), rows((0.0, 0.0)), "zero vector"), ((const(2), const(2)), rows((0.5, 1.0), (0.0, 0.0)), "zero row")):
        scenario(c, "C13.orientation", f"orientation_to_unit 2-D, {nm}", f"from {U} import orientation_to_unit as f\ndef use(v):\n    return f(v, 2)\n", ("c13-ou2", nm), {v: shp}, {v: TEN}, Input({v: val}))
    # arrays
    for nm, val in dict(AXES, zero=ZERO3).items():
        scenario(c, "C13.array", f"linear_array, direction {nm}", f"from {G}.arrays import linear_array as f\ndef use(v, w):\n    return f(w, num=3, spacing=0.1, direction=v)\n", ("c13-lin",), {v: (const(3),), w: (const(3),)}, {v: TEN, w: TEN},
                 Input({v: rows(val), w: rows((1.0, 2.0, 1.5))}))
        scenario(c, "C13.array", f"circular_array, normal {nm}", f"from {G}.arrays import circular_array as f\ndef use(v, w):\n    return f(w, num=3, radius=0.1, normal=v)\n", ("c13-circ",), {v: (const(3),), w: (const(3),)}, {v: TEN, w: TEN},
                 Input({v: rows(val), w: rows((1.0, 2.0, 1.5))}))
    for n in (1, 2):
        scenario(c, "C13.array", f"linear_array, {n} microphone{'s' if n > 1 else ''}", f"from {G}.arrays import linear_array as f\ndef use(w):\n    return f(w, num={n}, spacing=0.1)\n", ("c13-lin1", n), {w: (const(3),)}, {w: TEN}, Input({w: rows((1.0, 2.0, 1.5))}))
        scenario(c, "C13.array", f"circular_array, {n} microphone{'s' if n > 1 else ''}", f"from {G}.arrays import circular_array as f\ndef use(w):\n    return f(w, num={n}, radius=0.1)\n", ("c13-circ1", n), {w: (const(3),)}, {w: TEN}, Input({w: rows((1.0, 2.0, 1.5))}))
    # trajectories
    P, Q = (1.0, 2.0, 1.5), (2.0, 0.5, 1.2)
    for steps in (1, 2, 3):
        for nm, end in (("moving", Q), ("start equals end", P)):
            scenario(c, "C13.trajectory", f"linear_trajectory, {steps} step{'s' if steps > 1 else ''}, {nm}", f"from {G}.trajectories import linear_trajectory as f\ndef use(v, w):\n    return f(v, w, {steps})\n", ("c13-traj", steps), {v: (const(3),), w: (const(3),)},
                     {v: TEN, w: TEN}, Input({v: rows(P), w: rows(end)}))
    # room acoustics
    A = "torchrir.util.acoustics"
    for D in (2, 3):
        size = (5.0, 4.0, 3.0)[:D]
        for nm, b in (("perfectly reflecting", 1.0), ("perfectly absorbing", 0.0), ("inverting", -1.0), ("ordinary", 0.9)):
            scenario(c, "C13.acoustics", f"estimate_t60_from_beta {D}-D, {nm} walls", f"from {A} import estimate_t60_from_beta as f\ndef use(v, w):\n    return f(v, w)\n", ("c13-t60", D), {v: (const(D),), w: (const(2 * D),)}, {v: TEN, w: TEN},
                     Input({v: rows(size), w: (lambda b: lambda *k: b)(b)}), " or a reverberation time without end", inf_ok=True)
        for nm, b in (("tiny", 1e-9), ("zero", 0.0), ("huge", 1e12), ("ordinary", 0.4)):
            scenario(c, "C13.acoustics", f"estimate_beta_from_t60 {D}-D, {nm} reverberation time", f"from {A} import estimate_beta_from_t60 as f\ndef use(v, x):\n    return f(v, x)\n", ("c13-beta", D), {v: (const(D),)}, {v: TEN, x: NUM}, Input({v: rows(size)}, {x: b}))
        for nm, b in (("zero", 0.0), ("tiny", 1e-9), ("ordinary", 0.3)):
            scenario(c, "C13.acoustics", f"estimate_image_counts_from_tmax {D}-D, {nm} length", f"from {A} import estimate_image_counts_from_tmax as f\ndef use(v, x):\n    return f(x, v)\n", ("c13-cnt", D), {v: (const(D),)}, {v: TEN, x: NUM}, Input({v: rows(size)}, {x: b}))
    for a, b in ((60.0, 0.4), (0.0, 0.4), (60.0, 0.0)):
        scenario(c, "C13.acoustics", f"attenuation_db_to_time_sabine({a}, {b})", f"from {A} import attenuation_db_to_time_sabine as f\ndef use(v, x):\n    return f(v, x)\n", ("c13-att",), {}, {v: NUM, x: NUM}, Input({}, {v: a, x: b}))


# ---------------------------------------------------------------- simulators
POS = (2.1, 1.7, 1.3)
OTHER = (3.4, 0.9, 2.2)
SIZE = (5.0, 4.0, 3.0)


def inputs(X, where, beta, ori, lut, image=0, time=0):
    """Values at a simulated scene: source and microphone positions, wall coefficients, orientations."""
    src, mic = where
    vec = {attr(ROOM, "size"): lambda k: SIZE[k], attr(ROOM, "beta"): lambda k: beta, LAT: lambda j, k: image if k == 0 else 0}
    for a, b in (("sources", src), ("mics", mic), ("src_traj", src), ("mic_traj", mic)):
        vec[S(a)] = (lambda b: lambda *ix: b[ix[-1]])(b)
    for a in (SO, MO):
        vec[a] = (lambda o: lambda *ix: o[ix[-1]])(ori)
    num = {ROOM: 1, attr(ROOM, "c"): 343.0, attr(ROOM, "fs"): 16000, s_: 0, m_: 0, j_: 0, t_: 0, n_: 40, NS: 2, NM: 2, NT: 3, KK: 4, S("nsample"): 4000, S("max_order"): 1, S("tdiff"): 0.1,
           attr(CFG, "frac_delay_length"): 81, attr(CFG, "sinc_lut_granularity"): 20, attr(CFG, "use_lut"): lut, attr(CFG, "mixed_precision"): False, attr(CFG, "fs"): 16000}
    num[attr(DEV, "type")] = "cpu"
    return Input(vec, num)


def cases(X):
    oris = {"facing": (0.6, 0.8, 0.0), "turned away": (-1.0, 0.0, 0.0)} if X.gain is not None else {"": (1.0, 0.0, 0.0)}
    if X.gain is not None:
        oris["zero orientation"] = ZERO3
    for wn, where in (("source at the microphone", (POS, POS)), ("source and microphone on the same wall point", ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0))), ("apart", (POS, OTHER)), ("source above the microphone", (POS, POS[:2] + (2.0,)))):
        for bn, beta in (("", 0.9), (", reflecting walls", 1.0), (", absorbing walls", 0.0)):
            for on, o in oris.items():
                for lut in (True, False):
                    for im in (0, 1, -1):
                        yield f"{wn}{bn}" + (f", {on}" if on else ""), (where, beta, o, lut, im)


def rejected(X, inp):
    """The simulator raises an error about its positions or orientations at this input."""
    res = False
    for e in X.r.events:
        if e.kind != "raise":
            continue
        qs = [q for q in e.pc if any(contains(q, g) for g in (S("sources"), S("mics"), S("src_traj"), S("mic_traj"), SO, MO)) and not shapely(q)]
        if not qs:
            continue
        r = True
        for q in qs:
            L = X.lower()
            D = Degen(inp, L)
            try:
                if not D.val(L.at(X.sub(q), ())):
                    r = False
                    break
            except (Unknown_, NoLower, TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, RecursionError):
                r = None
        if r:
            return True
        if r is None:
            res = None
    return res


def shapely(q):
    """A condition about kinds and sizes only."""
    return not any(isinstance(x, T) and (x.op == "call" and callname(x) in ("t.any", "t.all", "t.norm", "t.min", "t.max", "t.amin", "t.amax", "t.sum", "t.item") or x.op in ("red", "at")) for x in subterms(q))


def arrival(c, X):
    views = arrival_views(X)
    if not views:
        c.ob("C13.arrival", X.label, None, "no accumulation into the response found")
    for v in views:
        if v["why"]:
            c.ob("C13.arrival", X.label, None, v["why"])
            continue
        bad = set()
        for nm, k in cases(X):
            at = f"{X.label}: {nm}"
            if at in bad:
                continue
            inp = inputs(X, *k)
            D = Degen(inp)
            try:
                p = D.val(v["pos"])
                a = D.val(v["val"])
            except (Unknown_, TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, RecursionError) as ex:
                c.ob("C13.arrival", at, None, f"not followed: {show(ex.args[0], 3)[:90] if ex.args and isinstance(ex.args[0], T) else ex}")
                bad.add(at)
                continue
            if not (math.isfinite(p) and math.isfinite(a)):
                rj = rejected(X, inp)
                if rj is not False:
                    c.ob("C13.arrival", at, rj, "rejected with an error" if rj else "an error may be raised first")
                    continue
            if report(c, "C13.arrival", at, D, p, "the arrival time") and report(c, "C13.arrival", at, D, a, "the amplitude"):
                c.ob("C13.arrival", at, True, "time and amplitude are finite")
            else:
                bad.add(at)


def tail(c, dyn):
    """Values stored into the response besides the arrivals."""
    X = Sim(c, dyn, 3, kw={"tdiff": S("tdiff")}, extra_ty={S("tdiff"): frozenset({"float"})}, key="tdiff")
    I = X.I
    n = 0
    for e in X.r.events:
        if e.kind != "setitem" or not isinstance(e.args[0], T):
            continue
        sh = I.shape(e.args[0])
        if sh is None or len(sh) != 3 or sh[-1] is not S("nsample"):
            continue
        n += 1
        for bn, beta in (("reflecting walls", 1.0), ("inverting walls", -1.0), ("absorbing walls", 0.0), ("ordinary walls", 0.9)):
            at = f"diffuse tail, {bn}"
            inp = inputs(X, (POS, POS), beta, GEN3, True)
            D = Degen(inp)
            try:
                v = D.val(Lower(I).at(e.args[2], (s_, m_, S("n"))))
            except (Unknown_, NoLower, TypeError, ValueError, IndexError, ZeroDivisionError, OverflowError, RecursionError) as ex:
                c.ob("C13.tail", at, None, f"not followed: {show(ex.args[0], 3)[:120] if ex.args and isinstance(ex.args[0], T) else ex}")
                continue
            if report(c, "C13.tail", at, D, v, "a sample of the tail"):
                c.ob("C13.tail", at, True, "finite")
    if not n:
        c.ob("C13.tail", "diffuse tail", None, "no store into the response found")


def check(c):
    for m in ("torchrir.util.orientation", G + ".arrays", G + ".trajectories", "torchrir.util.acoustics"):
        if m not in c.P.modules:
            raise SystemExit(f"module {m} not found")
    helpers(c)
    for dyn in (False, True):
        for k in (dict(D=3), dict(D=2), dict(D=3, orient="each", patterns=("cardioid", "hypercardioid")), dict(D=2, orient="each", patterns=("bidir", "cardioid"))):
            with c.rule("C13.arrival", f"dyn={dyn} {k}"):
                arrival(c, sim(c, dyn, **k))
    with c.rule("C13.tail", "diffuse tail"):
        tail(c, False)
