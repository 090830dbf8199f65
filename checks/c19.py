"""C19: symbolic evaluation of the value-flow terms returned by the acoustics estimates, per room dimension, compared with Sabine's formula in canonical form; clamp bounds read off the min/max atoms; rounding direction of image counts; the simulator's amplitude term with coefficients taken from T60."""
from vf.law import *
from vf.simconf import *
from vf.alg import psub

SZ, T60, BE, TMAX, CS = S("size"), S("t60"), S("beta"), S("tmax"), S("c")
KS = (0.161, 0.1611, 0.163, 0.16, 0.162, 0.164)
i_ = S("i")


def dims(D, sz=SZ):
    return [T("at", sz, C(d)) for d in range(D)]


def volume(D, sz=SZ):
    l = dims(D, sz)
    return B("*", B("*", l[0], l[1]), l[2]) if D == 3 else B("*", l[0], l[1])


def walls(D, sz=SZ):
    l = dims(D, sz)
    a = [B("*", l[1], l[2]), B("*", l[0], l[2]), B("*", l[0], l[1])] if D == 3 else [l[1], l[0]]
    return [x for x in a for _ in (0, 1)]


def total(xs):
    r = xs[0]
    for x in xs[1:]:
        r = B("+", r, x)
    return r


def unclamp(x):
    """Canonical form without constant bounds, and the bounds."""
    rec = []
    for _ in range(6):
        hit = None
        for y in subterms(x):
            if isinstance(y, T) and y.op == "fn" and y.args[0] in ("max", "min") and len(y.args) == 3:
                k = [a for a in y.args[1:] if pconst(a) is not None]
                o = [a for a in y.args[1:] if pconst(a) is None]
                if len(k) == 1 and len(o) == 1:
                    hit = (y, o[0])
                    rec.append((y.args[0], float(pconst(k[0]))))
                    break
        if hit is None:
            break
        x = psub(x, {hit[0]: hit[1]})
    return x, rec


def check(c):
    used = {}
    f = resolve_public(c.P, "estimate_beta_from_t60")
    for D in (2, 3):
        with c.rule("C19.beta", f"{f} {D}-D"):
            F = Fn(c, f, shapes={SZ: (C(D),)}, ty={T60: NUM}, key=D)
            used["b", D] = beta(c, F, D, f)
    g = resolve_public(c.P, "estimate_t60_from_beta")
    for D in (2, 3):
        with c.rule("C19.t60", f"{g} {D}-D"):
            F = Fn(c, g, shapes={SZ: (C(D),), BE: (C(2 * D),)}, key=D)
            used["t", D] = t60(c, F, D, g)
    for D in (2, 3):
        a, b = used.get(("b", D)), used.get(("t", D))
        c.ob("C19.inverse", f"{D}-D", True if a and b and a == b else False if a and b else None,
             f"both use {a} s/m" if a == b else f"coefficients from T60 use {a}, T60 from coefficients uses {b}" if a and b else "one of the two formulas was not identified")
    h = resolve_public(c.P, "estimate_image_counts_from_tmax")
    for D in (2, 3):
        with c.rule("C19.count", f"{h} {D}-D"):
            F = Fn(c, h, shapes={S("room_size"): (C(D),)}, ty={TMAX: NUM, CS: NUM}, key=D)
            counts(c, F, D, h)
    a = resolve_public(c.P, "attenuation_db_to_time_sabine")
    with c.rule("C19.time", a):
        F = Fn(c, a, ty={T60: NUM, S("att_db"): NUM}, key=0)
        judge(c, "C19.time", a, norms(F.I, pos=(T60, S("att_db"))), F.el(F.ret), B("/", B("*", S("att_db"), T60), C(60)))
    for dyn in (False, True):
        for D in (2, 3):
            with c.rule("C19.simulator", f"dyn={dyn} D={D}"):
                simulator(c, dyn, D, used.get(("b", D)))


def candidates(c, rule, where, mk, got, law, facts=None):
    for k in KS:
        cm = Cmp(mk)
        if cm.compare(got, law(k), facts) is True:
            c.ob(rule, where, True, f"Sabine's formula with {k}")
            return k
    judge(c, rule, where, mk, got, law(KS[0]), facts)
    return None


def beta(c, F, D, f):
    w = f"{f} {D}-D"
    sh = F.shape(F.ret)
    if sh is not None and len(sh) == 1 and sh[0].op == "const":
        c.ob("C19.faces", w, sh[0].args[0] == 2 * D, f"{sh[0].args[0]} coefficients for {2 * D} walls")
    else:
        c.ob("C19.faces", w, None, "length of the result unknown")
    mk = norms(F.I, pos=(T60,), nnb=(SZ,))
    alpha = lambda k: B("/", B("*", C(k), volume(D)), B("*", T60, total(walls(D))))
    ok = None
    for n, (fs, N, (x,)) in enumerate(split(mk, [F.el(F.ret, i_)])):
        y, rec = unclamp(x)
        ww = w if not n else f"{w} case {n}"
        k = candidates(c, "C19.beta", ww, lambda q=None: N, y, lambda k: B("**", B("-", C(1), alpha(k)), C(0.5)), fs)
        ok = k if ok is None or ok == k else False
        hi = [v for kd, v in rec if kd == "min"]
        lo = [v for kd, v in rec if kd == "max"]
        if not rec:
            bad = not any(isinstance(z, T) and z.op == "phi" for z in subterms(x))
            c.ob("C19.range", ww, False if k and bad and not any(z.op == "cmp" and mentions_t60(z) and deep(z) for e in F.raises() for z in e.pc) else None,
                 "absorption is not limited: a short T60 gives the square root of a negative number")
        elif k:
            if len(rec) <= 2 and direct(x):
                v = all(0 < b <= 1 for b in hi) and all(b <= 0.05 for b in lo) and bool(hi)
                c.ob("C19.range", ww, v, f"absorption limited to [{max(lo) if lo else '-'}, {min(hi) if hi else '-'}]")
            else:
                c.ob("C19.range", ww, None, f"bounds {rec}")
    return ok or None


def deep(z):
    return any(isinstance(y, T) and y.op == "bin" for y in subterms(z))


def mentions_t60(z):
    return any(y is T60 for y in subterms(z))


def direct(x):
    """The bounds apply to the absorption itself: 1 - bounded inside the square root."""
    for y in subterms(x):
        if isinstance(y, T) and y.op == "poly":
            for m, co in pd(y).items():
                for a, e in m:
                    if a.op == "fn" and a.args[0] in ("max", "min"):
                        return pconst(e) == 1 and co == -1 and pd(y).get(()) == 1 and len(pd(y)) == 2
    return False


def t60(c, F, D, g):
    w = f"{g} {D}-D"
    areas = walls(D)
    A = total([B("*", a, B("-", C(1), B("**", T("at", BE, C(k)), C(2)))) for k, a in enumerate(areas)])
    mk = norms(F.I, nnb=(SZ,))
    inf = const(float("inf"))
    got = F.el(F.ret)
    best = None
    for k in KS:
        law = T("phi", T("cmp", "<=", A, C(0)), inf, B("/", B("*", C(k), volume(D)), A))
        r = Cmp(mk).compare(got, law)
        if r is True:
            c.ob("C19.t60", w, True, f"Sabine's formula with {k}")
            return k
    # the branch where sound is absorbed decides
    vs = []
    for fs, N, (x, a) in split(mk, [got, A]):
        if any(y is inf for y in subterms(x)):
            continue
        vs.append((x, fs, N))
    for x, fs, N in vs:
        for k in KS:
            if Cmp(lambda q=None: N).compare(x, B("/", B("*", C(k), volume(D)), A), fs) is True:
                best = k
                c.ob("C19.t60", w, None, "guard not understood")
                break
        else:
            judge(c, "C19.t60", w, lambda q=None: N, x, B("/", B("*", C(KS[0]), volume(D)), A), fs)
    if not vs:
        c.ob("C19.t60", w, None, "no finite value returned")
    return best


def counts(c, F, D, h):
    w = f"{h} {D}-D"
    RS = S("room_size")
    sh = F.shape(F.ret)
    c.ob("C19.count-axes", w, None if sh is None or len(sh) != 1 or sh[0].op != "const" else sh[0].args[0] == D, f"one count per axis: {sh}")
    q = B("/", B("*", TMAX, CS), T("at", RS, i_))
    mk = norms(F.I, pos=(TMAX, CS), nnb=(RS,), ints=(i_,))
    for n, (fs, N, (x, y)) in enumerate(split(mk, [F.el(F.ret, i_), q])):
        v, why = covers(N, x, y)
        c.ob("C19.count", w if not n else f"{w} case {n}", v, why)


def covers(N, x, q):
    """x * L >= distance, x given as a rounded expression of q = distance / L."""
    terms = [(m, k) for m, k in pd(x).items() if len(m) == 1 and m[0][0].op == "fn" and m[0][0].args[0] in ("floor", "trunc", "round")]
    if len(terms) != 1 or pconst(terms[0][0][0][1]) != 1:
        d = cancel(padd(x, q, -1))
        k = pconst(d)
        return (k >= 0, f"count - distance / size = {float(k)}") if k is not None else (None, "not a rounded quotient")
    m, k = terms[0]
    a = m[0][0].args[1]
    kind = m[0][0].args[0]
    rest = padd(x, mkpoly({m: k}), -1)
    r = pconst(rest)
    if r is None or abs(k) != 1:
        return None, "not a rounded quotient"
    z = cancel(pmul(pmul(cpoly(k), a), ppow_(q, -1)))          # ratio of the rounded argument to the law
    ratio = pconst(z)
    if ratio is None:
        d = pconst(padd(pmul(cpoly(k), a), q, -1))             # or a constant offset from it
        if d is None:
            return None, f"rounds {pshow(a, 4)[:80]}"
        low = d
    else:
        if ratio < 1:
            return False, f"rounds {pshow(a, 4)[:80]}: {float(ratio)} of the distance over the room size"
        low = 0
    if k == -1:                                                # -floor(-a): up
        low = low + r if kind == "floor" else low + r - 1
    else:                                                      # floor(a) >  a - 1
        low = low + r - (1 if kind in ("floor", "trunc") else 0.5)
    return (True if low >= 0 else False), "at least distance / size" if low >= 0 else f"rounding down: the count can fall {float(-low)} short of distance / size"


def ppow_(q, e):
    from vf.alg import ppow
    return ppow(q, cpoly(e))


def simulator(c, dyn, D, known):
    """Coefficients used when only T60 is given."""
    t60 = attr(ROOM, "t60")
    X = sim(c, dyn, D, beta=False, facts=(neg(T("cmp", "is", t60, NONE)),), tag="t60")
    RS = attr(ROOM, "size")
    for v in arrival_views(X):
        w = f"{site(v['e'])} ({'dynamic' if dyn else 'static'} {D}-D, T60 only)"
        if v["why"]:
            c.ob("C19.simulator", w, None, v["why"])
            continue
        best = None
        for k in (known or KS[0],):
            a = B("/", B("*", C(k), volume(D, RS)), B("*", t60, total(walls(D, RS))))
            a = bounded(X, v, a)
            s = Study(X, v, D, lawkw={"beta": lambda i: B("**", B("-", C(1), a), C(0.5))}, mkargs={"extra": {}})
            r = s.verdict("amp")
            if best is None or r[0] is True:
                best = r
            if r[0] is True:
                break
        c.ob("C19.simulator", w, best[0], best[1])


def bounded(X, v, a):
    """The law's absorption with the bounds the code applies (their admissibility is C19.range)."""
    N = mknorm(X.I, "even>=0")()
    x = N.norm(v["val"])
    mx = [y for y in subterms(x) if isinstance(y, T) and y.op == "fn" and y.args[0] in ("max", "min") and len(y.args) == 3 and any(pconst(z) is not None for z in y.args[1:])]
    lo = [pconst(z) for y in mx for z in y.args[1:] if y.args[0] == "max" and pconst(z) is not None and pconst(z) == 0]
    hi = [pconst(z) for y in mx for z in y.args[1:] if y.args[0] == "min" and pconst(z) is not None and 0 < pconst(z) <= 1]
    if hi:
        a = T("call", T("ext", "builtins.min"), (a, C(float(hi[0]))), ())
    if lo:
        a = T("call", T("ext", "builtins.max"), (C(0), a), ())
    return a
