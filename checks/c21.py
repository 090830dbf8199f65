"""C21: every accumulation into the array dynamic convolution returns is lowered to symbolic indices; the part each time step gets (start, length) is compared with the partition law of its mode, and the convolution, the place where its full tail is added, the operand indices, the loop ranges, the conditions that skip a part and the early ends of loops are compared with that law. Invalid modes, timestamps and counts are shown never to reach a return."""
from vf.conv import *
from .c20 import exclusive, stops

CV = S("conv")
SG, RR, n, L_ = S("signal"), S("rirs"), S("n"), S("L")
MODE, HOP, TS, FS = (attr(CV, x) for x in ("mode", "hop", "timestamps", "fs"))
TYS = {CV: frozenset({"DynamicConvolver"}), NS: INT, NM: INT, NT: INT, n: INT, L_: INT, S("P"): INT, S("Q"): INT, HOP: INT, FS: NUM, TS: TEN}
some = lambda x: neg(T("cmp", "is", x, NONE))


def run(c, key, sg, rr, mode, pre=(), ts=None):
    sh = {SG: sg, RR: rr}
    if ts is not None:
        sh[TS] = ts
    m = [T("cmp", "==", MODE, C(mode))] if mode else []
    return Fn(c, resolve_method(c.P, "DynamicConvolver", "convolve"), args=(CV, SG, RR), shapes=sh, ty={k: v for k, v in TYS.items() if k is not TS or ts is not None}, pre=m + list(pre), updates=True, key=key)


def trunc(x):
    return T("call", T("ext", "math.trunc"), (x,), ())


def bounds(kind, N=None):
    """First sample of part t; the sample after the last one is the signal length."""
    if kind == "equal":
        w = lambda t: T("call", T("ext", "math.floor"), (B("*", t, B("/", n, NT)),), ())
    else:
        w = lambda t: trunc(B("*", T("at", TS, t), FS))
    return lambda t: phi(T("cmp", "<", t, NT), w(t), n)


def law(kind):
    if kind == "hop":
        return lambda t: (B("*", t, HOP), B("-", call("builtins.min", n, B("+", B("*", t, HOP), HOP)), B("*", t, HOP)), [T("cmp", "<", B("*", t, HOP), n)])
    W = bounds(kind)
    le = lambda a, b: T("cmp", "<=", a, b)
    return lambda t: (W(t), B("-", W(one(t)), W(t)), [le(C(0), W(t)), le(W(t), W(one(t))), le(W(one(t)), n), le(one(t), NT)])


def study(c, kind, sg, rr, names, M, pre=()):
    w = f"{kind}: signal {len(sg)}-D, responses {len(rr)}-D, {'one microphone' if M is ONEC else 'M microphones'}"
    pre = list(pre) + ([neg(T("cmp", "==", NM, ONEC))] if M is NM else [])
    pre += {"hop": [some(HOP)], "equal": [T("cmp", "is", TS, NONE)], "timestamps": [some(TS), some(FS)]}[kind]
    F = run(c, ("c21", kind, sg, rr), sg, rr, "hop" if kind == "hop" else "trajectory", pre, ts=(NT,) if kind == "timestamps" else None)
    if F.r.state is None:
        c.ob("C21.result", w, None, "never returns")
        return
    st = Study(c, "C21", w, F, SG, RR, rr, sg, pos=(NS, NM, NT, n, L_, HOP, FS), extra_ints=(NS, NM, NT, n, L_, HOP), nnb=(TS,))
    st.names = names
    if sg[0] is n:
        st.sigdims = (ONEC, n)
    got = st.contributions()
    if got is None:
        st.ob("sum", None, "accumulation not recognised")
        return
    out, cs = got
    exclusive(st, cs)
    fr = None
    if kind == "hop":
        fr = call("builtins.min", NT, T("call", T("ext", "math.ceil"), (B("/", n, HOP),), ()))
    for e, idx, v, over in cs:
        st.accumulate(out, e, idx, v, over, law(kind), frames=fr)
    # what is returned
    lead = M is NM
    k = (S("m"), S("k")) if lead else (S("k"),)
    s = F.I.shape(F.ret)
    if s is not None and len(s) != len(k):
        st.ob("result.shape", False, f"result has {len(s)} dimensions, expected {len(k)}")
        return
    if s is not None and kind != "hop":
        st.index("result.shape", st.low(s[-1]), B("-", B("+", n, L_), ONEC), "length of the result")
    e = st.canon(st.L.at(F.ret, k))
    while e.op == "bin" and e.args[0] == "+" and e.args[1].op in ("at", "bin"):
        e = e.args[1]
    if e.op == "at" and e.args[0] is st.canon(out):
        for a, b in zip(e.args[1:], k if lead else (ZEROC,) + k):
            st.index("result.entries", a, b, "entries returned in place")
    else:
        st.ob("result.entries", None, f"returned entry {show(e, 3)[:80]}")
    if kind == "timestamps":
        partition(c, st, F, w)


def shapes(c, kind):
    """One row per microphone, a single row without the leading dimension, for every small count."""
    pre = {"hop": [some(HOP)], "equal": [T("cmp", "is", TS, NONE)], "timestamps": [some(TS), some(FS)]}[kind]
    for s in (1, 2):
        for m in (1, 2):
            F = run(c, ("shape", kind, s, m), (C(s), n), (NT, C(s), C(m), L_), "hop" if kind == "hop" else "trajectory", pre, ts=(NT,) if kind == "timestamps" else None)
            for sh in [F.shape(x) for x in leaves(F.ret)] if F.r.state is not None else [None]:
              c.ob("C21.result.shape", f"{kind}: {s} sources, {m} microphones", None if sh is None else len(sh) == (1 if m == 1 else 2), f"{len(sh)} dimensions" if sh is not None else "not known")


def partition(c, st, F, w):
    """Returning requires a first timestamp of zero and boundaries that never decrease up to the signal's end."""
    W = bounds("timestamps")
    pc = list(F.r.state.pc)
    N = st.norms()()
    j = S("j")
    ints = st.norms
    # first boundary
    zero = [x for x in pc if x.op == "cmp" and x.args[0] == "==" and TS in list(subterms(x)) and x.args[2] in (ZEROC, C(0.0))]
    ok = None
    for x in zero:
        v = st.canon(st.L.at(x.args[1], (ZEROC,) if st.L.rank(x.args[1]) else ()))
        a = st.cmp(v, T("at", TS, ZEROC))
        b = st.cmp(v, trunc(B("*", T("at", TS, ZEROC), FS)))
        if a is True or b is True:
            ok = True
    if ok is None and not any(TS in list(subterms(x)) for x in pc if x.op != "cmp" or x.args[0] != "is"):
        ok = False
    if ok is None and not zero:
        later = [x for x in pc if TS in list(subterms(x)) and any(callname(y) in ("t.any", "t.all", "builtins.any", "builtins.all") or y.op == "red" for y in subterms(x))]
        if len([x for x in pc if TS in list(subterms(x)) and not (x.op == "not" and x.args[0].op == "cmp" and x.args[0].args[0] == "is")]) == len(later):
            ok = False
    if ok is None and late(st, pc):
        ok = False
    c.ob("C21.partition.first", w, ok, "the first part starts at sample 0" if ok else "timestamps whose first entry is not 0 are accepted: the samples before it belong to no part")
    # monotone
    got = False
    und = False
    for x in pc:
        q = x.args[0] if x.op == "not" else x
        if q.op == "truth":
            q = q.args[0]
        nm = callname(q)
        if nm in ("t.any", "t.all") and cargs(q):
            b = cargs(q)[0]
            sh = F.I.shape(b)
            if sh is None or len(sh) != 1:
                und = True
                continue
            el = st.canon(st.L.at(b, (j,)))
            good = (x.op == "not") == (nm == "t.any")
            if not good or el.op != "cmp":
                und = True
                continue
            z = neg(el) if nm == "t.any" else el
            # el false (any) or true (all) for every j: W(j+1) >= W(j)
            rng = st.low(sh[0])
            r = impl(st, [z], T("cmp", "<=", W(j), W(one(j))), j)
            full = st.cmp(rng, NT)
            if r is True and full is True:
                got = True
            else:
                und = und or r is None or full is None
                if r is True and full is False:
                    # the range leaves out a boundary
                    got = got or False
    r = True if got else None if und else False
    if r is False and any(x.op in ("forall", "exitcond") or TS in list(subterms(x)) and x.op not in ("cmp", "not") for x in pc):
        r = None
    c.ob("C21.partition.order", w, r, "boundaries never decrease and end at the signal's end" if r else "timestamps that decrease or pass the signal's end are accepted")


def late(st, pc):
    """A first timestamp of one second satisfies every test made of it; the other tests only order the boundaries."""
    T0, seen = T("at", TS, ZEROC), False
    for x in pc:
        if TS not in list(subterms(x)):
            continue
        q = x.args[0] if x.op == "not" else x
        z = q.args[0] if q.op == "truth" else q
        if q.op == "cmp" and q.args[0] == "is" or callname(z) in ("t.any", "t.all", "builtins.any", "builtins.all"):
            continue
        if q.op != "cmp" or q.args[0] not in ("<", "<=", "=="):
            return False
        try:
            a, b = [st.canon(st.L.at(y, ())) for y in q.args[1:]]
        except NoLower:
            return False
        if {y for t in (a, b) for y in subterms(t) if isinstance(y, T) and y.op == "at" and y.args[0] is TS} != {T0}:
            return False
        N = st.norms()()
        a, b = [N.norm(substitute(t, {T0: C(1)})) for t in (a, b)]
        pos = [T("cmp", "<", ZEROC, N.norm(FS))]
        l = T("cmp", q.args[0], a, b)
        goals = [l if x is q else neg(l)]
        if x.op == "not" and q.args[0] == "==" or any(poly.implies(pos, g, leafany) is not True for g in goals):
            return False
        seen = True
    return seen


def impl(st, facts, goal, j):
    mk = st.norms()
    r = True
    for f, N, fs in split(lambda ff: norms(st.I, ints=set(st.ints) | {j}, nonneg=(j,), pos=st.pos, nnb=st.nnb, facts=ff)(), [B("-", goal.args[2], goal.args[1])] + [x for q in facts for x in (q if q.op == "cmp" else q.args[0]).args[1:]]):
        cs = [k if v else neg(k) for k, v in f.items()]
        it = iter(fs[1:])
        lits = []
        for q in facts:
            m = q if q.op == "cmp" else q.args[0]
            l = T("cmp", m.args[0], next(it), next(it))
            lits.append(l if q is m else neg(l))
        a = poly.implies(cs + lits + [T("cmp", "<", j, NT)], T("cmp", "<=", ZEROC, fs[0]), leafany)
        if a is not True:
            r = a if r is True or a is False else r
    return r


def leafany(t):
    return t if t.op in ("at", "attr", "fn", "sym", "item") or t.op == "poly" and len(t.args[0]) == 1 and len(t.args[0][0][0]) > 1 else None


def rejects(c):
    P, Q = S("P"), S("Q")
    big = lambda a, b: [neg(T("cmp", "==", a, ONEC)), T("cmp", "<", b, a), neg(T("cmp", "==", a, b)), neg(T("cmp", "==", b, a))]
    dyn = (NT, NS, NM, L_)
    notmode = [neg(T("cmp", "==", MODE, C("trajectory"))), neg(T("cmp", "==", MODE, C("hop")))]
    stops(c, "C21.reject", "unknown mode", run(c, "r1", (NS, n), dyn, None, notmode + [T("cmp", "is", TS, NONE)]), pos=(NS, NM, NT, n, L_))
    stops(c, "C21.reject", "hop mode without a hop", run(c, "r2", (NS, n), dyn, "hop", [T("cmp", "is", HOP, NONE)]))
    stops(c, "C21.reject", "timestamps without a sampling rate", run(c, "r3", (NS, n), dyn, "trajectory", [some(TS), T("cmp", "is", FS, NONE)], ts=(NT,)))
    stops(c, "C21.reject", "more timestamps than steps", run(c, "r4", (NS, n), dyn, "trajectory", [some(TS), some(FS), T("cmp", "<", NT, Q), neg(T("cmp", "==", Q, NT)), neg(T("cmp", "==", NT, Q))], ts=(Q,)), pos=(NS, NM, NT, n, L_, Q))
    stops(c, "C21.reject", "fewer timestamps than steps", run(c, "r5", (NS, n), dyn, "trajectory", [some(TS), some(FS), T("cmp", "<", Q, NT), neg(T("cmp", "==", Q, NT)), neg(T("cmp", "==", NT, Q))], ts=(Q,)), pos=(NS, NM, NT, n, L_, Q))
    for mode, extra in (("hop", [some(HOP)]), ("trajectory", [T("cmp", "is", TS, NONE)])):
        stops(c, "C21.reject", f"{mode}: more signals than sources", run(c, "r6" + mode, (P, n), dyn, mode, extra + big(P, NS)), pos=(NS, NM, NT, n, L_, P))
        stops(c, "C21.reject", f"{mode}: several signals, 3-D responses", run(c, "r7" + mode, (P, n), (NT, NM, L_), mode, extra + [neg(T("cmp", "==", P, ONEC)), T("cmp", "<", ONEC, P)]), pos=(NS, NM, NT, n, L_, P))
        stops(c, "C21.reject", f"{mode}: several signals, 2-D responses", run(c, "r8" + mode, (P, n), (NT, L_), mode, extra + [neg(T("cmp", "==", P, ONEC)), T("cmp", "<", ONEC, P)]), pos=(NS, NM, NT, n, L_, P))


def check(c):
    for kind in ("hop", "equal", "timestamps"):
        with c.rule("C21.sum", kind):
            for M in (NM, ONEC):
                study(c, kind, (NS, n), (NT, NS, M, L_), ("t", "s", "m"), M)
                study(c, kind, (n,), (NT, NS, M, L_), ("t", "s", "m"), M, [T("cmp", "<", ONEC, NS)])
                study(c, kind, (n,), (NT, M, L_) if M is NM else (NT, L_), ("t", "m") if M is NM else ("t",), M)
    with c.rule("C21.reject", "DynamicConvolver"):
        rejects(c)
    for kind in ("hop", "equal", "timestamps"):
        with c.rule("C21.result.shape", kind):
            shapes(c, kind)
