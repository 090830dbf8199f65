"""C20: every accumulation into the array that static convolution returns is lowered to symbolic indices (the transform pair becomes one convolution node with operand bodies, operand lengths and transform length); loop ranges, operand indices, lengths, offsets and the transform length are compared with the full linear convolution, and rejected shapes are shown unreachable."""
from vf.conv import *

FN = "torchrir.signal.static.convolve_rir"
FFT = "torchrir.signal.static.fft_convolve"
SG, RR, n, L_ = S("signal"), S("rirs"), S("n"), S("L")
TYS = {NS: INT, NM: INT, NT: INT, n: INT, L_: INT, S("P"): INT}


def run(c, key, sg, rr, pre=()):
    return Fn(c, resolve_public(c.P, "convolve_rir"), args=(SG, RR), shapes={SG: sg, RR: rr}, ty=TYS, pre=list(pre), updates=True, key=key)


def result(st, F, out, lead):
    """The returned entries are the accumulated ones, over the full length."""
    I = F.I
    idx = (S("m"), S("k")) if lead is not None else (S("k"),)
    s = I.shape(F.ret)
    if s is None:
        st.ob("result.shape", None, "shape of the result not known")
    else:
        want = ((lead,) if lead is not None else ()) + (st.outlen,)
        if len(s) != len(want):
            st.ob("result.shape", False, f"result has {len(s)} dimensions, expected {len(want)}")
            return
        for a, b in zip(s, want):
            if b is not None:
                st.index("result.shape", st.low(a), b, "extent of the result")
    e = st.canon(st.L.at(F.ret, idx))
    while e.op == "bin" and e.args[0] == "+" and e.args[1].op in ("at", "bin"):
        e = e.args[1]              # accumulated once, unrolled
    if e.op == "at" and e.args[0] is st.canon(out):
        o = (ZEROC,) + idx if len(e.args) - 1 > len(idx) else idx
        for a, b in zip(e.args[1:], o):
            st.index("result.entries", a, b, "entries returned in place")
    else:
        st.ob("result.entries", None, f"returned entry {show(e, 3)[:80]}")


def study(c, key, sg, rr, names, M, pre=()):
    w = f"signal {len(sg)}-D{' shared' if sg[0] is ONEC else ''}, responses {len(rr)}-D, {'one microphone' if M is ONEC else 'M microphones'}"
    w += ", one source" if len(rr) == 3 and rr[0] is ONEC else ""
    pre = list(pre) + ([neg(T("cmp", "==", NM, ONEC))] if M is NM else [])
    F = run(c, key, sg, rr, pre)
    if F.r.state is None:
        c.ob("C20.result", w, None, "never returns")
        return
    st = Study(c, "C20", w, F, SG, RR, rr, sg, pos=(NS, NM, n, L_), extra_ints=(NS, NM, n, L_))
    st.names = names
    st.outlen = T("bin", "-", T("bin", "+", n, L_), ONEC)
    got = st.contributions()
    if got is None:
        st.ob("sum", None, "accumulation not recognised")
        return
    out, cs = got
    exclusive(st, cs)
    for e, idx, v, over in cs:
        st.accumulate(out, e, idx, v, over, None)
    result(st, F, out, M if M is NM else None)


def exclusive(st, cs):
    """On every input exactly one of the accumulations runs."""
    rp = st.F.r.state.pc
    conds = []
    for e, *_ in cs:
        q = [x for x in e.pc if x not in rp]
        q = [x for x in q if not any(isinstance(y, T) and y.op in ("elem", "idx", "mu") for y in subterms(x))]
        conds.append(conj(q))
    if not cs:
        st.ob("sum", False, "nothing is accumulated into the result")
        return
    ats = []
    for x in list(conds):
        atoms(x, ats)
    if len(ats) > 8:
        st.ob("sum", None, "too many cases")
        return
    res = True
    for bits in range(2 ** len(ats)):
        asg = {a: bool(bits >> i & 1) for i, a in enumerate(ats)}
        k = sum(beval(x, lambda a: asg.get(a)) is True for x in conds)
        if k == 1:
            continue
        lits = [a if b else neg(a) for a, b in asg.items()]
        r = st.implies([st.canon(st.L.cond(x)) for x in lits] + [T("cmp", "<=", ONEC, x) for x in st.pos], FALSE)
        if r is True:
            continue
        opaque = [a for a in ats if a.op != "cmp"]
        eqs = {}
        contradictory = False
        for a, b in asg.items():      # one value cannot equal two constants
            if a.op == "cmp" and a.args[0] == "==" and a.args[2].op == "const" and b:
                if eqs.setdefault(a.args[1], a.args[2]) is not a.args[2]:
                    contradictory = True
        if contradictory:
            continue
        res = False if not opaque else None
    st.ob("sum", res, "exactly one accumulation for every input" if res else "an input reaches no accumulation, or several")


def rejects(c):
    P = S("P")
    F = run(c, "mis", (P, n), (NS, NM, L_), [neg(T("cmp", "==", P, ONEC)), T("cmp", "<", NS, P), neg(T("cmp", "==", P, NS)), neg(T("cmp", "==", NS, P))])
    stops(c, "C20.reject", "more signals than sources", F)
    for k, (a, b) in {"signal 3-D": ((NT, NS, n), (NS, NM, L_)), "responses 4-D": ((NS, n), (NT, NS, NM, L_))}.items():
        stops(c, "C20.reject", k, run(c, k, a, b))


def stops(c, rule, w, F, pos=(NS, NM, NT, n, L_)):
    """No normal return under the assumed mismatch."""
    st = F.r.state
    if st is None:
        c.ob(rule, w, True, "rejected")
        return
    facts = [F.L.cond(x) for x in st.pc]
    N = norms(F.I, ints=pos, pos=pos)()
    nc = lambda x: nc(disj([T("cmp", "==", x.args[1], y) for y in x.args[2].args])) if x.op == "cmp" and x.args[0] == "in" and x.args[2].op == "tuple" else T(x.op, *[nc(y) for y in x.args]) if x.op in ("and", "or", "not") else T("cmp", x.args[0], N.norm(x.args[1]), N.norm(x.args[2])) if x.op == "cmp" and x.args[0] in ("<", "<=", "==", "!=") else x
    lits = [nc(x) for x in facts]
    if any(neg(x) in lits for x in lits) or FALSE in lits:
        c.ob(rule, w, True, "rejected")
        return
    Lp = poly.Lin(lambda t: t if t.op in ("at", "attr", "dimslice", "item") else None)
    try:
        cl = [Lp.cond(x) for x in lits] + [Lp.cond(T("cmp", "<=", ONEC, N.norm(p))) for p in pos]
        r = None if poly.sat(cl + Lp.clauses) else True
    except (poly.Big, poly.Nonlinear):
        r, Lp = None, None
    # what is left open concerns the contents of tensors, where they live, or text options: free for the caller to choose
    if r is None and Lp is not None and all(free(x) for x in Lp.opaque):
        r = False
    c.ob(rule, w, r, "rejected" if r else "accepted: a value is returned" + ("" if r is False else "? open: " + "; ".join(show(x, 3)[:60] for x in Lp.opaque if not free(x)) if Lp else ""))


def free(x):
    subs = [y for y in subterms(x) if isinstance(y, T)]
    return x.op == "cmp" and x.args[0] == "is" or any(callname(y) in ("t.any", "t.all", "t.item", "t.max", "t.min") or y.op in ("red", "forall", "exitcond") or y.op == "attr" and y.args[1] in ("device", "dtype", "type", "is_cuda")
               or y.op == "const" and isinstance(y.args[0], str) for y in subs)


def shapes(c):
    """One row per microphone, a single row without the leading dimension, for every small count."""
    for s in (1, 2):
        for m in (1, 2):
            F = run(c, f"shape{s}{m}", (C(s), n), (C(s), C(m), L_))
            w = f"{s} sources, {m} microphones"
            sh = F.shape(F.ret) if F.r.state is not None else None
            if sh is None:
                c.ob("C20.result.shape", w, None, "shape of the result not known")
                continue
            if len(sh) != (1 if m == 1 else 2):
                c.ob("C20.result.shape", w, False, f"result has {len(sh)} dimensions")
                continue
            mk = norms(F.I, ints=(n, L_), pos=(n, L_))
            for a, b in zip(sh, ((C(2),) if m == 2 else ()) + (T("bin", "-", T("bin", "+", n, L_), ONEC),)):
                judge(c, "C20.result.shape", w, mk, F.L.at(a, ()), b, what="extent ")


def check(c):
    with c.rule("C20.sum", "convolve_rir"):
        for M in (NM, ONEC):
            if M is NM:
                study(c, "a", (n,), (M, L_), ("m",), M)
            else:
                study(c, "a1", (n,), (L_,), (), M)
            for k, a in (("b", (n,)), ("c", (ONEC, n))):
                study(c, f"{k}{M is NM}", a, (NS, M, L_), ("s", "m"), M, [T("cmp", "<", ONEC, NS)])
                study(c, f"{k}1{M is NM}", a, (ONEC, M, L_), ("s", "m"), M)
            study(c, f"d{M is NM}", (NS, n), (NS, M, L_), ("s", "m"), M)
    with c.rule("C20.reject", "convolve_rir"):
        rejects(c)
    with c.rule("C20.result.shape", "convolve_rir"):
        shapes(c)
