"""C35: the coordinates returned by each sampling function are followed back through the value-flow graph to the random draws that produce them; the polyhedral domain (exact linear inequalities over margin, room size and height range, with max/min and branches expanded) decides whether every value such a draw can take keeps the margin and the height range, whether the loop counters force the requested number, and whether clamping moves a position only when needed; the distance filter and the straight trajectory are compared with the stated formulas."""
from vf.law import *
from vf import poly

NUMS, RS, MG, CEN, MD, ZR, RNG, PS = S("num"), S("room_size"), S("margin"), S("center"), S("min_distance"), S("z_range"), S("rng"), S("positions")
LEN = S("collected")
CAST = {"t.to", "t.float", "t.clone", "t.contiguous", "t.double", "t.detach", "t.reshape", "t.cpu", "t.type", "t.stack"}


def spread(t):
    """Smallest or largest over a known number of entries, written out."""
    if t.op == "red" and t.args[0] in ("amin", "amax", "min", "max") and is_const(t.args[2]) and 0 < t.args[2].args[0] <= 4:
        es = [spread(substitute(t.args[3], {t.args[1]: C(k)})) for k in range(t.args[2].args[0])]
        return es[0] if len(es) == 1 else call("builtins." + t.args[0][-3:], *es)
    go = lambda a: spread(a) if isinstance(a, T) else tuple(go(b) for b in a) if isinstance(a, tuple) else a
    return T(t.op, *[go(a) for a in t.args])


class Samp:
    def __init__(self, c, name, D, kw=None, pre=(), tag=""):
        self.c, self.D = c, D
        self.full = resolve_public(c.P, name)
        self.F = Fn(c, self.full, kw=kw or {}, shapes={RS: (C(D),), CEN: (C(D),)}, ty={NUMS: INT, MG: NUM, MD: NUM}, pre=pre, updates=True, key=(name, D, tag))
        self.I = self.F.I
        self.w = f"{self.full} {D}-D{' ' + tag if tag else ''}"
        self.appends = [e for e in self.F.r.events if e.kind == "append"]

    # ------------------------------------------------ value flow of one coordinate
    def coord(self, t, j, facts=()):
        """[(scalar term, path facts)] for coordinate j of any row of t, or None."""
        o = t.op
        if o == "phi":
            a = self.coord(t.args[1], j, facts + (t.args[0],))
            b = self.coord(t.args[2], j, facts + (neg(t.args[0]),))
            return None if a is None or b is None else a + b
        if o == "upd":
            base, idx, val = t.args
            if idx.op == "tuple" and len(idx.args) == 2 and idx.args[1].op == "const" and idx.args[0].op == "slice" and all(x is NONE for x in idx.args[0].args):
                if idx.args[1].args[0] % self.D != j:
                    return self.coord(base, j, facts)
                return self.elems(val, facts)
            return None
        if o == "call" and t.args[0].op == "ext":
            n = t.args[0].args[0]
            if n in ("t.tensor", "t.as_tensor", "t.stack") or n in CAST:
                return self.coord(t.args[1][0], j, facts)
        if o == "listof":
            out = []
            for x in t.args[1] + t.args[2]:
                if x.op == "ref":
                    continue
                r = self.coord(x, j, facts + self.pushed(x))
                if r is None:
                    return None
                out += r
            return out or None
        if o in ("list", "tuple") and len(t.args) == self.D:
            return [(t.args[j], facts)]
        if o == "list":
            out = []
            for x in t.args:
                r = self.coord(x, j, facts)
                if r is None:
                    return None
                out += r
            return out or None
        return None

    def elems(self, t, facts):
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("t.tensor", "t.as_tensor") or t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in CAST:
            return self.elems(t.args[1][0], facts)
        if t.op == "listof":
            return [(x, facts + self.pushed(x)) for x in t.args[1] + t.args[2] if x.op != "ref"] or None
        if t.op == "phi":
            a, b = self.elems(t.args[1], facts + (t.args[0],)), self.elems(t.args[2], facts + (neg(t.args[0]),))
            return None if a is None or b is None else a + b
        return None

    def pushed(self, x):
        """Conditions under which the list element x is added."""
        hits = [e for e in self.appends if e.args[1] is x]
        return tuple(f for f in hits[0].pc if relevant(f)) if len(hits) == 1 else ()

    # ------------------------------------------------ scalars
    def leaf(self, unit):
        memo = {}

        def idx(b, i):
            if b is RS or b is ZR or b is CEN:
                return T("at", b, i)
            try:
                r = self.F.el(b, i)
            except Exception:  # noqa: BLE001
                return None
            return r if r is not None and r.op != "at" else T("at", *r.args) if r is not None and len(r.args) == 2 and r.args[0] in (RS, ZR) else None

        def go(t):
            if t in memo:
                return memo[t]
            r = None
            if t.op in ("item", "at") and len(t.args) == 2 and t.args[1].op == "const" and isinstance(t.args[1].args[0], int):
                b = t.args[0]
                while b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in ("t.tolist", "builtins.tuple", "builtins.list", "m.tolist") | CAST and b.args[1]:
                    b = b.args[1][0]
                i = t.args[1].args[0]
                if b is RS or b is ZR or b is CEN:
                    n = {RS: self.D, ZR: 2, CEN: self.D}[b]
                    if -n <= i < n:
                        r = T("at", b, C(i % n))
                elif b.op in ("list", "tuple") and -len(b.args) <= i < len(b.args):
                    r = b.args[i]
                elif t.op == "item":
                    r = idx(b, t.args[1])
            elif t.op == "call" and t.args[0].op == "ext":
                n = t.args[0].args[0]
                if n == "m.uniform" and len(t.args[1]) == 3:
                    r = t
                elif n in ("m.random", "random.random") and len(t.args[1]) <= 1:
                    r = C(unit)
                elif n == "builtins.len":
                    a = t.args[1][0]
                    if a.op == "listof":
                        r = LEN
                elif n in ("t.item", "builtins.float") and t.args[1][0].op == "at":
                    r = t.args[1][0]
            elif t.op == "at" and t.args[0] in (RS, ZR, CEN):
                r = t
            memo[t] = r
            return r
        return go

    def draws(self, x):
        return [u for u in subterms(x) if u.op == "call" and u.args[0].op == "ext" and u.args[0].args[0] == "m.uniform"]

    def decide(self, rule, where, x, facts, cond, detail):
        """cond(x) wherever the facts hold, for every value of the draws in x."""
        verdict = True
        for unit in (0, 1):
            leaf = self.leaf(unit)
            fs = list(facts)
            us = [u for u in subterms(x) if u.op == "call" and u.args[0].op == "ext" and u.args[0].args[0] == "m.uniform" and len(u.args[1]) == 3]
            for u in us:
                a, b = u.args[1][1], u.args[1][2]
                fs += [T("cmp", "<=", call("builtins.min", a, b), u), T("cmp", "<=", u, call("builtins.max", a, b))]
            r = poly.implies(fs, cond(x), leaf)
            if r is False:
                verdict = False
            elif r is None and verdict is True:
                verdict = None
        self.c.ob(rule, where, verdict, detail if verdict is False else "for every room, margin and draw")
        return verdict

    def entry(self):
        """Facts that hold once nothing was raised."""
        return tuple(f for f in self.F.r.state.pc if relevant(f)) if self.F.r.state is not None else ()

    def margins(self, rule="C35.margin"):
        if self.F.r.state is None:
            self.c.ob(rule, self.w, None, "never returns")
            return
        for j in range(self.D):
            xs = self.coord(self.F.ret, j)
            if not xs:
                self.c.ob(rule, f"{self.w} axis {j}", None, "the coordinate's value flow is not resolved")
                continue
            for x, fs in xs:
                for x, fs2 in branches(x):
                    facts = self.entry() + fs + fs2
                    hi = B("-", T("at", RS, C(j)), MG)
                    for side, cond in (("near", lambda v: T("cmp", "<=", MG, v)), ("far", lambda v: T("cmp", "<=", v, hi))):
                        self.decide(rule, f"{self.w} axis {j} {side} wall", x, facts, cond, f"a drawn coordinate may come closer than the margin to the {side} wall: {show(x, 4)[:160]}")
                    if j == 2 and rule == "C35.margin" and self.zr:
                        z0, z1 = T("at", ZR, C(0)), T("at", ZR, C(1))
                        lo, up = call("builtins.max", MG, z0), call("builtins.min", hi, z1)
                        feas = T("cmp", "<=", lo, up)
                        for side, cond in (("lower", lambda v: T("cmp", "<=", z0, v)), ("upper", lambda v: T("cmp", "<=", v, z1))):
                            self.decide("C35.height", f"{self.w} {side} bound", x, facts + (feas,), cond, f"a drawn height may leave the requested range although the room leaves one: {show(x, 4)[:160]}")

    zr = False

    # ------------------------------------------------ count
    def count(self):
        rows = [t for t in subterms(self.F.ret) if t.op == "listof" and any(x.op == "list" and len(x.args) == self.D for x in t.args[2])]
        if not rows:
            self.c.ob("C35.count", self.w, None, "the rows are not collected in a list the analysis sees")
            return
        for t in rows[:1]:
            x = [y for y in t.args[2] if y.op != "ref"]
            hits = [e for e in self.appends if e.args[1] in x]
            if len(hits) != 1 or not hits[0].loops:
                self.c.ob("C35.count", self.w, None, "rows are added at several places")
                continue
            e = hits[0]
            info = self.I.loopinfo[e.loops[-1]]
            it = info.get("iter")
            extra = [f for f in e.pc if f not in self.F.r.state.pc]
            if len(e.loops) == 1 and info["kind"] in ("for", "comp") and not info["breaks"] and not extra and it is not None and callname(it) in ("builtins.range", "range"):
                a = cargs(it)
                n = a[0] if len(a) == 1 else B("-", a[1], a[0]) if len(a) == 2 or a[2] is ONE_ else None
                if n is not None:
                    judge(self.c, "C35.count", self.w, norms(self.I, ints=(NUMS,), nonneg=(NUMS,)), n, NUMS, what="number of positions ")
                    continue
            leaf = self.leaf(0)
            pcs = []
            for f in self.F.r.state.pc:
                pcs += [f.args[1]] if f.op == "exitcond" else [] if f.op == "forall" else [f]
            cnt = [f for f in pcs if any(callname(y) == "builtins.len" for y in subterms(f))]
            r = poly.implies(cnt, T("cmp", "<=", NUMS, LEN), counter(leaf))
            self.c.ob("C35.count", self.w + " at least", r, "returns although fewer positions than requested were collected" if r is False else "returning implies enough rows")
            cnt = [f for f in e.pc if any(callname(y) == "builtins.len" for y in subterms(f))]
            r = poly.implies(cnt, T("cmp", "<", LEN, NUMS), counter(leaf))
            self.c.ob("C35.count", self.w + " at most", r, "a row is added although the requested number is already collected" if r is False else "a row is only added while one is missing")

    # ------------------------------------------------ distance
    def distance(self):
        rows = [x for t in subterms(self.F.ret) if t.op == "listof" for x in t.args[2] if x.op == "list" and len(x.args) == self.D]
        hits = [e for e in self.appends if e.args[1] in rows]
        if not hits:
            self.c.ob("C35.distance", self.w, None, "accepted points not seen")
        for e in hits:
            conds = [f for f in flat(e.pc) if MD in list(subterms(f))]
            if not conds:
                known_ = any(MD in list(subterms(x)) for x in subterms(self.F.ret))
                self.c.ob("C35.distance", self.w, None if known_ else False, "a point is accepted without comparing its distance with min_distance")
                continue
            row = e.args[1]
            names = {row.args[j]: S(f"p{j}") for j in range(self.D)}
            self.I.symty.update({v: NUM for v in names.values()})
            conds = [substitute(f, names) for f in conds]
            d2 = None
            for j in range(self.D):
                q = B("**", B("-", S(f"p{j}"), T("at", CEN, C(j))), C(2))
                d2 = q if d2 is None else B("+", d2, q)
            want = T("cmp", "<=", MD, B("**", d2, C(0.5)))
            self.accept("C35.distance", self.w, conds, want)

    def accept(self, rule, where, conds, want):
        N = norms(self.I, pos=(MD,))()
        vs = []
        for f in conds:
            p, g = True, f
            if g.op == "not":
                p, g = False, g.args[0]
            if g.op == "or" and p:
                # an alternative that does not look at the point at all lets any point in
                free = [a for a in g.args if not any(x in (CEN, MD) or x.op == "sym" and x.args[0][:1] == "p" and x.args[0][1:].isdigit() for x in subterms(a) if isinstance(x, T)) and
                        not any(x.op in ("unknown", "rand") or (callname(x) or "").split(".")[-1] in ("uniform", "norm", "random") for x in subterms(a) if isinstance(x, T))]
                vs.append(False if free else None)
                continue
            if g.op != "cmp" or g.args[0] not in ("<", "<=", ">", ">="):
                vs.append(None)
                continue
            op, a, b = g.args
            if op in (">", ">="):
                op, a, b = {">": "<", ">=": "<="}[op], b, a
            if not p:
                op, a, b = {"<": "<=", "<=": "<"}[op], b, a
            try:
                a, b = (self.F.el(z) for z in (a, b))
                d = N.norm(B("-", b, a))
                w = N.norm(B("-", want.args[2], want.args[1]))
            except Exception:  # noqa: BLE001
                vs.append(None)
                continue
            if d is w:
                vs.append(True)
                continue
            r = Cmp(norms(self.I, pos=(MD,))).compare(d, w)
            if r is None or r is False:
                # the same test written on squares
                w2 = N.norm(B("-", B("**", want.args[2], C(2)), B("**", want.args[1], C(2))))
                if Cmp(norms(self.I, pos=(MD,))).compare(d, w2) is True:
                    r = True
            vs.append(r)
        r = True if True in vs else None if None in vs else False
        self.c.ob(rule, where, r, "the accepted points' test is not distance >= min_distance: " + "; ".join(show(f, 5)[:160] for f in conds) if r is False else "points are accepted by their distance from the centre")


ONE_ = C(1)


def counter(leaf):
    def go(t):
        if t.op in ("mu", "loopout"):
            return S("ctr" + str(t.args[0]) + str(t.args[1]))
        return leaf(t)
    return go


def flat(pc):
    out = []
    for f in pc:
        out += flat(f.args) if f.op == "and" else [f]
    return out


def relevant(f):
    if f.op in ("forall", "exitcond"):
        return False
    for x in subterms(f):
        if x in (MD, NUMS) or x.op in ("mu", "loopout", "loopin") or callname(x) == "builtins.len":
            return False
    return not (f.op in ("cmp", "not") and any(y is NONE for y in subterms(f)))


def branches(x, facts=()):
    """A draw chosen by branches, one value per branch."""
    if x.op == "phi":
        g = x.args[0]
        yes, no = ((g,), (neg(g),)) if relevant(g) else ((), ())
        return branches(x.args[1], facts + yes) + branches(x.args[2], facts + no)
    return [(x, facts)]


def check(c):
    given = neg(T("cmp", "is", ZR, NONE))
    for D in (2, 3):
        with c.rule("C35.sample_positions", f"{D}-D"):
            s = Samp(c, "sample_positions", D)
            s.margins()
            s.count()
        with c.rule("C35.sample_positions_with_z_range", f"{D}-D"):
            s = Samp(c, "sample_positions_with_z_range", D)
            s.zr = D == 3
            s.margins()
            s.count()
        for tag, kw, pre in (("no range", {"z_range": NONE}, ()), ("height range", {}, (given,))):
            with c.rule("C35.sample_positions_min_distance", f"{D}-D {tag}"):
                s = Samp(c, "sample_positions_min_distance", D, kw=kw, pre=pre, tag=tag)
                s.zr = D == 3 and tag == "height range"
                s.margins()
                s.count()
                s.distance()
    with c.rule("C35.clamp", "clamp_positions"):
        clamp(c)
    trajectory(c)


def clamp(c):
    full = resolve_public(c.P, "clamp_positions")
    for D in (2, 3):
        for rank in (1, 2):
            n = S("n")
            F = Fn(c, full, shapes={PS: (n, C(D)) if rank == 2 else (C(D),), RS: (C(D),)}, ty={MG: NUM}, updates=True, key=("clamp", D, rank))
            w = f"{full} {D}-D positions of rank {rank}"
            for j in range(D):
                ix = (S("i"), C(j)) if rank == 2 else (C(j),)
                N = norms(F.I, ints=(S("i"),), nonneg=(S("i"),))()
                v = N.norm(spread(F.el(F.ret, *ix)))
                p, hi = T("at", PS, *ix), B("-", T("at", RS, C(j)), MG)

                def leaf(t):
                    if t.op == "at":
                        z = N.norm(t)
                        return z.args[0][0][0][0][0] if z.op == "poly" and len(z.args[0]) == 1 else z
                    return None
                pv = p
                room = T("cmp", "<=", MG, hi)
                inside = (T("cmp", "<=", MG, pv), T("cmp", "<=", pv, hi))
                c.ob("C35.clamp.inside", f"{w} axis {j}", both(poly.implies([room], T("cmp", "<=", MG, v), leaf), poly.implies([room], T("cmp", "<=", v, hi), leaf)),
                     f"a clamped coordinate is {pshow(v, 4)[:150]}")
                c.ob("C35.clamp.unmoved", f"{w} axis {j}", poly.implies([room, *inside], T("cmp", "==", v, pv), leaf),
                     f"a coordinate that keeps the margin becomes {pshow(v, 4)[:150]}")


def both(*rs):
    return False if False in rs else None if None in rs else True


def trajectory(c):
    full = resolve_public(c.P, "linear_trajectory")
    ST, EN, SP_ = S("start"), S("end"), S("steps")
    M = S("extra")
    for D in (2, 3):
        # one step, or 2 + extra steps with extra >= 0
        for case, n in (("one step", C(1)), ("several steps", B("+", M, C(2)))):
            with c.rule("C35.trajectory", f"linear_trajectory {D}-D, {case}"):
                F = Fn(c, full, kw={"steps": n}, shapes={ST: (C(D),), EN: (C(D),)}, ty={M: INT}, updates=True, key=("traj", D, case))
                w = f"{full} {D}-D, {case}"
                mk = norms(F.I, ints=(M, S("t")), nonneg=(S("t"), M))
                sh = F.shape(F.ret)
                if sh is not None and len(sh) == 2:
                    judge(c, "C35.trajectory.count", w, mk, F.L.at(sh[0], ()), n, what="number of positions ")
                else:
                    c.ob("C35.trajectory.count", w, None, "shape unknown")
                t = C(0) if case == "one step" else S("t")
                for j in range(D):
                    st, en = T("at", ST, C(j)), T("at", EN, C(j))
                    last = C(1) if case == "one step" else B("+", M, C(1))
                    judge(c, "C35.trajectory", f"{w} axis {j}", mk, F.el(F.ret, t, C(j)), B("+", st, B("*", B("-", en, st), B("/", t, last))))
                    judge(c, "C35.trajectory.start", f"{w} axis {j}", mk, F.el(F.ret, C(0), C(j)), st)
