"""Comparison of one arrival (position, value, range test, table reads) with the stated law, aspect by aspect."""
from __future__ import annotations
from .simlib import *
from .alg import cancel, pshow, psub, refloor, split, ppow, conditions
from .ident import separated, Point, Undefined

UL = T("truth", attr(CFG, "use_lut"))


def kernel(x):
    """Sum of coefficient * sinc(argument): {argument: coefficient}, or None."""
    out = {}
    for m, c in pd(x).items():
        s = [(a, e) for a, e in m if a.op == "fn" and a.args[0] == "sinc"]
        if len(s) != 1 or pconst(s[0][1]) != 1:
            return None
        rest = tuple(z for z in m if z not in s)
        if any(y.op == "fn" and y.args[0] == "sinc" for a, e in rest for y in subterms(a) if isinstance(y, T)):
            return None
        a = s[0][0].args[1]
        out[a] = padd(out.get(a, cpoly(0)), mkpoly({rest: c}))
    return {a: c for a, c in out.items() if c.op != "poly" or c.args[0]}


def geometric(x):
    return any(y.op == "at" or y.op == "fn" and y.args[0].startswith("red") or y in (FS, CC) for y in subterms(x) if isinstance(y, T))


def floors(x):
    return [y.args[1] for y in subterms(x) if isinstance(y, T) and y.op == "fn" and y.args[0] == "floor"]


def same(N, a, b, facts):
    """True / False / None for two canonical forms."""
    if a is b:
        return True
    C_ = Cmp(lambda f=None: N)
    return C_.leaf(a, b, facts)


def worst(vs):
    vs = list(vs)
    return False if False in vs else None if None in vs or not vs else True


class Study:
    """verdicts[aspect] = list of (verdict, detail)."""

    def __init__(self, X, v, D, gain=None, mkargs=None, facts=None, lawkw=None):
        self.v = {}
        self.X = X
        if v["why"]:
            for b_ in (v["L"].bad if "L" in v else ()):
                self.add("align", False, str(b_[1])[:200])
            for a in ("delay", "amp", "kernel", "pos", "mask", "reads"):
                self.add(a, None, v["why"])
            return
        off = B("*", flat(v["q"]), v["dims"][-1])
        nrow = v["dims"][-1]
        if len(v["images"]) > 1:
            self.add("images", False, "operands taken from different images: " + "; ".join(show(i, 2)[:60] for i in v["images"]))
            return
        self.add("images", True)
        for b_ in v["L"].bad:
            self.add("align", False, str(b_[1])[:200])
        for case in CASES:
            law = Law(case, D, X.dyn, **(lawkw or {}))
            mk = mknorm(X.I, case, **(mkargs or {}))
            amp = law.amp if gain is None else B("*", law.amp, gain(law))
            self.positions(v, case, law, mk, off, facts)
            for lut in (False, True):
                self.values(v, case, law, mk, amp, lut, facts)
            if v["mask"] is None:
                p = [x for x in self.v.get("pos", ()) if x[0] is True]
                self.add("mask", False if p and nrow is S("nsample") and v["dims"][0] is not ONE else None,
                         "no range test: samples outside the response are written into a neighbouring response")
            else:
                want = T("and", T("cmp", "<=", ZERO, law.pos), T("cmp", "<", law.pos, nrow))
                c1 = Cmp(mk)
                r = c1.compare(v["mask"], want, facts)
                self.add("mask", r, f"{case}: samples kept are not exactly those inside the response" if r is False else "range test not understood")
        self.reads(v, facts)

    def add(self, aspect, verdict, detail=""):
        self.v.setdefault(aspect, []).append((verdict, detail))

    def verdict(self, aspect):
        vs = self.v.get(aspect, [])
        for want in (False, None, True):
            for r, d in vs:
                if r is want:
                    return r, d if r is not True else ""
        return None, "not reached"

    # ------------------------------------------------------------------ position
    def positions(self, v, case, law, mk, off, facts):
        c1 = Cmp(mk)
        r = c1.compare(v["pos"], B("+", law.pos, off), facts)
        self.add("pos", r, f"{case}: tap n is written at {pshow(c1.witness[1], 4)[:150]} instead of {pshow(c1.witness[2], 4)[:150]}" if r is False and c1.witness else "position not understood")
        if r is not True:
            for f, N, (p, s) in split(mk, [v["pos"], law.delay], facts):
                fl = floors(p)
                if len(fl) == 1:
                    d = same(N, N.floor(fl[0]), N.floor(s), f)
                    self.add("delay", d, f"{case}: arrival computed at {pshow(fl[0], 4)[:160]} samples, law gives {pshow(s, 4)[:160]}")
        else:
            self.add("delay", True)

    # ------------------------------------------------------------------ value
    def values(self, v, case, law, mk, amp, lut, facts):
        f0 = dict(facts or {})
        f0[UL] = lut
        any_ = False
        for f, N, (x, a, w, arg, dl) in split(mk, [v["val"], amp, law.window, law.arg, law.delay], f0):
            if lut and f.get(UL) is not True:
                continue
            any_ = True
            full = pmul(a, w)
            if pconst(x) == 0 or pconst(full) == 0:
                r = same(N, x, full, f)
                self.add("amp", r, f"{case}: contributes {pshow(x, 3)[:100]} where the law gives {pshow(full, 3)[:100]}")
                self.add("kernel", True if r else None, "")
                continue
            ks = kernel(x)
            if not ks:
                self.add("kernel", None, f"{case}: value is not a sum of sinc terms")
                continue
            if len(ks) == 1:
                (arg1, co), = ks.items()
                self.amplitude(case, N, f, co, a, full)
                r = same(N, N.even("sinc", arg1), N.even("sinc", arg), f)
                if r is True:
                    self.add("kernel", True)
                    self.add("delay", True)
                    continue
                for fl in floors(arg1):
                    d = same(N, N.floor(fl), N.floor(dl), f)
                    self.add("delay", d if d is not None else None, f"{case}: arrival computed at {pshow(fl, 4)[:160]} samples, law gives {pshow(dl, 4)[:160]}")
                self.add("kernel", r, f"{case}: kernel evaluated at {pshow(arg1, 4)[:160]} instead of {pshow(arg, 4)[:160]}")
            elif len(ks) == 2:
                (x0, c0), (x1, c1) = ks.items()
                tot = padd(c0, c1)
                self.amplitude(case, N, f, tot, a, full)
                mom = padd(pmul(c0, x0), pmul(c1, x1))
                g = N.norm(GRAN)
                step = padd(x1, x0, -1)
                st = [same(N, step, ppow(g, cpoly(-1)), f), same(N, step, pmul(cpoly(-1), ppow(g, cpoly(-1))), f)]
                s = True if True in st else False if st == [False, False] else None
                want = pmul(full, arg)
                m1 = same(N, mom, want, f)
                m2 = same(N, mom, pmul(cpoly(-1), want), f) if m1 is not True else False     # sinc is even
                m = True if True in (m1, m2) else False if m1 is False and m2 is False else None
                self.add("kernel", worst([s, m]), f"{case}: table interpolation between nodes at {pshow(x0, 3)[:120]} and {pshow(x1, 3)[:120]} does not reproduce the exact arrival {pshow(arg, 3)[:120]}")
                if m is True:
                    self.add("delay", True)
                self.weights(N, f, case, x0, c0, x1, c1, full, arg if m1 is True else pmul(cpoly(-1), arg))
            else:
                self.add("kernel", None, f"{case}: {len(ks)} sinc terms")
        if not any_:
            self.add("kernel", None, "value not decided")

    def amplitude(self, case, N, f, co, a, full):
        r = same(N, co, full, f)
        if r is True:
            self.add("amp", True)
            self.add("window", True)
            return
        q = pmul(co, ppow(full, cpoly(-1)))
        if r is False and not geometric(q) and not geometric(mkpoly({m: c for m, c in pd(co).items()}) if False else q):
            self.add("amp", True)
            self.add("window", False, f"{case}: taps are weighted by {pshow(q, 4)[:160]} times the Hann window")
        elif r is False:
            # same geometric factor, different window?
            ga = {tuple(z for z in m if geometric(z[0]) or geometric(z[1])) for m in pd(a)}
            gc = {tuple(z for z in m if geometric(z[0]) or geometric(z[1])) for m in pd(co)}
            if ga == gc and len(ga) == 1:
                self.add("amp", True)
                self.add("window", False, f"{case}: taps are weighted by {pshow(co, 4)[:200]}")
            else:
                self.add("amp", False, f"{case}: amplitude {pshow(co, 5)[:200]} instead of {pshow(full, 5)[:200]}")
        else:
            self.add("amp", None, f"{case}: amplitude not understood")

    # ------------------------------------------------------------------ table
    def unitise(self, N, f, x):
        """Rewrite with the arrival sample = F + u, F integer, 0 <= u < 1."""
        F, U, Z = S("F"), S("u"), S("z")
        N.ints.add(F)
        N.nn |= {F, U}
        N.unit.add(U)
        reds = {y for y in subterms(x) if isinstance(y, T) and y.op == "fn" and y.args[0] == "redsum"}
        if len(reds) > 1:
            return None
        y = psub(x, {**{r: ppow(Z, cpoly(2)) for r in reds}, FS: cpoly(1), CC: cpoly(1)})
        y = psub(y, {Z: padd(F, U)})
        return cancel(refloor(N, y))

    def weights(self, N, f, case, x0, c0, x1, c1, full, arg):
        # the arrival lies between its two table nodes, so neither weight is negative
        ws = []
        for x in (x0, x1):
            d = self.unitise(N, f, pmul(padd(arg, x, -1), N.norm(GRAN)))
            ws.append(d)
        if None in ws:
            self.add("kernel", None, "interpolation weight not understood")
            return
        for d in ws:
            lo, hi = bound(N, d, False), bound(N, d, True)
            ok = lo is not None and hi is not None and N.sign(padd(lo, cpoly(1))) in ("+", "0+", "0") and N.sign(padd(cpoly(1), hi, -1)) in ("+", "0+", "0")
            bad = None
            if not ok:
                bad = search(N, d, lambda val, p: val < -1 - 1e-6 or val > 1 + 1e-6)
            self.add("kernel", True if ok else False if bad else None, f"{case}: table node further than one step from the arrival" if bad else "table node distance not bounded")

    def reads(self, v, facts):
        mk = mknorm(self.X.I, "even>=0")
        f0 = dict(facts or {})
        f0[UL] = True
        for base, size, idx in v["reads"]:
            for f, N, (i, n) in split(mk, [idx, size], f0):
                if f.get(UL, True) is not True:
                    continue
                y = self.unitise(N, f, i)
                if y is None:
                    self.add("reads", None, "table index not understood")
                    continue
                lo, hi = bound(N, y, False), bound(N, y, True)
                g1 = S("g1")
                N.nn.add(g1)
                N.ints.add(g1)

                def pos(z):
                    z = psub(z, {N.norm(GRAN): padd(g1, cpoly(1))})
                    return N.sign(z) in ("+", "0+", "0")
                ok = lo is not None and hi is not None and pos(lo) and pos(padd(padd(n, cpoly(1), -1), hi, -1))
                if ok:
                    self.add("reads", True)
                    continue
                bad = search(N, padd(n, y, -1), lambda val, p: val < 1 - 1e-6) or search(N, y, lambda val, p: val < -1e-6)
                self.add("reads", False if bad else None, f"table of {pshow(n, 4)[:80]} entries read at {pshow(y, 5)[:160]}" + (f", outside it for {bad}" if bad else " not bounded"))


BOX = {"n": (cpoly(0), pmul(cpoly(2), H)), "u": (cpoly(0), cpoly(1))}


def bound(N, x, hi, depth=0):
    """Symbolic upper (hi) or lower bound over n in [0, 2h], u in [0, 1); None when not derivable."""
    if depth > 6:
        return None
    n_s, u_s = n_, S("u")
    out = cpoly(0)
    for m, c in pd(x).items():
        term = cpoly(c)
        sgn = N.sign(mkpoly({tuple(z for z in m if z[0] not in (n_s, u_s) and not (z[0].op == "fn" and z[0].args[0] == "floor")): c}))
        if sgn is None:
            return None
        if sgn == "0":
            continue
        up = hi if sgn[-1] == "+" else not hi
        for a, e in m:
            if a is n_s or a is u_s:
                if pconst(e) != 1:
                    return None
                lo_, hi_ = BOX[a.args[0]]
                term = pmul(term, hi_ if up else lo_)
            elif a.op == "fn" and a.args[0] == "floor":
                if pconst(e) != 1:
                    return None
                b = bound(N, a.args[1], up, depth + 1)
                if b is None:
                    return None
                if not N.isint(b):
                    b = b if up else padd(b, cpoly(1), -1)
                elif not up and not attained(a.args[1], u_s):
                    pass
                term = pmul(term, b)
            else:
                term = pmul(term, mkpoly({((a, e),): 1}))
        out = padd(out, term)
    # y - floor(y) in [0, 1)
    fl = [m for m in pd(x) if len(m) == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "floor" and abs(pd(x)[m]) == 1]
    for m in fl:
        k = pd(x)[m]
        y = m[0][0].args[1]
        rest = padd(x, mkpoly({m: k}), -1)
        if k == -1:
            base = padd(rest, y, -1)          # x = (y - floor y) + base
            b = bound(N, base, hi, depth + 1)
            if b is not None and (base.op == "poly" and len(base.args[0]) <= 1):
                cand = padd(b, cpoly(1 if hi else 0))
                return cand
        else:
            base = padd(rest, y)              # x = -(y - floor y) + base
            b = bound(N, base, hi, depth + 1)
            if b is not None and (base.op == "poly" and len(base.args[0]) <= 1):
                return padd(b, cpoly(0 if hi else -1))
    return out


def attained(y, u):
    return False


def search(N, x, bad, tries=400):
    """A sample point of the index box at which bad(value) holds."""
    import random
    for seed in range(tries):
        r = random.Random(seed)
        p = Point(seed, N)
        h = r.choice([1, 1, 2, 3, 5])
        g = r.choice([1, 1, 2, 3, 4])
        u = r.choice([0.0, 0.0, 0.25, 0.5, 0.75, 0.999])
        n = r.choice([0, 2 * h, r.randint(0, 2 * h)])
        F = r.choice([0, 1, 5])
        for a, b in ((H, h), (N.norm(GRAN), g), (S("u"), u), (n_, n), (S("F"), F)):
            p.memo[(a, ())] = b
        try:
            val = p.val(x)
        except (Undefined, OverflowError, ZeroDivisionError, TypeError, ValueError):
            continue
        if not isinstance(val, (int, float)):
            return None
        if bad(val, p):
            return f"filter length {2 * h + 1}, granularity {g}, tap {n}, fraction {u}"
    return None
