"""C33: the responses returned by both simulators are followed back through their value-flow graph; what the diffuse stage stores into the response is lowered to one scalar per (source, microphone, sample), split over its branch conditions, and compared with the law (noise only where the polyhedral domain proves the index is at or after the transition sample, times the level just before it, times the decay at the room's reverberation time); the high-pass stage's operand, axis, cut-off, device and dtype are compared with the stage before it."""
import math
from vf.law import *
from vf.simconf import *
from vf import poly
from vf.alg import mkpoly

TD, TM, RIR, Z, T60 = S("tdiff"), S("tmax"), S("rir"), S("noise"), S("t60")
FILTERS = ("scipy.signal.sosfiltfilt", "scipy.signal.filtfilt", "scipy.signal.sosfilt", "scipy.signal.lfilter")
NOISE = ("torch.randn", "torch.randn_like", "torch.rand", "torch.rand_like", "m.normal", "np.random.randn", "t.normal_", "torch.normal")
ENABLE = T("truth", attr(CFG, "rir_hpf_enable"))
STRIP = {"t.to", "t.detach", "t.cpu", "t.numpy", "np.asarray", "np.ascontiguousarray", "np.array", "t.contiguous", "t.clone", "t.double", "t.float", "torch.as_tensor",
         "t.as_tensor", "torch.tensor", "torch.from_numpy", "t.from_numpy", "m.copy", "m.astype", "t.tensor"}


class Run:
    def __init__(self, c, dyn, D, tail):
        self.c, self.dyn, self.D, self.tail = c, dyn, D, tail
        sh = {attr(ROOM, "size"): (C(D),), attr(ROOM, "beta"): (C(2 * D),)}
        sh.update({S("src_traj"): (NT, NS, C(D)), S("mic_traj"): (NT, NM, C(D))} if dyn else {S("sources"): (NS, C(D)), S("mics"): (NM, C(D))})
        ty = {ROOM: frozenset({"Room"}), CFG: frozenset({"SimulationConfig"}), DEV: frozenset({"device"}), DT: frozenset({"dtype"}), S("nsample"): INT,
              S("max_order"): INT, NS: INT, NM: INT, NT: INT, TD: NUM, TM: NUM, S("j"): INT, S("s"): INT, S("m"): INT, S("t"): INT, T60: NUM}
        kw = {"orientation": NONE, "nb_img": NONE, "directivity": const("omni"), "dtype": DT, "device": DEV}
        pre = [neg(T("cmp", "is", attr(ROOM, "beta"), NONE))]
        if not dyn:
            if tail:
                pre.append(neg(T("cmp", "is", TD, NONE)))
            else:
                kw["tdiff"] = NONE
        self.F = Fn(c, DYNAMIC if dyn else STATIC, kw=kw, shapes=sh, ty=ty, pre=pre, key=("c33", dyn, D, tail), updates=True)
        self.I = self.F.I
        self.w = f"{'dynamic' if dyn else 'static'} {D}-D{' with tail' if tail else ''}"
        self.idx = (S("t"), S("s"), S("m"), S("j")) if dyn else (S("s"), S("m"), S("j"))
        self.dims = (NT, NS, NM, S("nsample")) if dyn else (NS, NM, S("nsample"))
        self.mk = norms(self.I, ints=(*self.idx, S("nsample"), NS, NM, NT), nonneg=self.idx, pos=(NS, NM, NT, S("nsample"), attr(ROOM, "fs"), T60))
        self.off = assume(self.F.ret, {ENABLE: False, attr(CFG, "rir_hpf_enable"): False})
        self.on = assume(self.F.ret, {ENABLE: True, attr(CFG, "rir_hpf_enable"): True})

    def base(self):
        zs = [x for x in dict.fromkeys(subterms(self.off)) if callname(x) in ("torch.zeros", "torch.empty", "t.new_zeros") and self.I.shape(x) == self.dims]
        if len(zs) == 1:
            return zs[0]
        bs = bases(self.off)
        if len(bs) != 1 or any(callname(x) in NOISE + FILTERS for x in subterms(bs[0])):
            return None
        return bs[0]

    def sub(self, t):
        """t with the accumulated response named, and its shape and type declared."""
        b = self.base()
        if b is None:
            return None
        self.I._shape[RIR] = self.dims
        self.I.symty[RIR] = TEN
        self.I._ty[RIR] = TEN
        r = substitute(t, {b: RIR})
        g = self.t60()
        if g is not None:
            r = substitute(r, {g: T60})
            self.I.symty[T60] = NUM
            self.I._ty[T60] = NUM
            self.I._shape[T60] = ()
        return r

    def t60(self):
        """The reverberation time the tail uses: what estimate_t60_from_beta returned for this room and its reflections."""
        have = set(subterms(self.off))
        for k in self.I.inlinecalls:
            if k["full"].endswith(".estimate_t60_from_beta") and k["ret"] in have:
                for n, v in k["env"].items():
                    want = attr(ROOM, "size" if "size" in n else "beta")
                    if n in ("size", "beta") and want not in list(subterms(v)):
                        self.c.ob("C33.tail.t60", self.w, None, f"reverberation time estimated from {show(v, 3)[:80]}")
                    elif n in ("size", "beta"):
                        rs = []
                        for i in range(self.D * (1 if n == "size" else 2)):
                            try:
                                rs.append(Cmp(self.mk).compare(self.F.el(v, C(i)), T("at", want, C(i))))
                            except NoLower:
                                rs.append(None)
                        r = False if False in rs else None if None in rs else True
                        self.c.ob("C33.tail.t60", self.w, r, f"the room's own {n}" if r else f"reverberation time estimated from {show(v, 3)[:80]}, not the room's {n}")
                return k["ret"]
        return None

    # ------------------------------------------------ the diffuse stage
    def tail_law(self):
        r = self.sub(self.off)
        if r is None:
            self.c.ob("C33.tail", self.w, None, "the accumulated response is not identified")
            return
        e = self.F.el(r, *self.idx)
        at = lambda j: T("at", RIR, *self.idx[:-1], j)
        j = self.idx[-1]
        noise = {x: Z for x in subterms(e) if (x.op == "at" and callname(x.args[0]) in NOISE) or callname(x) in NOISE}
        noise = {k: v for k, v in noise.items() if not any(k is not o and k in list(subterms(o)) for o in noise)}
        e = substitute(e, noise)
        fs = attr(ROOM, "fs")
        K = call("builtins.min", B("-", S("nsample"), C(1)), T("call", T("ext", "math.floor"), (B("*", TD, fs),), ()))
        start = T("cmp", "<=", K, j)
        known = [x for x in subterms(e) if x.op == "truth" and callname(x.args[0]) in ("math.isinf", "t.isinf")] + [x for x in subterms(e) if callname(x) in ("math.isinf", "t.isinf")]
        N0 = self.mk()
        facts = {}
        for x in known:
            if T60 in list(subterms(x)):
                facts[N0.norm(x)] = False
        seen = False
        for f, N, (v, st) in split(self.mk, [e, start], facts):
            has = Z in list(subterms(v))
            conds = [k if b else neg(k) for k, b in f.items() if k.op == "cmp"]
            if not has:
                if v.op == "phi" or any(x.op in ("unknown", "loopout", "mu") for x in subterms(v)):
                    self.c.ob("C33.tail.untouched", self.w, None, "not lowered")
                    continue
                C_ = Cmp(self.mk)
                r = C_.compare(v, at(j), f)
                if not feasible(conds):
                    continue
                self.c.ob("C33.tail.untouched", self.w, r, "earlier samples keep their values" if r else f"a sample outside the noise tail becomes {pshow(v, 4)[:160]}")
                continue
            if not feasible(conds):
                continue
            seen = True
            wh = poly.implies(conds, norm_cond(N, start), atleaf(N))
            self.c.ob("C33.tail.start", self.w, wh, "noise only from the transition sample on" if wh else "noise replaces a sample before the transition time")
            verdicts = []
            for lv in (B("-", K, C(1)), K):
                for k in (6.9078, 3 * math.log(10)):
                    dec = T("call", T("ext", "math.exp"), (B("/", B("*", B("*", C(-1.0), C(k)), B("-", j, K)), B("*", T60, fs)),), ())
                    want = B("*", B("*", Z, dec), T("call", T("ext", "builtins.abs"), (at(lv),), ()))
                    cm = Cmp(self.mk)
                    verdicts.append(cm.compare(tiny(v), want, f))
            r = True if True in verdicts else False if all(x is False for x in verdicts) else None
            self.c.ob("C33.tail.level", self.w, r, "noise times the level before the transition times the decay at the room's reverberation time" if r else
                      f"the tail is {pshow(v, 5)[:220]}")
        if not seen:
            self.c.ob("C33.tail", self.w, None, "no noise tail seen")

    # ------------------------------------------------ the filter stage
    def strip(self, t):
        while True:
            if callname(t) in STRIP and cargs(t):
                t = cargs(t)[0]
            else:
                return t

    def filter_law(self):
        for l in leaves(self.on) if self.on.op == "phi" else [self.on]:
            fl = [x for x in subterms(l) if callname(x) in FILTERS]
            outer = self.strip(l)
            if callname(outer) not in FILTERS:
                if not fl:
                    # nothing filtered: positive evidence only when the value is the unfiltered response itself
                    same = l is self.off or l in leaves(self.off)
                    self.c.ob("C33.filter.applied", self.w, False if same else None, "the filter is enabled but the returned response is the unfiltered one")
                else:
                    self.c.ob("C33.filter.applied", self.w, None, "filter result is processed further: " + show(outer, 2)[:80])
                continue
            self.c.ob("C33.filter.applied", self.w, True, callname(outer))
            a, k = list(cargs(outer)), ckw(outer)
            pos = 1 if "sos" in callname(outer) else 2
            x = a[pos] if len(a) > pos else k.get("x")
            ax = a[pos + 1] if len(a) > pos + 1 else k.get("axis", C(-1))
            nd = len(self.dims)
            ok = None if ax.op != "const" else ax.args[0] in (-1, nd - 1)
            self.c.ob("C33.filter.axis", self.w, ok, f"filters along axis {show(ax, 2)} of {nd}")
            # operand: the response before the filter, element for element
            if x is None:
                continue
            p = self.strip(x)
            if p is self.off or sorted(y.id for y in leaves(p)) == sorted(y.id for y in leaves(self.off)):
                self.c.ob("C33.filter.operand", self.w, True, "the whole response enters the filter")
            else:
                b = self.base()
                try:
                    g, w = self.F.el(self.sub(p), *self.idx), self.F.el(self.sub(self.off), *self.idx)
                    judge(self.c, "C33.filter.operand", self.w, self.mk, g, w, what="what enters the filter ")
                except (NoLower, TypeError):
                    self.c.ob("C33.filter.operand", self.w, None, "operand not lowered")
            self.place(l, p)
            self.cutoff(outer)

    def place(self, l, p):
        """Device and dtype of what is returned."""
        for what, want in (("device", DEV), ("dtype", DT)):
            got = place(self.I, l, what)
            got = got if got is None else self.flat(got)
            r = None if got is None else True if got is want else False if got.op in ("const", "ext", "sym") or got is NONE else None
            self.c.ob(f"C33.filter.{what}", self.w, r, "kept" if r else f"the filtered response's {what} is {show(got, 3)[:100] if got is not None else 'unknown'}")

    def flat(self, t):
        ls = []
        for l in leaves(t):
            if l.op == "attr" and l.args[1] in ("device", "dtype"):
                for b in bases(l.args[0]):
                    q = place(self.I, b, l.args[1])
                    ls.append(l if q is None else q)
            else:
                ls.append(l)
        ls = list(dict.fromkeys(ls))
        return ls[0] if len(ls) == 1 else T("phi?", t)

    def cutoff(self, flt):
        fs = attr(ROOM, "fs")
        ds = [x for x in subterms(flt) if callname(x) in ("scipy.signal.iirfilter", "scipy.signal.butter", "scipy.signal.cheby1", "scipy.signal.cheby2", "scipy.signal.ellip", "scipy.signal.bessel")]
        for d in ds[:1]:
            a, k = cargs(d), ckw(d)
            wn = a[1] if len(a) > 1 else k.get("Wn")
            bt = k.get("btype", a[2] if len(a) > 2 and "iirfilter" not in callname(d) else C("band"))
            if bt.op == "const":
                self.c.ob("C33.filter.kind", self.w, str(bt.args[0]).lower() in ("highpass", "high", "hp", "h"), f"btype {bt.args[0]!r}")
            if wn is None:
                continue
            fs2 = k.get("fs")
            want = B("/", B("*", C(2.0), attr(CFG, "rir_hpf_fc")), fs) if fs2 is None or fs2 is NONE else attr(CFG, "rir_hpf_fc")
            if fs2 is not None and fs2 is not NONE:
                judge(self.c, "C33.filter.cutoff", self.w + " rate", self.mk, fs2, fs, what="sampling rate ")
            mk = norms(self.I, pos=(fs, attr(CFG, "rir_hpf_fc")))
            judge(self.c, "C33.filter.cutoff", self.w, mk, wn, want, what="normalised cut-off ")
        if not ds:
            self.c.ob("C33.filter.cutoff", self.w, None, "filter design not seen")


def tiny(t):
    """Guards against zero (an added constant below 1e-6) are not part of the law."""
    if t.op != "poly":
        return t
    return mkpoly({m: c for m, c in t.args[0] if abs(c) >= 1e-6})


def norm_cond(N, c):
    return T("cmp", c.args[0], N.norm(c.args[1]), N.norm(c.args[2]))


def atleaf(N):
    def go(t):
        if t.op == "at":
            return t
        if t.op in ("attr",):
            return t
        return None
    return go


def feasible(conds):
    """The branch can be taken (as far as linear arithmetic can tell)."""
    L = poly.Lin(atleaf(None))
    try:
        return poly.sat([L.cond(f) for f in conds] + L.clauses)
    except (poly.Big, poly.Nonlinear):
        return True


def place(I, t, what):
    """The device or dtype a value is put on, by its conversions."""
    n = callname(t)
    if t.op == "phi":
        a, b = place(I, t.args[1], what), place(I, t.args[2], what)
        return a if a is b else None
    if n is None:
        return None
    k = ckw(t)
    if what in k and k[what] is not NONE:
        v = k[what]
        return assume(v, {})
    if n in ("t.double",) and what == "dtype":
        return T("ext", "torch.float64")
    if n in ("t.float",) and what == "dtype":
        return T("ext", "torch.float32")
    if n in ("t.cpu",) and what == "device":
        return C("cpu")
    if n in ("t.numpy",) and what == "device":
        return C("cpu")
    if n in FILTERS:
        return C("cpu") if what == "device" else T("ext", "torch.float64")
    if n in ("t.to", "t.contiguous", "t.clone", "np.ascontiguousarray", "np.asarray", "torch.as_tensor", "t.as_tensor", "torch.from_numpy", "t.from_numpy", "t.tensor", "torch.tensor", "m.copy", "t.detach") and cargs(t):
        return place(I, cargs(t)[0], what)
    return None


def check(c):
    for D in (2, 3):
        with c.rule("C33.tail", f"static {D}-D"):
            r = Run(c, False, D, True)
            r.tail_law()
            r.filter_law()
        for dyn in (False, True):
            with c.rule("C33.filter", f"{'dynamic' if dyn else 'static'} {D}-D"):
                r = Run(c, dyn, D, False)
                r.filter_law()
                b = r.base()
                c.ob("C33.filter.disabled", r.w, True if b is not None and r.off is b else None if b is None else None, "with the filter off the accumulated response itself is returned")
