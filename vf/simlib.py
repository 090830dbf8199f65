"""Shared view of the simulation core: what is added where, as scalar index expressions."""
from __future__ import annotations
from .terms import *
from .rules import *
from .lower import *
from .alg import Norm, Cmp, pconst, padd, pmul, cpoly, pd, mkpoly, fn
from .loader import AnalysisBroken
from . import shapes as sh_


def S(n):
    return T("sym", n)


ROOM, CFG, DEV, DT = S("room"), S("config"), S("dev"), S("dt")
LAT, KK = S("LATTICE"), S("K")
s_, m_, t_, j_, n_ = S("s"), S("m"), S("t"), S("j"), S("n")
NS, NM, NT = S("S"), S("M"), S("T")
STATIC = "torchrir.sim.ism.api.simulate_rir"
DYNAMIC = "torchrir.sim.ism.api.simulate_dynamic_rir"
INT = frozenset({"int"})


def attr(b, n):
    return T("attr", b, n)


class Sim:
    """One specialised abstract run of the static or dynamic simulator."""

    def __init__(self, c, dyn=False, D=3, kw=None, extra_shapes=None, extra_ty=None, facts=(), key=None, beta=True):
        self.dyn, self.D, self.c = dyn, D, c
        full = resolve_public(c.P, "simulate_dynamic_rir" if dyn else "simulate_rir")
        self.full = full
        d = const(D)
        sh = {attr(ROOM, "size"): (d,), attr(ROOM, "beta"): (const(2 * D),)}
        if dyn:
            sh.update({S("src_traj"): (NT, NS, d), S("mic_traj"): (NT, NM, d)})
        else:
            sh.update({S("sources"): (NS, d), S("mics"): (NM, d)})
        sh.update(extra_shapes or {})
        ty = {x: frozenset({"Tensor"}) for x in sh if x.op == "sym"}
        ty.update({ROOM: frozenset({"Room"}), CFG: frozenset({"SimulationConfig"}), DEV: frozenset({"device"}), DT: frozenset({"dtype"}),
                   S("nsample"): INT, S("max_order"): INT, NS: INT, NM: INT, NT: INT, KK: INT, S("fdl"): INT})
        ty.update(extra_ty or {})
        k = {"orientation": NONE, "nb_img": NONE, "directivity": const("omni"), "dtype": DT, "device": DEV}
        if not dyn:
            k["tdiff"] = NONE
        k.update(kw or {})
        isnone = T("cmp", "is", attr(ROOM, "beta"), NONE)
        pre = [neg(isnone) if beta else isnone] + list(facts)
        self.r = c.run(full, kw=k, pre=pre, key=("sim", dyn, D, tuple(sorted((a, b.id) for a, b in k.items())), beta, key), shapes=sh, symty=ty, updates="ops")
        self.I = self.r.I
        self.find_lattice()

    # ---------------------------------------------------------------- lattice of image indices
    def find_lattice(self):
        best = None
        seen = set()
        for e in self.r.events:
            if e.kind != "mut":
                continue
            for a in e.args:
                if not isinstance(a, T):
                    continue
                for x in subterms(a, seen):
                    if not isinstance(x, T) or x.op not in ("call", "item") or not self.lattice_root(x):
                        continue
                    if best is None or nsub(x) > nsub(best):
                        best = x
        self.lat = best
        self.map = {}
        if best is not None:
            k = self.I.shape(best)[0]
            self.map = {best: LAT}
            if k.op != "const":
                self.map[k] = KK
            self.I.shapes[LAT] = (KK, const(self.D))
            self.I.symty[LAT] = frozenset({"Tensor"})
            self.I.symty[KK] = INT
        self.memo = {}

    def sub(self, t):
        return substitute(t, self.map, self.memo) if isinstance(t, T) and self.map else t

    def lattice_root(self, x):
        sh = self.I.shape(x)
        if sh is None or len(sh) != 2 or sh[1] is not const(self.D):
            return False
        if x.op == "item":
            its = x.args[1].args if x.args[1].op == "tuple" else (x.args[1],)
            if not sh_.is_bool(self.I, its[0]) or "Tensor" not in self.I.ty(its[0]):
                return False
        elif x.args[0].op != "ext" or x.args[0].args[0] not in ("t.stack", "torch.cartesian_prod", "t.reshape", "t.index_select", "t.transpose", "t.cat"):
            return False
        g = False
        for y in subterms(x):
            if not isinstance(y, T):
                continue
            if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] in ("vf.grid", "torch.meshgrid", "t.meshgrid", "torch.cartesian_prod", "itertools.product"):
                g = True
            if y in (S("sources"), S("mics"), S("src_traj"), S("mic_traj")) or y.op == "attr" and y.args[0] is ROOM:
                return False
        return g

    def lower(self, **kw):
        return Lower(self.I, leaves={LAT}, **kw)

    # ---------------------------------------------------------------- arrivals
    def arrivals(self):
        """(event, base, position term, value term, masked by) of every accumulation into the response."""
        out = []
        for e in self.r.events:
            if e.kind != "mut":
                continue
            if e.fn in ("scatter_add_", "index_add_", "scatter_reduce_") and len(e.args) >= 3:
                an, kn = e.extra if e.extra else (e.args, e.kw)
                a = list(e.args)
                kw = dict(e.kw)
                dim = kw.get("dim", a[1] if len(a) > 1 else None)
                rest = a[2:] if "dim" not in kw else a[1:]
                idx = kw.get("index", rest[0] if rest else None)
                src = kw.get("src", kw.get("source", rest[-1] if len(rest) > 1 or "index" in kw and rest else None))
                out.append((e, self.sub(a[0]), dim, self.sub(idx), self.sub(src)))
        return out


_n = {}


def nsub(x):
    r = _n.get(x)
    if r is None:
        r = _n[x] = sum(1 for y in subterms(x) if isinstance(y, T))
    return r


def resolve_public(P, name):
    """Fully qualified definition behind the public name."""
    hits = [f for f, _m, _n, _o in all_functions(P) if f.rsplit(".", 1)[-1] == name and "experimental" not in f]
    if not hits:
        raise AnalysisBroken(f"public function {name} not found")
    return sorted(hits, key=len)[0]


def resolve_method(P, cls, name):
    hits = [f for f, _m, _n, _o in all_functions(P) if f.endswith(f".{cls}.{name}") and "experimental" not in f]
    if not hits:
        raise AnalysisBroken(f"public method {cls}.{name} not found")
    return sorted(hits, key=len)[0]


# ------------------------------------------------------------------ the stated formulas
def B(op, a, b):
    return T("bin", op, a, b)


def C(v):
    return const(v)


FDL, GRAN = attr(CFG, "frac_delay_length"), attr(CFG, "sinc_lut_granularity")
FS, CC = attr(ROOM, "fs"), attr(ROOM, "c")
H, KQ, NSAMP = S("h"), S("kq"), S("N")
CASES = ("even>=0", "odd>0", "even<0", "odd<0")


def kq(d):
    return T("at", KQ, d)


def index_case(case, d):
    k = kq(d)
    return {"even>=0": B("*", C(2), k), "odd>0": B("+", B("*", C(2), k), C(1)), "even<0": B("-", C(-2), B("*", C(2), k)),
            "odd<0": B("-", C(-1), B("*", C(2), k))}[case]


def reflections(case, d):
    """(at the low wall, at the high wall) by alternate mirroring."""
    k, k1 = kq(d), B("+", kq(d), C(1))
    return {"even>=0": (k, k), "odd>0": (k, k1), "even<0": (k1, k1), "odd<0": (k1, k)}[case]


def mknorm(I, case=None, eps=1e-3, facts=None, extra=None, ints=()):
    def fold(t, N):
        if case is not None and t.op == "at" and t.args[0] is LAT and len(t.args) == 3:
            return N.norm(index_case(case, t.args[2]))
        return None

    def mk(f=None):
        ff = dict(facts or {})
        ff.update(f or {})
        N = Norm(I, env={FDL: None}, ints=set(ints) | {s_, m_, t_, j_, n_, NS, NM, NT, KK, NSAMP, H, GRAN, S("nsample"), S("max_order")},
                 nonneg={H, s_, m_, t_, j_, n_, ("pos", GRAN), ("pos", FS), ("pos", CC)}, facts=ff, epsmax=eps, fold=fold)
        N.intb |= {LAT, KQ}
        N.nnb |= {KQ}
        N.env = {FDL: padd(pmul(cpoly(2), H), cpoly(1))}
        for a, b in (extra or {}).items():
            N.env[a] = N.norm(b)
        return N
    return mk


class Law:
    """Expected expressions for source s, microphone m (and time step t)."""

    def __init__(self, case, D, dyn=False, src=None, mic=None, size=None, beta=None):
        b = T("bv", 0)
        src = src or (lambda d: T("at", S("src_traj"), t_, s_, d) if dyn else T("at", S("sources"), s_, d))
        mic = mic or (lambda d: T("at", S("mic_traj"), t_, m_, d) if dyn else T("at", S("mics"), m_, d))
        size = size or (lambda d: T("at", attr(ROOM, "size"), d))
        beta = beta or (lambda i: T("at", attr(ROOM, "beta"), i))
        n = index_case(case, b)
        img = B("+", B("*", n, size(b)), src(b)) if case.startswith("even") else B("-", B("*", B("+", n, C(1)), size(b)), src(b))
        self.diff = B("-", mic(b), img)
        self.dist = B("**", T("red", "sum", b, C(D), B("**", self.diff, C(2))), C(0.5))
        self.delay = B("/", B("*", self.dist, FS), CC)
        self.sample = B("+", self.delay, H)
        self.start = T("call", T("ext", "t.floor"), (self.sample,), ())
        lo, hi = reflections(case, b)
        self.refl = T("red", "prod", b, C(D), B("*", B("**", beta(B("*", C(2), b)), lo), B("**", beta(B("+", B("*", C(2), b), C(1))), hi)))
        self.amp = B("/", self.refl, self.dist)
        self.pos = B("-", B("+", self.start, n_), H)                # sample index written by tap n
        self.arg = B("-", self.pos, self.sample)                     # distance of that sample from the arrival
        self.window = T("call", T("ext", "vf.hann"), (FDL, FALSE, n_), ())


def arrival_views(X):
    """For every accumulation: dict with event, base dims, lowered position / value / validity, or the reason it is not understood."""
    out = []
    for e, base, dim, idx, src in X.arrivals():
        v = {"e": e, "base": base, "why": None}
        out.append(v)
        b = base
        while b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in ("t.reshape", "t.flatten", "t.contiguous", "t.detach") and b.args[1]:
            b = b.args[1][0]
        v["root"] = b
        v["dims"] = X.I.shape(b)
        if idx is None or src is None or v["dims"] is None:
            v["why"] = "operands not identified"
            continue
        sh = X.I.shape(idx)
        if sh is None:
            v["why"] = "shape of the positions unknown"
            continue
        lead = ((t_, NT), (s_, NS), (m_, NM)) if X.dyn else ((s_, NS), (m_, NM))
        lead = tuple((i, d) for i, d in lead if d in sh_.factors(sh_.prod(v["dims"])) or any(d is z for z in v["dims"]))
        q = mix(*lead) if lead else ZERO
        v["q"], v["lead"] = q, lead
        L = X.lower(same=lambda a, b: mknorm(X.I)().cnorm(num(a)) is mknorm(X.I)().cnorm(num(b)))
        v["L"] = L
        mask = None
        if len(sh) == 1 and sh[0].op == "nz":
            mask = sh[0].args[0]
            ms = X.I.shape(mask)
            if ms is None or len(ms) != 3:
                v["why"] = "layout of the selection mask not understood"
                continue
            sel = (T("sel", mask, entry_index(ms, q)),)
            v["mask"] = num(L.at(mask, entry_index(ms, q)))
        elif len(sh) == 3:
            sel = entry_index(sh, q)
            v["mask"] = None
        else:
            v["why"] = "layout of the positions not understood"
            continue
        v["pos"] = num(L.at(idx, sel))
        v["val"] = num(L.at(src, sel))
        # every operand must be taken from the same image
        im = []
        for x in (v["pos"], v["val"]) + ((v["mask"],) if v["mask"] is not None else ()):
            for y in subterms(x):
                if isinstance(y, T) and y.op == "at" and y.args[0] is LAT and y.args[1] not in im:
                    im.append(y.args[1])
        v["images"] = im
        if len(im) == 1:
            ren = {im[0]: j_} if im[0] is not j_ else {}
            for k in ("pos", "val", "mask"):
                if v.get(k) is not None and ren:
                    v[k] = substitute(v[k], ren)
            v["reads"] = [(a, b, substitute(num(i), ren)) for a, b, i in L.reads]
        elif not im:
            v["why"] = "no image index found in the accumulated terms"
    return out


def entry_index(sh, q):
    return (q, j_, n_)
