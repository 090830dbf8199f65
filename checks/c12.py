"""C12: dtype inference with integer inputs: every geometry parameter is given an integer dtype in turn, and the value-flow graph is searched for floating-point data stored into, created with or converted to the input's integer type, for operations integers do not support, and for results that stay integer."""
from vf.law import *
from vf.simconf import *
from vf.place import *
from vf.rules import *
from vf.loader import PKG
from .c11 import roots, walk, origin, pretty, live, given, plain, DEV, DT

INT = T("ext", "torch.input_integer")
INTS.add("torch.input_integer")
FLOATONLY = {"norm", "vector_norm", "matrix_norm", "mean", "std", "var", "rfft", "fft", "softmax", "normalize", "median_", "cov", "inverse", "solve", "qr", "svd", "lerp", "frac"}
TXT = {"trunc": "floating-point values are truncated to the integer type of the input", "fails": "this operation fails on integers", "floordiv": "integer division drops the fraction", "wide": "integer arithmetic wraps or overflows where floats do not"}


class IntPlaces(Places):
    """Places in which the chosen inputs hold integers."""

    def __init__(self, I, alias=None, decide=None, ints=(), seqs=()):
        super().__init__(I, alias, decide, ints)
        self.seqs = set(seqs)

    def assuming(self, c, value):
        old = self.decide
        r = IntPlaces(self.I, self.alias, lambda x: value if x is c else old(x) if old else None, self.ints, self.seqs)
        r.absent(c, value)
        return r

    def literal(self, t):
        if t in self.seqs:
            return INT, []
        return super().literal(t)

    def root(self, t):
        p = super().root(t)
        if t in self.ints:
            return P(p.dev, INT)
        return p

    def isint(self, dt):
        return dt is INT

    def narrow(self, t, x, old, new):
        super().narrow(t, x, old, new)
        if cat(old) == "float" and self.isint(new):
            self.note("trunc", t, old, new)

    def floaty(self, t):
        """Does literal data certainly hold non-integer numbers?"""
        if not isinstance(t, T):
            return False
        if t.op == "const":
            return isinstance(t.args[0], float) and not t.args[0].is_integer()
        if t.op in ("list", "tuple"):
            return any(self.floaty(x) for x in t.args)
        if t.op == "listof":
            return any(self.floaty(x) for x in tuple(t.args[1]) + tuple(t.args[2]))
        p = self.of(t)
        return p.py == "float" or p.py is None and cat(p.dt) == "float"

    def call(self, t):
        r = super().call(t)
        full = callname(t) or ""
        n = full.split(".")[-1]
        if not full.startswith(("torch.", "t.")):
            return r
        a, k = cargs(t), ckw(t)
        if n in FRESH | GIVEN | LIKE and self.isint(r.dt):
            src = list(a) + list(k.values())
            if n in ("linspace", "rand", "randn", "normal") or n.endswith("_window") or n in ("rand_like", "randn_like") or \
                    n in {"full", "full_like", "arange"} | GIVEN and any(self.floaty(x) for x in src):
                self.note("trunc", t, DEFAULT, INT)
        if n in ("type_as",) and a and len(a) > 1:
            self.narrow(t, a[0], self.of(a[0]).dt, self.of(a[1]).dt)
        if n in FLOATONLY and a and self.isint(self.of(a[0]).dt) and "dtype" not in k:
            self.note("fails", t, INT, DEFAULT)
        if n == "floor_divide" and a and self.isint(self.of(a[0]).dt) or n == "div" and k.get("rounding_mode", NONE) is not NONE and a and self.isint(self.of(a[0]).dt):
            self.note("floordiv", t, INT, INT)
        return r

    def _of(self, t):
        if t.op == "bin" and t.args[0] == "//" and self.isint(self.of(t.args[1]).dt):
            self.note("floordiv", t, INT, INT)
        return super()._of(t)


def scan(r, L, kinds):
    seen = set()
    for t in roots(r, L):
        for x in walk(t, seen, L):
            if x.op == "store":
                b, v = L.of(x.args[0]), L.of(x.args[2])
                if not b.py and not b.np and L.isint(b.dt) and (L.floaty(x.args[2])):
                    L.note("trunc", x, v.dt or DEFAULT, b.dt)
            else:
                L.of(x)
    return [b for b in L.bad if b[0] in kinds and b[1] in seen], seen


KINDS = ("trunc", "fails", "floordiv")


def judge(c, name, r, L, result=True):
    bad, seen = scan(r, L, KINDS)
    splits = list(L.splits)
    for f in splits[:6]:
        for v in (True, False):
            b2, _ = scan(r, L.assuming(f, v), KINDS)
            bad += [b for b in b2 if not any(b[0] == x[0] and b[1] is x[1] for x in bad)]
    said = set()
    for kind, t, a, b in bad:
        w = origin(r, t) or pretty(t)
        if (kind, w) not in said:
            said.add((kind, w))
            c.ob(f"C12.{kind}", f"{name}: {w}", False, f"{TXT[kind]}: {pretty(t)}")
    for kind in KINDS:
        if not any(b[0] == kind for b in bad):
            c.ob(f"C12.{kind}", name, True, f"{len(seen)} terms, {sum(1 for x in seen if L.memo.get(x, UNK).dt is INT)} of the integer type")
    if not result or r.state is None or not isinstance(r.ret, T) or r.ret.op == "dead":
        return
    outs = []
    t = r.I.freeze(r.state, r.ret)
    for l in live(L, t):
        outs += list(l.args) if l.op == "tuple" else [l]
    for o in outs:
        for l in live(L, o):
            p = L.of(l)
            if p.py or p.np or l is NONE or p.dt is None:
                continue
            c.ob("C12.result", name, p.dt is not INT, f"keeps the integer type of the input: {pretty(l)}")


KEEPS = {"as_tensor", "ensure_dim", "extend_size"}   # promise to keep the input's type
MEANT = {"nb_img", "tensor", "signal", "rir", "rirs", "samples", "waveform", "audio", "cos_theta"}


def functions(c):
    for full, m, node, owner in all_functions(c.P):
        mod = m.name.replace(PKG + ".", "")
        if owner is not None or node.name.startswith("_") or not mod.startswith(("util.", "geometry.", "models.")) or node.name in KEEPS:
            continue
        ps = node.args.args + node.args.kwonlyargs
        names = [x.arg for x in ps]
        tens = [x.arg for x in ps if x.annotation is not None and "Tensor" in mentions(x.annotation) and x.arg not in MEANT]
        seqs = [x.arg for x in ps if x.annotation is not None and {"Sequence", "Iterable"} & set(mentions(x.annotation)) and x.arg in tens]
        if not tens:
            continue
        nm = f"{mod}.{node.name}"
        kw = {x: NONE for x in ("device", "dtype") if x in names}
        sets = [tuple(tens)] + [(x,) for x in tens if len(tens) > 1]
        for ints in sets:
            with c.rule("C12.function", f"{nm}, integer {', '.join(ints)}"):
                r = c.run(full, kw=kw, key="c12", symty={S(x): TEN for x in tens}, updates=True)
                L = IntPlaces(r.I, {}, plain, [S(x) for x in ints])
                judge(c, f"{nm}, integer {', '.join(ints)}", r, L)
        for x in seqs:
            with c.rule("C12.function", f"{nm}, {x} a list of integers"):
                r = c.run(full, kw=kw, key=("c12", x), symty={**{S(y): TEN for y in tens}, S(x): frozenset({"list"})}, updates=True)
                L = IntPlaces(r.I, {}, plain, [], [S(x)])
                judge(c, f"{nm}, {x} a list of integers", r, L)


def models(c):
    """Fields that hold geometry are floating point after construction."""
    for full, kw, fields in (("torchrir.models.room.Room", {"size": TEN}, ("size",)), ("torchrir.models.room.Room.shoebox", {"size": TEN}, ("size",)),
                             ("torchrir.models.room.Source", {"positions": TEN, "orientation": TEN}, ("positions", "orientation")), ("torchrir.models.room.Source.from_positions", {"positions": TEN, "orientation": TEN}, ("positions", "orientation")),
                             ("torchrir.models.room.MicrophoneArray", {"positions": TEN, "orientation": TEN}, ("positions", "orientation")), ("torchrir.models.room.MicrophoneArray.from_positions", {"positions": TEN, "orientation": TEN}, ("positions", "orientation")),
                             ("torchrir.models.scene.DynamicScene", {"src_traj": TEN, "mic_traj": TEN}, ("src_traj", "mic_traj"))):
        nm = full.replace("torchrir.", "")
        cls, _, meth = full.rpartition(".")
        call = full if meth[0].isupper() else f"{cls}.{meth}"
        mod, name = (full.rsplit(".", 1) if meth[0].isupper() else cls.rsplit(".", 1))
        extra = [p for p in {"Room": ("fs", "beta"), "DynamicScene": ("room", "sources", "mics")}.get(name, ())]
        ps = list(kw) + extra
        src = f"from {mod} import {name}\ndef use({', '.join(ps)}):\n    o = {name}{'' if meth[0].isupper() else '.' + meth}({', '.join(f'{p}={p}' for p in ps)})\n    return ({', '.join('o.' + f for f in fields)},)\n"
        with c.rule("C12.model", nm):
            ty = {S(p): t for p, t in kw.items()}
            if "beta" in ps:
                ty[S("beta")] = TEN
            if name == "DynamicScene":
                ty.update({S("room"): frozenset({"Room"}), S("sources"): frozenset({"Source"}), S("mics"): frozenset({"MicrophoneArray"})})
            pre = [given(S("orientation"))] if "orientation" in ps else []
            r = c.user(src, ("c12", nm), pre=pre, symty=ty, updates=True)
            if r.state is None:
                c.ob("C12.model", nm, None, "construction not followed")
                continue
            L = IntPlaces(r.I, {}, plain, [S(p) for p in kw] + ([S("beta")] if "beta" in ps else []))
            judge(c, nm, r, L)


def engine(c):
    for full, ins in ((STATIC, ("sources", "mics")), (DYNAMIC, ("src_traj", "mic_traj"))):
        nm = full.split(".")[-1]
        a, b, sz, be = S(ins[0]), S(ins[1]), attr(ROOM, "size"), attr(ROOM, "beta")
        ty = {CFG: frozenset({"SimulationConfig"}), ROOM: frozenset({"Room"}), a: TEN, b: TEN, be: TEN | {"None"}, S("orientation"): TEN | {"None"}}
        for what, ints in (("sources", [a]), ("microphones", [b]), ("sources and microphones", [a, b]), ("reflection coefficients", [be]), ("everything", [a, b, be, S("orientation")])):
            with c.rule("C12.engine", f"{nm}, integer {what}"):
                r = c.run(full, kw={"config": CFG, "device": NONE, "dtype": NONE}, pre=[given(CFG), T("cmp", "is", attr(CFG, "device"), NONE)], key="c12", symty=ty, updates=True)
                L = IntPlaces(r.I, {}, plain, ints)
                judge(c, f"{nm}, integer {what}", r, L)


def check(c):
    functions(c)
    models(c)
    engine(c)
