"""C23: value-flow analysis of the metadata record: every entry lowered to its elements and compared in normal form with the value of the object it names, for static and moving scenes; type flow showing every entry (and every kind of user-supplied extra) becomes plain JSON; and agreement of the file written with the record returned."""
from vf.law import *
from vf.simconf import *
from vf.rules import *
from vf.alg import Norm, Cmp
from vf.lower import Lower
from .c08 import visible

ROOM, SRC, MIC, RIRS, ST, MT, TS, SL, INFO, EX = (S(x) for x in ("room", "sources", "mics", "rirs", "src_traj", "mic_traj", "timestamps", "signal_len", "source_info", "extra"))
OUT, NAME, PATH = S("out_dir"), S("metadata_name"), S("path")
B_, SV = "torchrir.io.metadata.build_metadata", "torchrir.io.outputs.save_scene_metadata"
SIZE, BETA, T60, CS, FS = (attr(ROOM, x) for x in ("size", "beta", "t60", "c", "fs"))
SP, MP, SO, MO = attr(SRC, "positions"), attr(MIC, "positions"), attr(SRC, "orientation"), attr(MIC, "orientation")
NS, NM, NT, L_, U = S("ns"), S("nm"), const(5), S("nsamples"), S("u")
isnone = lambda t: T("cmp", "is", t, NONE)
given = lambda t: neg(isnone(t))
TY = {ROOM: frozenset({"Room"}), SRC: frozenset({"Source"}), MIC: frozenset({"MicrophoneArray"}), RIRS: TEN, ST: TEN, MT: TEN, TS: TEN, SL: INT,
      SIZE: TEN, BETA: TEN, SP: TEN, MP: TEN, SO: TEN, MO: TEN, T60: NUM, CS: NUM, FS: NUM, OUT: frozenset({"Path"}), NAME: frozenset({"str"})}
i_, j_, t_, k_ = S("i"), S("j"), S("t"), S("k")
# shapes / json wrappers that keep the values of their argument
KEEP = {"t.tolist", "t.to", "t.detach", "t.cpu", "t.clone", "t.numpy", "t.contiguous", "t.item", "builtins.float", "builtins.int", "builtins.list", "builtins.tuple", "t.float", "t.double", "t.data", "t.resolve_conj", "np.asarray", "numpy.asarray", "np.array", "numpy.array"}


def strip(t):
    while isinstance(t, T) and t.op == "call" and callname(t) in KEEP and cargs(t):
        t = cargs(t)[0]
    return t


def fields(t):
    """{key: (value, certain)} of a record; None when it is not a known dictionary."""
    if not isinstance(t, T):
        return None
    if t.op == "dict":
        out = {}
        for x in t.args:
            k, v = x.args if isinstance(x, T) else x
            if k.op != "const":
                return None
            out[k.args[0]] = (v, True)
        return out
    if t.op == "dictof":
        out = {}
        for s, some in ((t.args[0], True), (t.args[1], False)):
            for x in s:
                k, v = x.args if isinstance(x, T) else x
                if not isinstance(k, T) or k.op != "const":
                    return None
                if k.args[0] not in out:
                    out[k.args[0]] = (v, some)
        return out
    if t.op == "phi":
        a, b = fields(t.args[1]), fields(t.args[2])
        if a is None or b is None:
            return None
        out = {}
        for k in list(a) + [x for x in b if x not in a]:
            if k in a and k in b:
                v = a[k][0] if a[k][0] is b[k][0] else T("phi", t.args[0], a[k][0], b[k][0])
                out[k] = (v, a[k][1] and b[k][1])
            else:
                out[k] = ((a.get(k) or b.get(k))[0], False)
        return out
    return None


def get(t, path):
    """(value, certain, why): value None when missing, why set when the record was not followed."""
    sure = True
    for k in path.split("."):
        f = fields(t)
        if f is None:
            return None, False, f"not followed: {show(t, 2)[:60]}"
        if k not in f:
            return None, False, ""
        t, s = f[k]
        sure = sure and s
    return t, sure, ""


class Scene:
    def __init__(self, c, full, label, D=3, src=None, mic=None, kw=None, pre=(), user=None):
        self.c, self.label, self.D = c, label, D
        kw = dict(kw or {})
        kw.setdefault("timestamps", NONE)
        kw.setdefault("signal_len", NONE)
        kw.setdefault("source_info", NONE)
        kw.setdefault("extra", NONE)
        d = const(D)
        sh = {SIZE: (d,), BETA: (const(2 * D),), SP: (NS, d), MP: (NM, d), SO: (NS, d), MO: (NM, d), RIRS: (NS, NM, L_), TS: (NT,)}
        n = {"one": const(1)}
        self.steps = 1
        for P, how, cnt in ((ST, src, NS), (MT, mic, NM)):
            if how is None:
                kw[P.args[0]] = NONE
            else:
                sh[P] = (NT, d) if how == "flat" else (NT, cnt, d)
                self.steps = NT
        if src == "flat":
            sh[SP] = (const(1), d)
        self.sh = sh
        pre = list(pre)
        if full == SV:
            kw["logger"] = NONE
        self.full = full
        self.r = c.run(full, kw=kw, pre=pre, key=("c23", full, label), shapes=sh, symty=TY, recur=4)
        self.dead = self.r.state is None or not isinstance(self.r.ret, T) or self.r.ret.op == "dead"
        self.rec = None if self.dead else self.r.I.freeze(self.r.state, self.r.ret)
        self.L = Lower(self.r.I, leaves={SIZE, BETA, SP, MP, SO, MO, RIRS, ST, MT, TS})
        self.facts = pre

    def mk(self):
        return norms(self.r.I, ints=INTS, pos=POS, nonneg=NONNEG, env={SL: B("+", const(1), U)})

    def where(self, p):
        return f"{self.full.rsplit('.', 1)[-1]} {p} ({self.label})"


def settle(t, facts):
    """Branches of t decided by the facts of the scene."""
    t = strip(t)
    while isinstance(t, T) and t.op == "phi":
        v = decide(t.args[0], facts)
        if v is None:
            return t
        t = strip(t.args[1] if v else t.args[2])
    return t


def decide(cnd, facts):
    for f in facts:
        if f is cnd:
            return True
        if neg(f) is cnd:
            return False
    if cnd.op in ("and", "or"):
        vs = [decide(x, facts) for x in cnd.args]
        if cnd.op == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if cnd.op == "not":
        v = decide(cnd.args[0], facts)
        return None if v is None else not v
    return None


def outs(t):
    t = strip(t)
    if isinstance(t, T) and t.op == "phi":
        return outs(t.args[1]) + outs(t.args[2])
    return [t]


def holds(X, path, idx, want, what, rule="C23.value"):
    c = X.c
    w = X.where(path)
    with c.rule(rule, w):
        v, sure, why = get(X.rec, path)
        if v is None:
            c.ob(rule, w, None if why else False, why or "is missing from the record")
            return
        v = settle(v, X.facts)
        if decide(T("cmp", "is", v, NONE), X.facts) is True:
            v = NONE
        if v is NONE and want is not NONE:
            c.ob(rule, w, False, f"is None although {what} is given")
            return
        if want is NONE:
            c.ob(rule, w, True if v is NONE else None if v.op == "phi" and any(x is NONE for x in outs(v)) else False, f"is {show(v, 2)[:60]} although there is no {what}")
            return
        try:
            got = X.L.at(v, idx) if idx is not None else v
        except Exception as ex:  # not lowered
            got = None
            c.note(f"{w}: {ex}") if hasattr(c, "note") else None
        res = None
        if got is not None:
            got = strip(got)
            if isinstance(got, T) and got.op == "phi":
                got = settle(got, X.facts)
            if got is want:
                res = True
            else:
                K = Cmp(X.mk())
                res = K.compare(got, want)
                if res is False:
                    det = f"{pshow(K.witness[1], 4)[:120]}, not {pshow(K.witness[2], 4)[:100]}" if K.witness else f"{show(got, 3)[:100]}"
                    c.ob(rule, w, False, f"holds {det} ({what})")
                    return
        if res is None:
            have = {x for x in visible(v) if x in DATA}
            need = {x for x in visible(want) if x in DATA}
            if need and not have & need:
                c.ob(rule, w, False, f"holds {show(v, 3)[:80]}, which does not come from {what}")
                return
        c.ob(rule, w, res, f"not decided: {show(got if got is not None else v, 3)[:120]}" if res is None else what)


INTS = (NS, NM, L_, i_, j_, t_, k_, SL, U)
POS = (FS, CS)
NONNEG = (NS, NM, L_, i_, j_, t_, k_, U)
DATA = {SIZE, BETA, T60, CS, FS, SP, MP, SO, MO, ST, MT, TS, SL, RIRS, INFO, EX}


def at(t, *i):
    return T("at", t, *i)


atan2 = lambda y, x: T("call", T("ext", "t.atan2"), (y,), (("other", x),))
f = lambda n, *x: T("call", T("ext", "t." + n), tuple(x), ())


def values(X, src, mic):
    D = X.D
    if X.dead:
        X.c.ob("C23.value", X.where("record"), False, "a valid scene is refused")
        return
    e = k_
    holds(X, "room.size", (e,), at(SIZE, e), "room.size")
    holds(X, "room.c", None, CS, "room.c")
    holds(X, "room.fs", None, FS, "room.fs")
    holds(X, "sources.positions", (i_, e), at(SP, i_, e), "sources.positions")
    holds(X, "mics.positions", (j_, e), at(MP, j_, e), "mics.positions")
    holds(X, "array.positions", (j_, e), at(MP, j_, e), "mics.positions")
    try:
        mean = X.L.at(T("call", T("ext", "t.mean"), (MP,), (("dim", const(0)),)), (e,))
    except Exception:
        mean = None
    if mean is not None:
        holds(X, "array.center", (e,), mean, "the mean of mics.positions")
    holds(X, "time_axis.fs", None, FS, "room.fs")
    holds(X, "time_axis.nsample", None, L_, "the length of the responses")
    holds(X, "time_axis.t", (e,), B("/", e, FS), "sample times at room.fs")
    moving = src or mic
    el = {None: lambda P, Q, t, i, d: at(Q, i, d), "full": lambda P, Q, t, i, d: at(P, t, i, d), "flat": lambda P, Q, t, i, d: at(P, t, d)}
    s = lambda t, i, d: el[src](ST, SP, t, i, d)
    m = lambda t, j, d: el[mic](MT, MP, t, j, d)
    if not moving:
        holds(X, "trajectories.sources", None, NONE, "motion")
        holds(X, "trajectories.mics", None, NONE, "motion")
    else:
        z = const(0) if src == "flat" else i_
        if src:
            holds(X, "trajectories.sources", (t_, z, e), s(t_, z, e), "src_traj")
        if mic:
            holds(X, "trajectories.mics", (t_, j_, e), m(t_, j_, e), "mic_traj")
        for p, on, who, val in (("trajectories.sources", src, "sources", s), ("trajectories.mics", mic, "mics", m)):
            if not on:
                v, _, why = get(X.rec, p)
                if v is not None and settle(v, X.facts) is not NONE:
                    holds(X, p, (t_, i_ if who == "sources" else j_, e), val(t_, i_ if who == "sources" else j_, e), f"the fixed {who}")
    n = t_ if moving else const(0)
    zi = const(0) if src == "flat" else i_
    d = [B("-", s(n, zi, const(q)), m(n, j_, const(q))) for q in range(D)]
    if src or mic or True:
        holds(X, "doa.azimuth", (n, zi, j_), atan2(d[1], d[0]), "the direction from microphone to source")
        if D == 3:
            holds(X, "doa.elevation", (n, zi, j_), atan2(d[2], f("sqrt", B("+", B("*", d[0], d[0]), B("*", d[1], d[1])))), "the direction from microphone to source")
    w = X.where("dynamic")
    v, _, why = get(X.rec, "dynamic")
    if v is None:
        X.c.ob("C23.value", w, None if why else False, why or "is missing")
    else:
        if v.op == "call" and callname(v) == "builtins.bool":
            v = cargs(v)[0]
        got = v.args[0] if v.op == "const" else decide(v, X.facts)
        X.c.ob("C23.value", w, None if got is None else bool(got) == bool(moving), f"is {got} for a {'moving' if moving else 'static'} scene")
    w = X.where("rirs_shape")
    v, _, why = get(X.rec, "rirs_shape")
    if v is None:
        X.c.ob("C23.value", w, None if why else False, why or "is missing")
    else:
        sh = shape_list(v)
        X.c.ob("C23.value", w, None if sh is None else sh == (NS, NM, L_), f"is {[show(x, 2)[:20] for x in sh or ()]}")


def shape_list(v):
    v = strip(v)
    if v.op == "listof" and not v.args[2]:
        return tuple(strip(x) for x in v.args[1])
    if v.op == "attr" and v.args[1] == "shape" and v.args[0] is RIRS or v is attr(RIRS, "shape"):
        return (NS, NM, L_)
    if v.op == "call" and callname(v) in ("t.size", "t.shape") and cargs(v) == (RIRS,):
        return (NS, NM, L_)
    if v.op in ("list", "tuple"):
        return tuple(strip(x) for x in v.args)
    return None


def optional(c, full):
    """Entries of optional values."""
    for nm, a, path, idx, want in (("t60", T60, "room.t60", None, T60), ("beta", BETA, "room.beta", (k_,), at(BETA, k_)),
                                   ("source orientation", SO, "sources.orientation", (i_, k_), at(SO, i_, k_)), ("microphone orientation", MO, "mics.orientation", (j_, k_), at(MO, j_, k_)),
                                   ("array orientation", MO, "array.orientation", (j_, k_), at(MO, j_, k_))):
        for on in (True, False):
            X = Scene(c, full, f"{nm} {'given' if on else 'absent'}", pre=[given(a) if on else isnone(a)])
            if X.dead:
                c.ob("C23.value", X.where(path), False, "a valid scene is refused")
                continue
            holds(X, path, idx if on else None, want if on else NONE, nm)
    X = Scene(c, full, "timestamps given", src="full", mic="full", kw={"timestamps": TS}, pre=[given(TS)])
    if not X.dead:
        holds(X, "timestamps", (k_,), at(TS, k_), "timestamps")
    X = Scene(c, full, "timestamps and length given", src="full", mic="full", kw={"timestamps": TS, "signal_len": SL}, pre=[given(TS), given(SL)])
    if not X.dead:
        holds(X, "timestamps", (k_,), at(TS, k_), "timestamps")
    X = Scene(c, full, "length given", src="full", mic="full", kw={"signal_len": SL}, pre=[given(SL), T("cmp", "<", const(1), SL)])
    if not X.dead:
        dur = B("/", B("-", SL, const(1)), FS)
        holds(X, "timestamps", (k_,), B("*", k_, B("/", dur, B("-", NT, const(1)))), "times from 0 to the end of the signal")
    X = Scene(c, full, "static, timestamps given", kw={"timestamps": TS}, pre=[given(TS)])
    if not X.dead:
        holds(X, "timestamps", (k_,), at(TS, k_), "timestamps")
    X = Scene(c, full, "static, no times")
    if not X.dead:
        nearest(X)
        holds(X, "timestamps", None, NONE, "motion")


def nearest(X):
    """The array spacing is the smallest distance between two of its microphones."""
    v, _, why = get(X.rec, "array.spacing")
    if v is None:
        X.c.ob("C23.value", X.where("array.spacing"), None if why else False, why or "is missing")
        return
    red = set()
    for l in outs(v):
        x = strip(l)
        while callname(x) in ("builtins.float", "t.item", "builtins.round") and cargs(x):
            x = cargs(x)[0]
        if x is NONE:
            continue
        if callname(x) in ("t.min", "t.amin", "t.max", "t.amax", "t.mean", "t.median") and MP in list(visible(x)):
            red.add(callname(x)[2:])
        else:
            red.add(None)
    ok = None if not red or None in red else red <= {"min", "amin"}
    X.c.ob("C23.value", X.where("array.spacing"), ok, "the smallest distance" if ok else f"is the {'/'.join(sorted(map(str, red)))} of the distances between microphones")


# ---------------------------------------------------------------- plain JSON
RAW = {"Tensor", "ndarray", "Path", "device", "dtype", "generic", "SimulationConfig", "PurePath"}
PLAIN = {"t.tolist", "t.item", "builtins.float", "builtins.int", "builtins.str", "builtins.bool", "builtins.len", "builtins.round", "builtins.repr", "os.fspath", "m.as_posix", "m.tolist", "m.item", "math.floor", "math.ceil"}


def native(t, ty, path=""):
    """(verdict, offending part)."""
    if not isinstance(t, T):
        return None, path
    if t.op == "const":
        return (True if t.args[0] is None or isinstance(t.args[0], (bool, int, float, str)) else False), f"{path} {t.args[0]!r}"
    if t.op == "phi":
        def plainly(c, x):
            """Where c holds x is None or of a type JSON holds."""
            if c.op in ("or",):
                return all(plainly(a, x) for a in c.args)
            if c.op == "and":
                return any(plainly(a, x) for a in c.args)
            return c is T("cmp", "is", x, NONE) or c.op == "isinst" and c.args[0] is x and set(c.args[1]) <= {"str", "int", "float", "bool", "NoneType", "None"}
        c, a, b = t.args
        return both((True, path) if plainly(c, a) else native(a, ty, path), (True, path) if plainly(neg(c), b) else native(b, ty, path))
    if t.op == "fstr":
        return True, path
    if t.op in ("dict", "dictof", "list", "tuple", "listof"):
        f = fields(t) if t.op in ("dict", "dictof") else None
        if f is not None:
            return both(*[native(v, ty, f"{path}.{k}") for k, (v, _) in f.items()])
        if t.op in ("list", "tuple"):
            return both(*[native(x, ty, f"{path}[{n}]") for n, x in enumerate(t.args)])
        if t.op == "listof":
            return both(*[native(x, ty, f"{path}[]") for x in tuple(t.args[1]) + tuple(t.args[2]) if isinstance(x, T)])
        return None, path
    if t.op == "call":
        n = callname(t)
        if n in PLAIN:
            return True, path
        if n in ("builtins.list", "builtins.tuple") and cargs(t):
            a = cargs(t)[0]
            if a.op == "attr" and a.args[1] == "shape":
                return True, path
            if ty.get(a, frozenset()) & {"Tensor", "ndarray"}:
                return False, f"{path} a list of tensors"
            return None, path
        if n and (n.startswith("t.") or n.startswith("torch.")) and n not in ("torch.is_tensor", "t.numel", "t.dim", "t.size"):
            return False, f"{path} the tensor {show(t, 2)[:50]}"
        return None, path
    if t.op in ("cmp", "and", "or", "not"):
        return True, path
    k = ty.get(t)
    if t in (NS, NM, NT, L_) or t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and t.args[1].op == "const":
        return True, path
    if k and k & RAW:
        return False, f"{path} the {'/'.join(sorted(k))} {show(t, 2)[:40]}"
    if k and k <= {"int", "float", "str", "bool"}:
        return True, path
    return None, path


def both(*vs):
    for v in vs:
        if v[0] is False:
            return v
    for v in vs:
        if v[0] is None:
            return v
    return vs[0] if vs else (True, "")


def everything(X):
    if X.dead:
        return
    w = X.where("every entry")
    f_ = fields(X.rec)
    if f_ is None:
        X.c.ob("C23.plain", w, None, "record not followed")
        return

    def go(t, p):
        g = fields(t)
        if g is not None and t.op in ("dict", "dictof"):
            for k, (v, _) in g.items():
                go(v, f"{p}.{k}" if p else str(k))
            return
        v, d = native(t, TY, p)
        X.c.ob("C23.plain", X.where(p), v if v is False else True if v else None, f"is not plain JSON: {d.strip()}")
    go(X.rec, "")


A = {"a": ("tensor", frozenset({"Tensor"})), "b": ("path", frozenset({"Path"})), "q": ("array", frozenset({"ndarray"})), "d": ("device", frozenset({"device"})),
     "g": ("dtype", frozenset({"dtype"})), "n": ("number", frozenset({"int"})), "z": ("text", frozenset({"str"})), "y": ("array scalar", frozenset({"generic"}))}
FORMS = {"directly": ("{v}", ()), "in a list": ("[{v}]", (0,)), "in a tuple": ("({v}, 1)", (0,)), "in a dict": ('{{"u": {v}}}', ("u",)), "in a list of dicts": ('[{{"u": {v}}}]', (0, "u")), "in a dict of lists": ('{{"u": [1, {v}]}}', ("u", 1))}


def step(t, k):
    if isinstance(k, str):
        f_ = fields(t)
        return None if f_ is None else f_.get(k, (False, 0))[0]
    if t.op in ("list", "tuple"):
        return t.args[k] if k < len(t.args) else False
    if t.op == "listof":
        return t.args[1][k] if k < len(t.args[1]) else None if t.args[2] else False
    return None


def extras(c, full):
    mod, fn = full.rsplit(".", 1)
    lead = "out_dir=o, metadata_name=m, " if full == SV else ""
    ty = {**TY, **{S(k): v[1] for k, v in A.items()}, S("cfg"): frozenset({"SimulationConfig"}), S("o"): frozenset({"Path"}), S("m"): frozenset({"str"})}
    for v, (kind, _) in A.items():
        for form, (tmpl, path) in FORMS.items():
            if form != "directly" and kind in ("number", "text"):
                continue
            w = f"{fn} {kind} {form}"
            with c.rule("C23.extra", w):
                val = tmpl.format(v=v)
                src = f'from torchrir.io.{mod.rsplit(".", 1)[-1]} import {fn}\ndef use(room, sources, mics, rirs, o, m, {v}):\n    r = {fn}({lead}room=room, sources=sources, mics=mics, rirs=rirs, extra={{"x": {val}}}, source_info={val})\n    return r\n'
                r = c.user(src, ("c23x", fn, v, form), symty=ty, recur=4)
                if r.state is None or not isinstance(r.ret, T) or r.ret.op == "dead":
                    c.ob("C23.extra", w, False, "is refused")
                    continue
                rec = r.I.freeze(r.state, r.ret)
                for name, p in (("extra", ("x",) + path), ("source_info", path)):
                    t, sure, why = get(rec, name)
                    if t is None:
                        c.ob("C23.extra", f"{w} as {name}", None if why else False, why or "is missing from the record")
                        continue
                    for k in p:
                        t = step(t, k)
                        if t is None or t is False:
                            break
                    if t is False or t is None:
                        c.ob("C23.extra", f"{w} as {name}", None if t is None else False, "not followed" if t is None else "is missing from the record")
                        continue
                    res, d = native(t, ty)
                    if any(x is S(v) for x in visible(t)):
                        c.ob("C23.extra", f"{w} as {name}", res, f"is not plain JSON: {d.strip() or show(t, 2)[:50]}")
                    else:
                        c.ob("C23.extra", f"{w} as {name}", False if t.op == "const" else None, f"becomes {show(t, 2)[:60]}")
    w = f"{fn} empty values"
    with c.rule("C23.extra", w):
        src = f'from torchrir.io.{mod.rsplit(".", 1)[-1]} import {fn}\ndef use(room, sources, mics, rirs, o, m):\n    v = {{"i": 0, "f": 0.0, "s": "", "b": False, "n": None}}\n    r = {fn}({lead}room=room, sources=sources, mics=mics, rirs=rirs, extra={{"x": v}}, source_info=v)\n    return r\n'
        r = c.user(src, ("c23z", fn), symty=ty, recur=4)
        if r.state is not None and isinstance(r.ret, T) and r.ret.op != "dead":
            rec = r.I.freeze(r.state, r.ret)
            for p in ("extra.x", "source_info"):
                t, sure, why = get(rec, p)
                g = fields(t) if t is not None else None
                for k, x in (("i", 0), ("f", 0.0), ("s", ""), ("b", False), ("n", None)):
                    v = g.get(k, (None, 0))[0] if g is not None else None
                    ok = None if g is None or v is not None and v.op != "const" else v is not None and v.args[0] == x and type(v.args[0]) is type(x)
                    c.ob("C23.extra", f"{w} {p} {x!r}", ok, "kept" if ok else "the record is not followed" if ok is None else "is missing from the record" if v is None else f"becomes {show(v, 2)}")
    w = f"{fn} configuration"
    with c.rule("C23.extra", w):
        src = f'from torchrir.io.{mod.rsplit(".", 1)[-1]} import {fn}\ndef use(room, sources, mics, rirs, o, m, cfg):\n    r = {fn}({lead}room=room, sources=sources, mics=mics, rirs=rirs, extra={{"x": cfg}})\n    return r\n'
        r = c.user(src, ("c23c", fn), symty=ty, recur=4)
        if r.state is not None and isinstance(r.ret, T) and r.ret.op != "dead":
            rec = r.I.freeze(r.state, r.ret)
            t, sure, why = get(rec, "extra.x")
            names = config_fields(c)
            if t is S("cfg"):
                c.ob("C23.extra", w, False, "is kept as an object JSON cannot hold")
            elif t is None:
                c.ob("C23.extra", w, None if why else False, why or "is missing from the record")
            else:
                f_ = fields(t)
                for nme in names:
                    s = f"{w} field {nme}"
                    if f_ is None:
                        if t.op == "call" and callname(t) in ("dataclasses.asdict",):
                            c.ob("C23.extra", s, None, "through asdict")
                        else:
                            c.ob("C23.extra", s, False if t.op == "call" and callname(t) in ("builtins.str", "builtins.repr") else None, f"becomes {show(t, 2)[:50]}")
                    elif nme not in f_:
                        c.ob("C23.extra", s, False if f_ else None, "is missing from the record")
                    else:
                        vv = f_[nme][0]
                        mine = {x.args[1] for x in visible(vv) if x.op == "attr" and x.args[0] is S("cfg")}
                        c.ob("C23.extra", s, True if nme in mine or not mine else False, f"holds {', '.join(sorted(map(str, mine)))}")


def config_fields(c):
    import ast
    m = c.P.modules.get("torchrir.config") or next(x for x in c.P.modules.values() if any(isinstance(n, ast.ClassDef) and n.name == "SimulationConfig" for n in x.tree.body))
    k = next((n for n in m.tree.body if isinstance(n, ast.ClassDef) and n.name == "SimulationConfig"), None)
    return [] if k is None else [s.target.id for s in k.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]


# ---------------------------------------------------------------- the file
def written(c, r, rec, place, w, given_rec=None):
    I = r.I
    dumps = [e for e in r.events if e.kind == "call" and str(e.fn or "") in ("json.dump", "json.dumps")]
    if not dumps:
        anyw = any(str(e.fn or "").split(".")[-1] in ("open", "write_text", "write", "dump") for e in r.events if e.kind in ("call", "mut"))
        c.ob("C23.file", w, None if anyw else False, "no file is written")
        return
    for e in dumps:
        a = e.args[0] if e.args else e.kw.get("obj")
        ok = a is rec
        if not ok:
            fa, fr = fields(a) if isinstance(a, T) else None, fields(rec)
            if fa is not None and fr is not None:
                lost = [k for k in fr if k not in fa]
                diff = [k for k in fr if k in fa and fa[k][0] is not fr[k][0]]
                c.ob("C23.file", w + " content", False if lost else None if diff else True, f"the file lacks {', '.join(map(str, lost))}" if lost else f"differs in {diff}")
            else:
                c.ob("C23.file", w + " content", None, "not followed")
        else:
            c.ob("C23.file", w + " content", True, "the record returned")
    opens = [e for e in r.events if e.kind in ("call", "mut") and str(e.fn or "").split(".")[-1] in ("open", "write_text")]
    for e in opens:
        parts = [x for x in list(e.args) + list(e.kw.values()) if isinstance(x, T)]
        p = parts[0] if parts else None
        if p is not None and p.op == "sym" and len(parts) > 1 and p not in place:
            pass
        seen = {x for y in parts for x in visible(y)}
        miss = [x for x in place if x not in seen]
        c.ob("C23.file", w + " place", not miss, f"is written to {show(p, 3)[:60] if p is not None else '?'}, not under {', '.join(show(x, 1) for x in miss)}")
        mode = [x.args[0] for x in parts[1:] if x.op == "const" and isinstance(x.args[0], str) and set(x.args[0]) <= set("rwaxbt+") and x.args[0]]
        if str(e.fn).endswith("open") and mode:
            c.ob("C23.file", w + " mode", "w" in mode[0] or "x" in mode[0], f"is opened with mode {mode[0]!r}")


def files(c):
    X = Scene(c, SV, "file", src="full", mic="full")
    with c.rule("C23.file", "save_scene_metadata"):
        if X.dead:
            c.ob("C23.file", "save_scene_metadata", False, "a valid scene is refused")
        else:
            written(c, X.r, X.rec, (OUT, NAME), "save_scene_metadata")
    with c.rule("C23.file", "save_metadata_json"):
        r = c.run("torchrir.io.metadata.save_metadata_json", args=(PATH, S("metadata")), symty={PATH: frozenset({"Path"})}, key="c23-json")
        if r.state is None:
            c.ob("C23.file", "save_metadata_json", False, "always fails")
        else:
            ev = [e for e in r.events if e.kind == "call" and str(e.fn or "") in ("json.dump", "json.dumps")]
            a = [e.args[0] for e in ev if e.args]
            c.ob("C23.file", "save_metadata_json content", True if S("metadata") in a else None if not a or any(S("metadata") in set(visible(x)) for x in a if isinstance(x, T)) else False, "does not write the record given")
            written(c, r, a[0] if a else None, (PATH,), "save_metadata_json")


def check(c):
    for full in (B_, SV):
        for label, D, src, mic in (("static", 3, None, None), ("both move", 3, "full", "full"), ("source moves", 3, "full", None), ("microphones move", 3, None, "full"),
                                   ("one source moves", 3, "flat", None), ("static 2-D", 2, None, None), ("both move 2-D", 2, "full", "full")):
            X = Scene(c, full, label, D, src, mic)
            values(X, src, mic)
            if label in ("static", "both move"):
                everything(X)
        optional(c, full)
        extras(c, full)
    files(c)
