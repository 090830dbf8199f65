"""C26: the dataset builder is analysed once per outcome of the random choice of moving sources, for two scenes of three sources with everything else symbolic; the simulator, the convolution, the plots and the metadata writer are kept as single steps, and every sample, position and value they are given or that is written is compared at element level (normal forms of index-lowered terms) with the scene that was simulated."""
from itertools import combinations
from vf.law import *
from vf.simconf import *
from vf.rules import *
from vf.lower import Lower
from vf.state import Obj
from vf.alg import Cmp as _Cmp
from vf import law as _law

BUILD = "torchrir.datasets.dynamic_cmu_arctic.build_dynamic_cmu_arctic_dataset"
STEPS = ("simulate_dynamic_rir", "plot_scene_static", "plot_scene_dynamic", "animate_scene_mp4", "build_metadata", "save_metadata_json")
NS, NM, SCENES = 3, 6, 2
ARR = frozenset({"ndarray"})
V3 = ("mic_center", "room_size", "source_margin")
ONESTEP = T("cmp", "<=", S("trajectory_steps"), const(1))
N, STEPSYM = S("#samples"), S("trajectory_steps")
SPAN, SHARE = S("steps between first and last"), S("share of the motion")
FLOATSUB = {"FLOAT", "DOUBLE"}


FREE = {"m.permutation", "m.choice", "m.load_audio", "np.random.default_rng", "np.array", "np.asarray", "np.max", "np.amax", "np.squeeze", "t.transpose", "builtins.max", "builtins.min", "t.max", "t.amax", "m.max"}


def known(x):
    """Calls that may stand for themselves in a comparison: draws, and peaks of whole signals."""
    return callname(x) in FREE


def level(*ts):
    """The same terms with the one quantity carried out of a loop (the common sampling rate) as a symbol."""
    loops = {x for t in ts if isinstance(t, T) for x in subterms(t) if isinstance(x, T) and x.op == "loopout"}
    top = [x for x in loops if not any(x is not y and any(z is x for z in subterms(y)) for y in loops)]
    if len(top) == 1:
        ts = tuple(substitute(t, {top[0]: S("#carried")}) if isinstance(t, T) else t for t in ts)
    return ts


def judge(c, rule, where, mk, got, want, **kw):
    if got is None or want is None:
        c.ob(rule, where, None, "not followed")
        return None
    return _law.judge(c, rule, where, mk, *level(got, want), trusted=known, **kw)


class Cmp(_Cmp):
    def __init__(self, mk):
        super().__init__(mk, trusted=known)

    def compare(self, a, b, facts=None):
        return super().compare(*level(a, b), facts)


class World:
    """One analysis of the builder, for a given set of moving sources and a fixed or drawn array centre."""

    def __init__(self, c, moving, rand):
        self.c, self.moving, self.rand = c, moving, rand
        self.count = {}
        self.pos = set()
        self.log = []                       # (scene, step name, arguments)
        self.w = f"moving {sorted(moving)}, {'drawn' if rand else 'fixed'} array centre"
        rw = {}
        for full, m, n, o in all_functions(c.P):
            if o is None and n.name in STEPS and not m.name.endswith("._client"):
                rw[full] = self.step(n.name, n)
            elif o is not None and (n.name in ("convolve", "__call__") and full.rsplit(".", 2)[-2] == "DynamicConvolver" or n.name == "load_audio"):
                rw[full] = self.step("convolve" if n.name != "load_audio" else n.name, n)
        self.found = {full.rsplit(".", 1)[1] for full in rw}
        for nm in ("sample", "choice", "tolist", "permutation", "uniform", "peak"):
            rw["m." + nm] = getattr(self, nm, None)
        rw = {k: v for k, v in rw.items() if v is not None}
        self.k = 0
        C_ = const
        kw = {"n_sources": C_(NS), "n_scenes": C_(SCENES), "n_moving_sources": C_(len(moving)), "randomize_mic_center": C_(rand)}
        sh = {S(v): (C_(3),) for v in V3}
        self.r = c.run(BUILD, kw=kw, rewrite=rw, updates=True, shapes=sh, symty={S(v): ARR for v in V3}, key=("c26", tuple(sorted(moving)), rand))
        self.I = self.r.I
        self.L = Lower(self.I)

    # ---------------------------------------------------------- stand-ins
    def tick(self, nm):
        self.count[nm] = self.count.get(nm, 0) + 1
        return self.count[nm]

    def step(self, nm, node):
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        dflt = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
        dflt.update(zip(ps[len(ps) - len(a.defaults):], a.defaults))

        def f(I, args, kw, st):
            env = {p: I.freeze(st, x) for p, x in zip(ps, args)}
            env.update({k: I.freeze(st, v) for k, v in kw.items()})
            for p, d in dflt.items():
                if p not in env and isinstance(d, ast.Constant):
                    env[p] = const(d.value) if d.value is not None else NONE
            k = self.tick(nm)
            scene = self.count.get("simulate_dynamic_rir", 0) - 1
            if nm == "load_audio":
                return T("call", T("ext", "m.load_audio"), tuple(env.values()), ())
            t = S(f"#{nm}{k}")
            if nm == "simulate_dynamic_rir":
                self.shape(I, t, (S("#T"), const(NS), const(NM), S("#L")), TEN)
            elif nm == "convolve":
                self.shape(I, t, (const(NM), N), TEN)
            self.log.append((scene, nm, env, t))
            I.event("call", "step." + nm, [], env, t, st)
            return t
        return f

    def shape(self, I, t, sh, ty):
        I.shapes[t] = sh
        I._shape.pop(t, None)
        I._ty[t] = ty

    def sample(self, I, a, kw, st):
        k = self.tick("sample")
        return I.new(st, Obj("list", elems=tuple(S(f"#spk{k}_{i}") for i in range(NS))))

    def choice(self, I, a, kw, st):
        if "size" in kw or len(a) > 2:
            return T("call", T("ext", "draw.moving"), (const(self.tick("moving")),), ())

    def tolist(self, I, a, kw, st):
        if callname(I.freeze(st, a[0])) == "draw.moving":
            return I.new(st, Obj("list", elems=tuple(const(i) for i in self.moving)))

    def permutation(self, I, a, kw, st):
        t = T("call", T("ext", "m.permutation"), tuple(I.freeze(st, x) for x in a), (("#", const(-self.tick("perm"))),))
        self.shape(I, t, (const(NS),), ARR)
        return t

    def uniform(self, I, a, kw, st):
        xs = tuple(I.freeze(st, x) for x in a)
        n = [I.shape(x) for x in xs[1:] if ARR & set(I.ty(x)) and I.shape(x)]
        n += [(const(len(cargs(x)[0].args)),) for x in xs[1:] if callname(x) == "np.array" and cargs(x)[0].op == "list"]
        t = S(f"#draw{self.tick('uniform')}")
        if not n:
            # a scalar draw lies at or above its lower bound
            lo = xs[1] if len(xs) > 1 else kw.get("low")
            while isinstance(lo, T) and callname(lo) in ("builtins.float", "np.float64") and cargs(lo):
                lo = cargs(lo)[0]
            if isinstance(lo, T) and lo.op == "const" and isinstance(lo.args[0], (int, float)) and lo.args[0] > 0:
                self.pos.add(t)
            I._ty[t] = frozenset({"float"})
            return t
        self.shape(I, t, n[0], ARR)
        return t

    # ---------------------------------------------------------- access
    def steps(self, j, nm):
        return [(e, t) for s, n, e, t in self.log if s == j and n == nm]

    def at(self, t, *idx):
        """Entry of a tensor, array or nested list; None when the layout is not followed."""
        try:
            return self.L.at(t, tuple(const(i) if isinstance(i, int) else i for i in idx))
        except Exception:
            return None

    def field(self, t, name):
        return self.I.field(t, name) if hasattr(self.I, "field") else fieldof(t, name)


def fieldof(t, name):
    if t.op == "inst":
        for f in t.args[1]:
            if f[0] == name:
                return f[1]
    return None


def positions(t):
    p = fieldof(t, "positions")
    return p if p is not None else t


def cases(t, known, out, depth=0):
    """Choose every branch of t consistently: (known conditions, branch-free term)."""
    ph = next((x for x in subterms(t) if isinstance(x, T) and x.op == "phi"), None)
    if ph is None or depth > 7:
        out.append((known, t if ph is None else None))
        return
    at = next((a for a in atoms(ph.args[0]) if a not in known), None)
    if at is None:
        out.append((known, None))
        return
    v = forced(at)
    for b in (v,) if v is not None else (True, False):
        k = dict(known)
        k[at] = b
        cases(assume(t, k), k, out, depth + 1)


def forced(a):
    """Comparisons of the number of samples with another size: the sizes are taken to differ."""
    if a.op == "cmp" and a.args[0] in ("==", "!=", "is", "is not") and any(x is N for x in a.args[1:]) and a.args[1] is not a.args[2]:
        return a.args[0] in ("!=", "is not")
    return None


def entries(t):
    return {p.args[0].args[0]: p.args[1] for p in t.args if isinstance(p, T) and p.op == "tuple" and p.args[0].op == "const"} if t is not None and t.op == "dict" else None


def writes(W):
    """(scene, event) of every audio file written."""
    r, out, j = W.r, [], -1
    for e in r.events:
        if e.kind != "call":
            continue
        if e.fn == "step.simulate_dynamic_rir":
            j += 1
        elif e.fn == "soundfile.write":
            out.append((j, e))
    return out


def arg(e, i, nm):
    return e.args[i] if len(e.args) > i else e.kw.get(nm)


def last(t):
    """Final component of a path."""
    while t.op == "call" and callname(t) in ("builtins.str", "pathlib.Path", "m.as_posix", "m.resolve", "m.__fspath__", "os.fspath") and cargs(t):
        t = cargs(t)[0]
    if t.op == "bin" and t.args[0] == "/":
        return t.args[2], t.args[1]
    return t, None


def text(t):
    """A file name as text when it is fully known."""
    if t.op == "const":
        return str(t.args[0])
    if t.op == "fstr":
        out = ""
        for x in t.args:
            if isinstance(x, T) and x.op == "fmt":
                v, spec = x.args[0], x.args[1]
                spec = spec.args[0] if isinstance(spec, T) and spec.op == "const" else spec
                if v.op != "const" or not isinstance(spec, str) and spec is not None:
                    return None
                try:
                    out += format(v.args[0], spec or "")
                except Exception:
                    return None
            elif isinstance(x, T) and x.op == "const":
                out += str(x.args[0])
            elif isinstance(x, str):
                out += x
            else:
                return None
        return out
    return None


def shown(t):
    return show(t, 3)[:90]


def audio(c, W, j):
    r, I = W.r, W.I
    w = f"scene {j}, {W.w}"
    ws = [e for s, e in writes(W) if s == j]
    named = {}
    for e in ws:
        f, d = last(arg(e, 0, "file"))
        nm = text(f)
        if nm is None:
            c.ob("C26.files", w, None, f"file name not followed: {shown(f)}")
            return
        if nm in named:
            c.ob("C26.files", w, False, f"{nm} is written twice for one scene")
            return
        named[nm] = (e, d)
    stems = [f"source_{i:02d}.wav" for i in range(NS)]
    missing = [x for x in stems + ["mixture.wav"] if x not in named]
    if missing:
        c.ob("C26.files", w, None if not ws else False, f"not written: {', '.join(missing)}")
        return
    c.ob("C26.files", w, True, f"{NS} source files and the mixture are written")
    dirs = {d for _, d in named.values()}
    c.ob("C26.folder", w, len(dirs) == 1, "all in the scene's folder" if len(dirs) == 1 else "the files of one scene are written to different folders: " + ", ".join(shown(d) for d in dirs if d is not None))
    rates = {nm: arg(e, 2, "samplerate") for nm, (e, d) in named.items()}
    mk0 = norms(I)
    sim = W.steps(j, "simulate_dynamic_rir")
    fs = fieldof(sim[0][0]["room"], "fs") if len(sim) == 1 and sim[0][0].get("room") is not None else None
    if fs is not None:
        judge(c, "C26.rate", f"room, {w}", mk0, W.at(fs), W.at(rates["mixture.wav"]), what="sampling rate of the simulated room ")
    for nm, v in rates.items():
        if v is not rates["mixture.wav"]:
            judge(c, "C26.rate", f"{nm}, {w}", mk0, W.at(v), W.at(rates["mixture.wav"]), what="sampling rate ")
    conv = W.steps(j, "convolve")
    if len(conv) != NS:
        c.ob("C26.stems", w, None, f"{len(conv)} convolutions found for {NS} sources")
        return
    t, q = S("t"), S("q")
    data = {nm: arg(e, 1, "data") for nm, (e, d) in named.items()}
    pack = T("tuple", *[data[x] for x in stems + ["mixture.wav"]])
    out = []
    cases(pack, {}, out)
    mk = norms(I, ints=(t, q), nonneg=(t, q))
    for known, v in out:
        if v is None:
            c.ob("C26.mix", w, None, "branches of the written samples not followed")
            continue
        el = [W.at(x, t, q) for x in v.args]
        if any(x is None for x in el):
            c.ob("C26.mix", w, None, f"samples not followed: {shown(next(x for x, y in zip(v.args, el) if y is None))}")
            continue
        total = el[0]
        for x in el[1:NS]:
            total = T("bin", "+", total, x)
        judge(c, "C26.mix", w, mk, el[NS], total, what="the mixture ")
        raw = [T("at", conv[i][1], q, t) for i in range(NS)]
        for i in range(NS):
            k = (i + 1) % NS
            judge(c, "C26.stems", f"source {i}, {w}", mk, T("bin", "*", el[i], raw[k]), T("bin", "*", el[k], raw[i]), what=f"source {i} relative to source {k} (product with the other's simulated signal) ")
    # the level is limited for the mixture too
    sub = [x.kw.get("subtype") for x, _ in named.values()]
    if all(s is not None and s.op == "const" and s.args[0] in FLOATSUB for s in sub):
        c.ob("C26.level", w, True, "written as floating point: no clipping")
        return
    limits(c, W, w, pack, conv)


def limits(c, W, w, pack, conv):
    t, q = S("t"), S("q")
    tops = {x for x in subterms(pack) if isinstance(x, T) and x.op == "call" and (callname(x) or "").split(".")[-1] in ("max", "amax", "min", "amin", "norm", "maximum", "quantile", "sum", "item", "std") and x.op == "call"}
    peaks = [x for x in tops if callname(x) in ("np.max", "np.amax", "t.max", "t.amax", "m.max", "np.linalg.norm", "t.norm")]
    if not peaks:
        odd = [x for x in tops if callname(x).split(".")[-1] not in ("sum",)]
        c.ob("C26.level", w, None if odd else False, "level control not recognised" if odd else "the mixture is written with fixed range and never limited: where the sources add up beyond full scale it is clipped and no longer their sum")
        return
    mk = norms(W.I, ints=(t, q), nonneg=(t, q))
    raw = [T("at", x[1], q, t) for x in conv]
    total = raw[0]
    for x in raw[1:]:
        total = T("bin", "+", total, x)
    unknown, hit = [], set()
    wants = {"the mixture": total, **{f"source {i}": x for i, x in enumerate(raw)}}
    for p in peaks:
        x = cargs(p)[0]
        while x.op == "call" and (callname(x) or "").split(".")[-1] in ("abs", "absolute", "fabs", "max", "amax") and cargs(x):
            x = cargs(x)[0]
        outs = []
        cases(x, {}, outs)
        for known, v in outs:
            es = [W.at(v, t, q), W.at(v, q, t)] if v is not None else [None]
            if all(e is None for e in es):
                es = [W.at(v, i, t, q) for i in range(NS)] if v is not None else [None]
                if any(e is None for e in es):
                    unknown.append(x)
                    continue
            for e in es:
                for nm, y in wants.items():
                    if e is not None and nm not in hit and (Cmp(mk).compare(e, y) or Cmp(mk).compare(e, substitute(y, {t: q, q: t}))):
                        hit.add(nm)
    summed = any(x.op == "bin" and x.args[0] == "+" and sum(any(p is y for p in peaks for y in subterms(z)) for z in x.args[1:]) == 2 for x in subterms(pack) if isinstance(x, T))
    rest = [nm for nm in wants if nm not in hit]
    if not rest:
        c.ob("C26.level", w, True, "the level is limited by the peaks of the mixture and of every source")
    elif unknown or summed:
        c.ob("C26.level", w, None, f"peak of {shown(unknown[0])} not followed" if unknown else "bound on the mixture not followed")
    elif "the mixture" in rest:
        c.ob("C26.level", w, False, "the level is limited by the peaks of the single sources only: where they add up beyond full scale the written mixture is clipped and no longer their sum")
    else:
        c.ob("C26.level", w, False, f"the level is not limited by the peak of {rest[0]}: where it exceeds full scale the written file is clipped and the sources no longer add up to the mixture")


def dry(c, W, j):
    """Every source's own signal goes through its own responses."""
    w = f"scene {j}, {W.w}"
    conv, sim = W.steps(j, "convolve"), W.steps(j, "simulate_dynamic_rir")
    if len(conv) != NS or len(sim) != 1:
        c.ob("C26.signal", w, None, f"{len(conv)} convolutions and {len(sim)} simulations found")
        return
    R = sim[0][1]
    n, m, l, s = S("n"), S("m"), S("l"), S("k")
    mk = norms(W.I, ints=(n, m, l, s), nonneg=(n, m, l, s))
    sig = []
    for i, (env, _) in enumerate(conv):
        rr, x = env.get("rirs"), env.get("signal")
        if rr is None or x is None:
            c.ob("C26.signal", f"source {i}, {w}", None, "arguments of the convolution not identified")
            return
        e = W.at(rr, n, 0, m, l)
        if e is None:
            e = W.at(rr, n, m, l)
        if e is None:
            c.ob("C26.responses", f"source {i}, {w}", None, f"not followed: {shown(rr)}")
        else:
            judge(c, "C26.responses", f"source {i}, {w}", mk, e, T("at", R, n, const(i), m, l), what="the response used ")
            have, full = W.I.shape(rr), W.I.shape(R)
            if have and full:
                judge(c, "C26.responses", f"steps of source {i}, {w}", norms(W.I, pos=(full[0],)), have[0], full[0], what="number of responses used ")
        sig.append(x)
    if len(set(sig)) != NS:
        c.ob("C26.signal", w, False, "two sources are convolved with the same signal")
    else:
        c.ob("C26.signal", w, True, "each source has its own signal")


def row(t):
    """The single source signal selected from the stack of all of them."""
    while True:
        if t.op == "call" and callname(t) in ("t.to", "t.contiguous", "t.clone", "t.unsqueeze", "t.as_tensor", "t.reshape", "t.detach") and cargs(t):
            t = cargs(t)[0]
        elif t.op == "item":
            i = t.args[1].args[0] if t.args[1].op == "tuple" and t.args[1].args else t.args[1]
            k = i.args[0] if i.op == "slice" else i
            b = t.args[0]
            while b.op == "call" and callname(b) in ("t.to", "t.contiguous", "t.clone", "t.as_tensor", "t.detach") and cargs(b):
                b = cargs(b)[0]
            if b.op == "call" and callname(b) in ("t.stack", "np.stack", "t.tensor", "np.array") and cargs(b)[0].op in ("list", "tuple"):
                b = cargs(b)[0]
            if b.op in ("list", "tuple") and k.op == "const" and isinstance(k.args[0], int) and 0 <= k.args[0] < len(b.args) and (i.op != "slice" or i.args[1].op == "const" and i.args[1].args[0] == k.args[0] + 1):
                return b.args[k.args[0]]
            return None
        else:
            return t


def owner(c, W, j):
    """The speaker and utterances listed for source i are those of signal i."""
    w = f"scene {j}, {W.w}"
    meta = W.steps(j, "build_metadata")
    conv = W.steps(j, "convolve")
    if len(meta) != 1 or len(conv) != NS:
        c.ob("C26.speaker", w, None, "metadata call not found")
        return
    info = meta[0][0].get("source_info")
    if info is None or info.op not in ("list", "tuple") or len(info.args) != NS:
        c.ob("C26.speaker", w, None, f"not followed: {shown(info) if info is not None else 'no source_info'}")
        return
    for i in range(NS):
        d = entries(info.args[i])
        s = f"source {i}, {w}"
        if d is None or "speaker" not in d:
            c.ob("C26.speaker", s, None, "entry not followed")
            continue
        spk = d["speaker"]
        x = row(conv[i][0]["signal"])
        used = {y for y in subterms(x) if isinstance(y, T) and y.op == "sym" and y.args[0].startswith("#spk")} if x is not None else set()
        if len(used) != 1:
            c.ob("C26.speaker", s, None, "speaker of the signal not followed")
            continue
        c.ob("C26.speaker", s, True if used == {spk} else False if spk.op == "sym" else None, "names the speaker whose recordings are used" if used == {spk} else f"names {shown(spk)} while the signal comes from {', '.join(map(shown, used))}")
        u = d.get("utterance_ids")
        if u is not None:
            have = {y for y in subterms(u) if isinstance(y, T) and y.op == "sym" and y.args[0].startswith("#spk")}
            c.ob("C26.utterances", s, True if have == {spk} else False if have else None, "lists that speaker's utterances" if have == {spk} else f"lists utterances of {', '.join(map(shown, have)) or 'an unknown speaker'}")


def same(c, rule, where, W, got, want, shape, what, ints=()):
    """got and want agree entry by entry; shape gives the index tuples to compare."""
    if got is None:
        c.ob(rule, where, None, "argument not found")
        return
    if got is want:
        c.ob(rule, where, True, "the simulated one")
        return
    mk = norms(W.I, ints=ints, nonneg=ints)
    for one, idx in [(o, i) for o in (False, True) for i in shape]:
        if one:
            idx = tuple(0 if x is S("n") else x for x in idx)
        a, b = (W.at(assume(v, {ONESTEP: one}), *idx) for v in (got, want))
        if a is None or b is None:
            c.ob(rule, where, None, f"not followed: {shown(got if a is None else want)}")
            return
        cm = Cmp(mk)
        v = cm.compare(a, b)
        if v is not True:
            c.ob(rule, where, v, f"{what} differs from the simulated one at {tuple(x if isinstance(x, int) else x.args[0] for x in idx)}" if v is False else "not comparable")
            return
    c.ob(rule, where, True, f"{what} equals the simulated one")


def scene(c, W, j):
    w = f"scene {j}, {W.w}"
    sim = W.steps(j, "simulate_dynamic_rir")
    if len(sim) != 1:
        c.ob("C26.scene", w, None, f"{len(sim)} simulations found")
        return
    env = sim[0][0]
    n, k = S("n"), S("k")
    room, st, mt = env.get("room"), env.get("src_traj"), env.get("mic_traj")
    if None in (room, st, mt):
        c.ob("C26.scene", w, None, "arguments of the simulation not identified")
        return
    ax = range(3)
    size = fieldof(room, "size") if room.op == "inst" else room
    S3 = [(n, s, a) for s in range(NS) for a in ax]
    M3 = [(n, m, a) for m in (0, 1, NM - 1) for a in ax]

    def starts(t, traj, cnt, rule, where, axes=ax):
        if t is None:
            c.ob(rule, where, None, "argument not found")
            return
        p = positions(t)
        mk = norms(W.I, pos=tuple(W.pos))
        for s in cnt:
            for a in axes:
                x, y = W.at(p, s, a), W.at(traj, 0, s, a)
                if x is None or y is None:
                    c.ob(rule, where, None, f"not followed: {shown(p)}")
                    return
                v = Cmp(mk).compare(x, y)
                if v is not True:
                    # the first step: nothing has moved yet
                    v2 = firststep(W, x, y)
                    if v2 is not True:
                        c.ob(rule, where, v2, f"position {s} along axis {a} is not where the simulated trajectory starts" if v2 is False else "not comparable")
                        return
        c.ob(rule, where, True, "where the simulated trajectories start")

    shows = []
    for nm in ("plot_scene_dynamic", "plot_scene_static", "animate_scene_mp4", "build_metadata"):
        for q, (e, t) in enumerate(W.steps(j, nm)):
            shows.append((nm, q, e))
    if not shows:
        c.ob("C26.shown", w, None, "no plot, animation or metadata call found")
    for nm, q, e in shows:
        at = f"{nm} {q}, {w}"
        d = 3
        rm = e.get("room")
        if rm is not None:
            if nm == "build_metadata":
                c.ob("C26.room", at, True if rm is room else None if rm.op != "inst" else False, "the simulated room" if rm is room else "another room object than the simulated one") if rm is room or rm.op != "inst" else sameroom(c, W, at, rm, room)
            else:
                sh = W.I.shape(rm)
                d = sh[0].args[0] if sh and sh[0].op == "const" and isinstance(sh[0].args[0], int) else 2 if "2" in str(q) else None
                if d is None:
                    d = 3
                rs = fieldof(rm, "size") if rm.op == "inst" else rm
                same(c, "C26.room", at, W, rs, size, [(a,) for a in range(d)], "room size")
        if nm != "plot_scene_static":
            same(c, "C26.sources", at, W, e.get("src_traj"), st, [(n, s, a) for s in range(NS) for a in range(d)], "source trajectory", (n,))
            same(c, "C26.mics", at, W, e.get("mic_traj"), mt, [(n, m, a) for m in (0, 1, NM - 1) for a in range(d)], "microphone trajectory", (n,))
        for names, traj, cnt, rule in ((("sources", "src_pos"), st, range(NS), "C26.start"), (("mics", "mic_pos"), mt, (0, 1, NM - 1), "C26.start")):
            x = next((e[z] for z in names if z in e and e[z] is not NONE), None)
            if x is not None:
                starts(x, traj, cnt, rule, f"{names[0]} of {at}", range(d))
        if nm == "build_metadata":
            rr = e.get("rirs")
            c.ob("C26.rirs", at, True if rr is sim[0][1] else None if rr is None or rr.op != "sym" else False, "the simulated responses" if rr is sim[0][1] else "other responses than the ones simulated")
        if nm in ("build_metadata", "animate_scene_mp4") and e.get("signal_len") is not None and e["signal_len"] is not NONE:
            length(c, W, j, at, e["signal_len"])
        if nm == "animate_scene_mp4":
            mixfile(c, W, j, at, e)


def value(t, env):
    """Number of a small scalar expression at a representative point, None when it holds anything else."""
    if t in env:
        return env[t]
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], (int, float)) else None
    if t.op == "bin":
        a, b = value(t.args[1], env), value(t.args[2], env)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b, "//": lambda: a // b}[t.args[0]]()
        except (KeyError, ZeroDivisionError):
            return None
    if t.op == "un" and t.args[0] == "-":
        a = value(t.args[1], env)
        return None if a is None else -a
    if t.op == "phi":
        b = truth(t.args[0], env)
        return None if b is None else value(t.args[1 if b else 2], env)
    if t.op == "call" and callname(t) in ("builtins.float", "builtins.int", "t.to", "t.item") and cargs(t):
        a = value(cargs(t)[0], env)
        return a if a is None or callname(t) != "builtins.int" else int(a)
    return None


def truth(c_, env):
    def asg(a):
        if a.op == "bin" and a.args[0] in ("&", "|"):
            x, y = truth(a.args[1], env), truth(a.args[2], env)
            f = a.args[0] == "|"
            return f if f in (x, y) else None if None in (x, y) else not f
        if a.op != "cmp" or a.args[0] not in ("<", "<=", "==", "!=", ">", ">="):
            return None
        x, y = value(a.args[1], env), value(a.args[2], env)
        if x is None or y is None:
            return None
        return {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y, ">": x > y, ">=": x >= y}[a.args[0]]
    return beval(c_, asg)


def resolved(t, envs, memo=None):
    """t with every branch, clamp, maximum and minimum decided that comes out the same at all the representative points of a region of the timeline."""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return tuple(resolved(x, envs, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is not None:
        return r

    def pick(cmp_, a, b):
        vs = {truth(cmp_, e) for e in envs}
        return (a if True in vs else b) if len(vs) == 1 and None not in vs else None
    if t.op == "phi":
        z = pick(t.args[0], t.args[1], t.args[2])
        r = resolved(z, envs, memo) if z is not None else None
    elif t.op == "call":
        n, xs, kw = (callname(t) or "").split(".")[-1], [resolved(x, envs, memo) for x in cargs(t)], {k: resolved(v, envs, memo) for k, v in ckw(t).items()}
        if n == "clamp" and xs:
            r = xs[0]
            for k, o in (("min", "<"), ("max", ">")):
                b = kw.get(k, xs[1 + (k == "max")] if len(xs) > 1 + (k == "max") else None)
                if b is not None and b is not NONE and r is not None:
                    r = pick(T("cmp", o, r, b), b, r)
        elif n in ("maximum", "minimum", "max", "min") and len(xs) == 2 and not kw:
            r = pick(T("cmp", ">" if n.startswith("max") else "<", xs[0], xs[1]), xs[0], xs[1])
        elif n == "where" and len(xs) == 3:
            r = pick(xs[0], xs[1], xs[2])
    if r is None:
        r = T(t.op, *[resolved(x, envs, memo) if isinstance(x, (T, tuple)) else x for x in t.args])
    memo[t] = r
    return r


def points(*rows):
    return [{S("n"): n, STEPSYM: k, S("move_start_ratio"): a, S("move_end_ratio"): b, S("duration_sec"): 4.0} for n, k, a, b in rows]


REGIONS = {"before the motion": points((1, 11, 0.35, 0.65), (2, 21, 0.2, 0.9), (0, 9, 0.25, 0.75)), "during the motion": points((5, 11, 0.35, 0.65), (8, 21, 0.2, 0.9), (3, 17, 0.125, 1.0)),
           "after the motion": points((9, 11, 0.35, 0.65), (19, 21, 0.2, 0.9), (16, 17, 0.0, 0.5))}
EDGES = {"where the motion starts": points((2, 9, 0.25, 0.75), (8, 17, 0.5, 1.0), (0, 5, 0.0, 0.5)), "where the motion ends": points((6, 9, 0.25, 0.75), (8, 17, 0.25, 0.5), (16, 17, 0.5, 1.0))}
FIRST = points((0, 9, 0.25, 0.75), (0, 21, 0.2, 0.9), (0, 33, 0.0, 1.0))


def firststep(W, x, y):
    """Equality at the first step, where nothing has moved yet."""
    z = const(0)
    mk = norms(W.I, pos=(STEPSYM, *W.pos))
    r = True
    for envs in (FIRST[:2], FIRST[2:]):
        a, b = (substitute(resolved(assume(v, {ONESTEP: False}), envs), {S("n"): z}) for v in (x, y))
        v = Cmp(mk).compare(a, b)
        if v is not True and envs[0][S("move_start_ratio")] == 0.0:
            a, b = (substitute(q, {S("move_start_ratio"): z}) for q in (a, b))
            v = Cmp(mk).compare(a, b)
        if v is not True:
            return v
    return r


def sameroom(c, W, at, a, b):
    mk = norms(W.I)
    for f in ("size", "fs", "c", "t60", "beta"):
        x, y = fieldof(a, f), fieldof(b, f)
        if x is y or x is None or y is None:
            continue
        for idx in [(i,) for i in range(3)] if f == "size" else [()]:
            p, q = W.at(x, *idx), W.at(y, *idx)
            v = None if p is None or q is None else Cmp(mk).compare(p, q)
            if v is not True:
                c.ob("C26.room", at, v, f"{f} differs from the simulated room's")
                return
    c.ob("C26.room", at, True, "a room equal to the simulated one")


def length(c, W, j, at, v):
    """Number of samples stated equals the number of samples each source signal is cut to."""
    conv = W.steps(j, "convolve")
    for env, _ in conv[:1]:
        cuts = {x.args[1].args[1] for x in subterms(env["signal"]) if isinstance(x, T) and x.op == "item" and x.args[1].op == "slice" and x.args[1].args[1] is not NONE and x.args[1].args[1].op != "const"}
        if len(cuts) != 1:
            c.ob("C26.length", at, None, "cut length not followed")
            continue
        cut = next(iter(cuts))
        if cut is v:
            c.ob("C26.length", at, True, "the length the signals are cut to")
        else:
            judge(c, "C26.length", at, norms(W.I), v, cut, what="stated length ")


def mixfile(c, W, j, at, e):
    mix = [x for s, x in writes(W) if s == j and text(last(arg(x, 0, "file"))[0]) == "mixture.wav"]
    if not mix:
        return
    p = e.get("mixture_path")
    if p is not None and p is not NONE:
        f, d = last(p)
        g, h = last(arg(mix[0], 0, "file"))
        ok = p is arg(mix[0], 0, "file") or f is g and d is h
        c.ob("C26.video", at, True if ok else False if text(f) is not None and d is not None else None, "plays the scene's mixture" if ok else f"plays {shown(p)} instead of the mixture of this scene")
    fs = e.get("fs")
    if fs is not None and fs is not NONE:
        judge(c, "C26.video", f"rate, {at}", norms(W.I), W.at(fs), W.at(arg(mix[0], 2, "samplerate")), what="sampling rate ")


def deg(t):
    return T("call", T("ext", "t.rad2deg"), (t,), ())


def motion(c, W, j):
    """The motion described by the metadata is the motion that was simulated."""
    w = f"scene {j}, {W.w}"
    sim, meta = W.steps(j, "simulate_dynamic_rir"), W.steps(j, "build_metadata")
    if len(sim) != 1 or len(meta) != 1:
        c.ob("C26.motion", w, None, "simulation or metadata call not found")
        return
    st, mt = sim[0][0].get("src_traj"), sim[0][0].get("mic_traj")
    x = entries(meta[0][0].get("extra"))
    info = meta[0][0].get("source_info")
    if x is None:
        c.ob("C26.motion", w, None, "entries of the metadata not followed")
        return
    n = S("n")
    mk = norms(W.I, ints=(n, STEPSYM), nonneg=(n,), pos=(STEPSYM, SPAN, SHARE, *sorted(W.pos, key=str)))
    B = lambda o, a, b: T("bin", o, a, b)
    sin, cos = (lambda v: T("call", T("ext", "t.sin"), (v,), ())), (lambda v: T("call", T("ext", "t.cos"), (v,), ()))
    rad = lambda v: T("call", T("ext", "t.deg2rad"), (v,), ())
    el = lambda k, *i: W.at(x[k], *i) if k in x else None
    ctr = [el("mic_center_xyz_m", a) for a in range(3)]
    mids = [W.at(mt, n, m, a) for m in range(1) for a in range(3)]
    prof, times = entries(x["motion_time_sec"]) if "motion_time_sec" in x else None, None
    p = lambda nm: S(nm)
    D, m0, m1 = p("duration_sec"), p("move_start_ratio"), p("move_end_ratio")
    # what is stated about the options
    want = {"n_sources": const(NS), "n_moving_sources": const(len(W.moving)), "octa_edge_m": p("octa_edge_m"), "randomize_mic_center": const(W.rand), "azimuth_step_deg": const(360.0 / NS)}
    for k, v in want.items():
        if k in x:
            judge(c, "C26.stated", f"{k}, {w}", mk, x[k], v, what="") if x[k].op != "const" or not isinstance(x[k].args[0], bool) else c.ob("C26.stated", f"{k}, {w}", x[k].args[0] == v.args[0], "equals the option" if x[k].args[0] == v.args[0] else f"states {x[k].args[0]}")
    if "scene_id" in x:
        mix = [e for s, e in writes(W) if s == j]
        dirs = {last(last(arg(e, 0, "file"))[1])[0] for e in mix if last(arg(e, 0, "file"))[1] is not None}
        a, b = text(x["scene_id"]), {text(d) for d in dirs}
        c.ob("C26.stated", f"scene_id, {w}", None if a is None or None in b or len(b) != 1 else a in b, "names the scene's folder" if a in b else f"states {a} while the files are in {', '.join(map(str, b))}")
    if "moving_source_indices" in x:
        t = x["moving_source_indices"]
        vals = [y.args[0] for y in t.args] if t.op in ("list", "tuple") and all(y.op == "const" for y in t.args) else None
        c.ob("C26.stated", f"moving_source_indices, {w}", None if vals is None else sorted(vals) == sorted(W.moving), "lists the sources that move" if vals == sorted(W.moving) else f"lists {vals}")
    if prof is not None:
        for k, v in (("total", D), ("move_start", B("*", D, m0)), ("move_end", B("*", D, m1))):
            if k in prof:
                judge(c, "C26.stated", f"motion_time_sec.{k}, {w}", mk, prof[k], v)
    mp = entries(x["motion_profile"]) if "motion_profile" in x else None
    if mp is not None:
        for k, v in (("pre_static_ratio", m0), ("move_ratio", B("-", m1, m0)), ("post_static_ratio", B("-", const(1.0), m1))):
            if k in mp:
                judge(c, "C26.stated", f"motion_profile.{k}, {w}", mk, mp[k], v)
    # the array is centred where stated: opposite microphones of the octahedron cancel
    if None not in ctr:
        for a in range(3):
            s_ = None
            for m in range(NM):
                y = W.at(mt, n, m, a)
                s_ = None if y is None or (m and s_ is None) else y if m == 0 else B("+", s_, y)
            if s_ is None:
                c.ob("C26.centre", f"axis {a}, {w}", None, "microphone trajectory not followed")
            else:
                judge(c, "C26.centre", f"axis {a}, {w}", mk, s_, B("*", const(NM), ctr[a]), what="sum of the microphone positions ")
    for s in range(NS):
        at = f"source {s}, {w}"
        d = entries(info.args[s]) if info is not None and info.op in ("list", "tuple") and len(info.args) == NS else None
        mv = s in W.moving
        a0, a1 = el("start_azimuth_deg", s), el("end_azimuth_deg", s)
        pos = [W.at(st, n, s, a) for a in range(3)]
        first = [W.at(positions(meta[0][0]["sources"]), s, a) for a in range(3)] if meta[0][0].get("sources") is not None else [None] * 3
        if d is not None:
            if "is_moving" in d:
                v = d["is_moving"]
                c.ob("C26.described", f"is_moving, {at}", None if v.op != "const" else bool(v.args[0]) == mv, "as drawn" if v.op == "const" and bool(v.args[0]) == mv else "says otherwise than what was simulated")
            if "source_index" in d:
                v = d["source_index"]
                c.ob("C26.described", f"source_index, {at}", None if v.op != "const" else v.args[0] == s, "its own index")
            if "motion_type" in d and d["motion_type"].op == "const":
                c.ob("C26.described", f"motion_type, {at}", (d["motion_type"].args[0] == "static") == (not mv), "as drawn")
            for k, v in (("move_start_sec", B("*", D, m0)), ("move_end_sec", B("*", D, m1))):
                if k in d:
                    judge(c, "C26.described", f"{k}, {at}", mk, d[k], v)
            for k, g in (("velocity_mps", "source_velocity_mps"), ("angular_velocity_rad_s", "angular_velocity_rad_s"), ("turn_direction", "turn_direction")):
                if k in d and el(g, s) is not None:
                    judge(c, "C26.described", f"{k}, {at}", mk, W.at(d[k]), el(g, s), what="value in the source's entry ")
        if None in pos or None in first:
            c.ob("C26.motion", at, None, "trajectory not followed")
            continue
        if not mv:
            for a in range(3):
                judge(c, "C26.motion", f"axis {a}, {at}", mk, pos[a], first[a], what="static source ")
            for k in ("source_velocity_mps", "angular_velocity_rad_s", "turn_direction"):
                if el(k, s) is not None:
                    judge(c, "C26.motion", f"{k}, {at}", mk, el(k, s), const(0), what="static source ")
            if a0 is not None and a1 is not None:
                judge(c, "C26.motion", f"azimuths, {at}", mk, a1, a0, what="end azimuth of a static source ")
            continue
        if a0 is None or a1 is None or None in ctr:
            c.ob("C26.motion", at, None, "azimuths or centre not followed")
            continue
        ofs = [B("-", first[a], ctr[a]) for a in range(2)]
        # first position lies in the stated start direction
        judge(c, "C26.azimuth", at, mk, B("*", ofs[0], sin(rad(a0))), B("*", ofs[1], cos(rad(a0))), what="start position across the stated azimuth ")
        R = B("**", B("+", B("**", ofs[0], const(2)), B("**", ofs[1], const(2))), const(0.5))
        tau = B("/", n, B("-", STEPSYM, const(1)))
        frac = {"before the motion": const(0.0), "during the motion": B("/", B("-", tau, m0), B("-", m1, m0)), "after the motion": const(1.0), "where the motion starts": const(0.0), "where the motion ends": const(1.0)}
        for reg, envs in [*REGIONS.items(), *EDGES.items()]:
            fix = {"where the motion starts": {m0: tau}, "where the motion ends": {n: B("*", B("+", m0, SHARE), SPAN), STEPSYM: B("+", SPAN, const(1)), m1: B("+", m0, SHARE)}}.get(reg, {})
            th = B("+", rad(a0), B("*", B("-", rad(a1), rad(a0)), frac[reg]))
            for a, f in ((0, cos), (1, sin)):
                got = resolved(assume(pos[a], {ONESTEP: False}), envs)
                got, want_ = substitute(got, fix), substitute(B("+", ctr[a], B("*", R, f(th))), fix)
                judge(c, "C26.motion", f"{reg}, axis {a}, {at}", mk, got, want_, what="moving source ")
        judge(c, "C26.motion", f"axis 2, {at}", mk, assume(pos[2], {ONESTEP: False}), first[2], what="height of a moving source ")
        om, vel, turn = el("angular_velocity_rad_s", s), el("source_velocity_mps", s), el("turn_direction", s)
        if om is not None:
            judge(c, "C26.speed", f"angle, {at}", mk, B("-", rad(a1), rad(a0)), B("*", om, B("*", D, B("-", m1, m0))), what="angle swept ")
        if None not in (om, vel, turn):
            judge(c, "C26.speed", f"speed, {at}", mk, B("*", om, R), B("*", turn, vel), what="angular velocity times radius ")


def folders(c, W):
    """The scenes of one build are written to different folders."""
    at = []
    for j in range(SCENES):
        ds = {last(arg(e, 0, "file"))[1] for s, e in writes(W) if s == j}
        d = next(iter(ds)) if len(ds) == 1 else None
        at.append(None if d is None else last(d))
    if None in at or any(text(x[0]) is None for x in at):
        c.ob("C26.folder", f"scenes, {W.w}", None, "folders not followed")
    elif all(x[1] is at[0][1] for x in at):
        names = [text(x[0]) for x in at]
        ok = len(set(names)) == len(names)
        c.ob("C26.folder", f"scenes, {W.w}", ok, f"different folders: {', '.join(names)}" if ok else f"two scenes are written to the same folder {names[0]}")
    else:
        c.ob("C26.folder", f"scenes, {W.w}", True, "different parent folders")


def infofile(c, W, j):
    """source_info.json carries the same list as the metadata."""
    w = f"scene {j}, {W.w}"
    meta = W.steps(j, "build_metadata")
    k, hits = -1, []
    for e in W.r.events:
        if e.kind == "call" and e.fn == "step.simulate_dynamic_rir":
            k += 1
        elif e.kind == "call" and e.fn in ("json.dump", "json.dumps") and k == j and e.args:
            hits.append(e.args[0])
    if len(meta) != 1 or not hits:
        c.ob("C26.info", w, None, "source_info.json not found")
        return
    want = meta[0][0].get("source_info")
    ok = any(h is want for h in hits)
    c.ob("C26.info", w, True if ok else False if all(h.op in ("list", "tuple") for h in hits) and want is not None and want.op in ("list", "tuple") else None, "the metadata's own list" if ok else "source_info.json and the metadata describe the sources differently")


def check(c):
    subs = [m for k in range(NS + 1) for m in combinations(range(NS), k)]
    todo = [((0, 2), True), ((1,), False), ((), True)] if c.tier == "quick" else [(m, r) for m in subs for r in (True, False)]
    c.notes.append("scenes of 3 sources and 6 microphones, two scenes per build, analysed for the outcomes of the draw of moving sources: " + "; ".join(f"{list(m)} ({'drawn' if r else 'fixed'} centre)" for m, r in todo))
    for mv, rnd in todo:
        with c.rule("C26.build", f"moving {list(mv)}"):
            W = World(c, mv, rnd)
            if not W.steps(0, "simulate_dynamic_rir"):
                if BUILD not in [f for f, *_ in all_functions(c.P)]:
                    c.ob("C26.build", BUILD, None, "the builder was not found")
                else:
                    c.ob("C26.build", W.w, None, "the simulation call was not found")
                continue
            with c.rule("C26.folder", W.w):
                folders(c, W)
            for j in range(SCENES):
                for f in (audio, dry, owner, scene, motion, infofile):
                    with c.rule(f"C26.{f.__name__}", f"scene {j}, {W.w}"):
                        f(c, W, j)
