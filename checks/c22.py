"""C22: symbolic evaluation of client programs of every public audio function down to the calls of the sound-file library: element-wise comparison of what is returned or written with the file's or the caller's samples, concrete evaluation of the name and format checks, and the order of those checks against file access."""
from vf.law import *
from vf.simconf import *
from vf.rules import *
from vf.lower import Lower, NoLower
from vf.alg import Cmp as _Cmp

PATH, TXT = frozenset({"Path"}), frozenset({"str"})
IO, AU, TOP = "torchrir.io", "torchrir.io.audio", "torchrir"
LOAD = [(IO, "load_wav", 1), (IO, "load", 1), (IO, "load_audio", 1), (TOP, "load", 1), (AU, "load", 0), (AU, "load_audio", 0)]
SAVE = [(IO, "save_wav", 1), (IO, "save", 1), (IO, "save_audio", 1), (TOP, "save", 1), (AU, "save", 0), (AU, "save_audio", 0)]
INFO = [(IO, "info_wav", 1), (IO, "info", 1), (IO, "info_audio", 1), (AU, "info_audio", 0)]
WAVONLY = [(IO, "load_wav", 1), (IO, "load", 1), (TOP, "load", 1), (AU, "load", 0), (IO, "save_wav", 1), (IO, "save", 1), (TOP, "save", 1), (AU, "save", 0), (IO, "info_wav", 1), (IO, "info", 1)]
GOOD = ["a.wav", "a.WAV", "b.wave", "x.flac.Wav", "dir.mp3/a.wav"]
BAD = ["a.flac", "a", "a.wav.txt", "a.mp3", "a.wavx", "a.ogg", "wav", "dir.wav/a", "a.w", "a.FLAC", "a.wa"]
TOUCH = ("soundfile.", "builtins.open", "io.open", "os.", "shutil.", "wave.", "scipy.io.", "torchaudio.", "librosa.", "m.mkdir", "m.touch", "m.write_bytes", "m.write_text", "m.open", "m.unlink", "m.rename", "pathlib.Path.mkdir",
         "pathlib.Path.touch", "pathlib.Path.open", "pathlib.Path.unlink", "pathlib.Path.write_bytes", "tempfile.")
FREE = {"t.item", "t.max", "t.abs", "t.amax", "np.max", "builtins.float"}


class File:
    """The sound-file library, standing for a file of the given number of channels."""

    def __init__(self, chan):
        self.chan = chan
        self.data, self.rate = S("#file"), S("#rate")
        self.odd = []

    def read(self, I, a, kw, st):
        k = {n: I.freeze(st, v) for n, v in kw.items()}
        x = [I.freeze(st, v) for v in a]
        names = ("file", "frames", "start", "stop", "dtype", "always_2d", "fill_value", "out")
        env = {**dict(zip(names, x)), **k}
        dt = env.get("dtype")
        if env.get("always_2d") is TRUE and (dt is None or dt.op == "const" and str(dt.args[0]).startswith("float")) and not set(env) - {"file", "dtype", "always_2d", "frames", "start", "stop"}:
            sh = (S("#frames"), const(self.chan))
        elif self.chan == 1 and env.get("always_2d") in (None, FALSE):
            sh = (S("#frames"),)
        elif self.chan > 1 and env.get("always_2d") in (None, FALSE):
            sh = (S("#frames"), const(self.chan))
        else:
            return None
        if dt is not None and not (dt.op == "const" and str(dt.args[0]).startswith("float")):
            return None
        for n, v in (("frames", -1), ("start", 0), ("stop", None)):
            if n in env and env[n] is not NONE and env[n] is not const(v):
                self.odd.append((n, env[n]))
        t = self.data
        I.shapes[t] = sh
        I._shape.pop(t, None)
        I._ty[t] = frozenset({"ndarray"})
        I._ty[self.rate] = INT
        I.event("call", "soundfile.read", [env.get("file")], env, t, st)
        return T("tuple", t, self.rate)


def naked(t):
    """The path behind conversions that keep it."""
    while isinstance(t, T) and t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.str", "os.fspath", "pathlib.Path", "m.as_posix", "m.__fspath__", "os.fsdecode") and len(t.args[1]) == 1 and t.args[1][0].op != "const":
        t = t.args[1][0]
    return t


def parts(t):
    """A path as its base and its components."""
    t = naked(t)
    if isinstance(t, T) and t.op == "bin" and t.args[0] == "/":
        return parts(t.args[1]) + parts(t.args[2])
    if isinstance(t, T) and t.op == "call" and callname(t) in ("pathlib.Path", "m.joinpath", "os.path.join") and not t.args[2]:
        return [p for x in cargs(t) for p in parts(x)]
    if isinstance(t, T) and t.op == "const" and isinstance(t.args[0], str):
        return [const(p) for p in t.args[0].split("/") if p]
    return [t]


def calls(r, *names):
    return [e for e in r.events if e.kind == "call" and e.fn in names]


def program(mod, name, params, body, extra=""):
    return f"from {mod} import {name} as f\nfrom pathlib import Path\n{extra}def use({', '.join(params)}):\n    {body}\n"


def imports(c, rule, mod, name):
    """The public name exists."""
    m = c.P.modules.get(mod)
    ok = m is not None and (resolve_public(c.P, name, mod) if False else name in m.env() if hasattr(m, "env") else True)
    return ok


def compare(I, got, want, **kw):
    return _Cmp(norms(I, **kw), trusted=lambda x: callname(x) in FREE).compare(got, want)


def elem(c, rule, at, I, t, idx, want, what, ok, **kw):
    """Element of a tensor equals the wanted one."""
    L = Lower(I)
    try:
        got = L.at(t, idx)
        w = L.at(*want) if isinstance(want, tuple) else want
    except NoLower as ex:
        c.ob(rule, at, None, f"{what} not followed: {show(ex.args[0], 3)[:90] if ex.args and isinstance(ex.args[0], T) else ex}")
        return None
    v = compare(I, got, w, **kw)
    c.ob(rule, at, v, ok if v else f"{what}: element is {show(got, 3)[:110]}")
    return v


def where(c, rule, at, t, want, what="file"):
    t, want = naked(t), naked(want)
    if parts(t) == parts(want):
        c.ob(rule, at, True, "the given path")
        return
    alien = {x for x in subterms(t) if isinstance(x, T) and x.op in ("unknown", "phi", "loopout", "mu")} or t.op not in ("bin", "const", "fstr", "call")
    known_ = t.op == "bin" and t.args[0] == "/" or t.op in ("const", "fstr") or t.op == "call" and callname(t) in ("m.with_suffix", "m.with_name", "pathlib.Path", "m.with_stem", "m.resolve", "m.absolute", "m.expanduser")
    if t.op == "call" and callname(t) in ("m.resolve", "m.absolute", "m.expanduser", "os.path.abspath", "os.path.expanduser"):
        c.ob(rule, at, True if naked(cargs(t)[0]) is want else None, "the given path made absolute")
    else:
        c.ob(rule, at, False if known_ and not alien else None, f"{what} {show(t, 3)[:80]} instead of the given path")


# ---------------------------------------------------------------- loading
def loads(c):
    n = S("n")
    for mod, name, back in LOAD + [(AU, "load_audio_data", 0), (IO, "load_audio_data", 0)]:
        data = name == "load_audio_data"
        fmt = ", backend='soundfile'" if back else ""
        wav = (mod, name, back) in WAVONLY
        if wav and back:
            fmt += ", format='wav'"
        p = "Path('a.wav')" if wav and not back else "p"
        body = f"d = f({p}{fmt}); return (d.audio, d.sample_rate, d.format, d.subtype)" if data else f"return f({p}{fmt})"
        src = program(mod, name, ["p"], body)
        for ch in (1, 2, 5):
            at = f"{mod}.{name}, {ch} channel{'s' if ch > 1 else ''}"
            with c.rule("C22.load", at):
                F = File(ch)
                r = c.user(src, ("c22-load", mod, name, ch), symty={S("p"): PATH}, rewrite={"x.soundfile.read": F.read})
                rd = calls(r, "soundfile.read")
                if r.state is None or r.ret.op == "dead":
                    c.ob("C22.load", at, False if r.raises and not rd and known_name(c, mod, name) else None, "an ordinary file is refused")
                    continue
                t = r.I.freeze(r.state, r.ret)
                if not rd or t.op != "tuple":
                    c.ob("C22.load", at, None, f"read of the file or result not found: {show(t, 2)[:80]}")
                    continue
                for x, v in F.odd:
                    c.ob("C22.load", at, portion(r.I, x, v), f"only part of the file is read: {x}={show(v, 3)[:60]}")
                P = S("p") if p == "p" else None
                for e in rd:
                    if P is not None:
                        where(c, "C22.path", at, e.args[0], P, "reads")
                sh = r.I.shape(t.args[0])
                if sh is not None and len(sh) != 1:
                    c.ob("C22.load", at, False, "the returned audio is not one channel")
                    continue
                elem(c, "C22.load", at, r.I, t.args[0], (n,), T("at", F.data, n, const(0)) if len(r.I.shape(F.data)) == 2 else T("at", F.data, n), "returned samples", "the file's own first channel", ints=(n,), nonneg=(n,))
                if sh is not None:
                    v = compare(r.I, sh[0], S("#frames"), ints=(S("#frames"),), nonneg=(S("#frames"),))
                    c.ob("C22.length", at, v, "all frames" if v else f"{show(sh[0], 3)[:60]} frames are returned")
                rate = t.args[1]
                if attrof(rate) == "samplerate":
                    c.ob("C22.rate", at, True, "the file's rate")
                else:
                    v = compare(r.I, rate, F.rate, ints=(F.rate,), pos=(F.rate,))
                    c.ob("C22.rate", at, v, "the file's rate" if v else f"returns {show(rate, 3)[:60]} as the rate")
                if data:
                    for x, f in ((t.args[2], "format"), (t.args[3], "subtype")):
                        a = attrof(x)
                        c.ob("C22.described", f"{f}, {at}", True if a == f else False if a is not None or x.op == "const" else None, f"the file's own {f}" if a == f else f"{f} is {show(x, 2)[:60]}")


def portion(I, name, v):
    """A stated range still covers the whole file."""
    xs = [x for x in subterms(v) if isinstance(x, T)]
    if any(attrof(x) == "duration" and x.op == "attr" for x in xs) and any(x.op == "call" and callname(x) in ("builtins.int", "math.floor") for x in xs):
        return False                # the float duration times the rate may come out just below the frame count
    if name in ("frames", "stop") and attrof(v) == "frames":
        return True
    if v.op == "const":
        return False
    info = {x: S("#" + attrof(x)) for x in xs if x.op == "attr" and attrof(x)}
    if not info:
        return None
    r = compare(I, psub(v, info), S("#frames") if name in ("frames", "stop") else const(0), ints=(S("#frames"), S("#samplerate")), pos=(S("#frames"), S("#samplerate")))
    return r


def attrof(t):
    """Name of a field of the information of a file."""
    while isinstance(t, T) and t.op == "call" and callname(t) in ("builtins.int", "builtins.float", "builtins.str") and len(cargs(t)) == 1:
        t = cargs(t)[0]
    if isinstance(t, T) and t.op == "attr" and t.args[0].op == "call" and callname(t.args[0]) in ("soundfile.info", "soundfile.SoundFile"):
        return t.args[1]
    return None


def known_name(c, mod, name):
    m = c.P.modules.get(mod)
    return m is not None


# ---------------------------------------------------------------- saving
def written(r):
    out = []
    for e in calls(r, "soundfile.write"):
        env = dict(zip(("file", "data", "samplerate", "subtype", "endian", "format", "closefd"), e.args))
        env.update(e.kw)
        out.append(env)
    return out


NARROW = ("float16", "bfloat16", "half", "int8", "uint8", "int16", "short", "int32", "int", "int64", "long", "bool")


def saves(c):
    t, q = S("t"), S("q")
    x, fs = S("x"), S("fs")
    N = const(48000)
    layouts = [(N,), (const(1), N), (const(2), N), (const(8), N), (const(9), N), (const(32), N), (const(2), const(2)), (const(4), const(3))]
    todo = [(m, n, b, "f({p}, x, fs, normalize={z}, peak=0.5, subtype='PCM_24'{fmt})", "") for m, n, b in SAVE]
    todo += [(m, "save_audio_data", 0, "f({p}, AudioData(audio=x, sample_rate=fs, format='WAV', subtype='PCM_24'), normalize={z}, peak=0.5)", f"from {m} import AudioData\n") for m in (IO, AU)]
    todo += [(m, "save_audio_data", 0, "f({p}, AudioData(audio=x, sample_rate=fs, format='WAV', subtype='FLOAT'), normalize={z}, peak=0.5, subtype='PCM_24')", f"from {m} import AudioData\n") for m in (IO, AU)]
    todo += [("torchrir.io.outputs", "save_scene_audio", 0, "f(out_dir=p, audio=x, fs=fs, audio_name='a.wav')", "")]
    if c.tier == "quick":
        layouts = [layouts[i] for i in (0, 2, 4, 6, 7)]
    for mod, name, back, call, extra in todo:
        wav = (mod, name, back) in WAVONLY
        fmt = ", backend='soundfile'" + (", format='wav'" if wav else "") if back else ""
        p = "Path('a.wav')" if wav and not back else "p"
        scene = name == "save_scene_audio"
        for z in ((True,) if scene else (False, True)):
            src = program(mod, name, ["p", "x", "fs"], "return " + call.format(p=p, z=z, fmt=fmt), extra)
            for sh in layouts:
                at = f"{mod}.{name}{' with its own format' if 'FLOAT' in call else ''}, {'x'.join(show(d, 1) for d in sh)}, {'normalised' if z else 'as given'}"
                with c.rule("C22.save", at):
                    r = c.user(src, ("c22-save", mod, name, call, z, sh), symty={S("p"): PATH, x: TEN, fs: INT}, shapes={x: sh}, updates=True)
                    ws = written(r)
                    if not ws:
                        c.ob("C22.save", at, None if r.state is not None else False if r.raises else None, "no write found" if r.state is not None else "an ordinary signal is refused")
                        continue
                    if len(ws) > 1:
                        c.ob("C22.save", at, None, "written more than once")
                        continue
                    w = ws[0]
                    idx, want = ((t,), (x, (t,))) if len(sh) == 1 else ((t, q), (x, (q, t)))
                    have = r.I.shape(w["data"])
                    kw = {"ints": (t, q), "nonneg": (t, q)}
                    if have is not None and (len(have) != len(sh) or tuple(have) != tuple(reversed(sh)) and all(d.op == "const" for d in have)):
                        c.ob("C22.save", at, False if len(have) == len(sh) and not (sh[0] is const(1) and have == (N,)) else None, f"audio of {'x'.join(show(d, 1) for d in sh)} (channels x frames) is written as {'x'.join(show(d, 1) for d in have)} (frames x channels)")
                        continue
                    low = [d for y in subterms(w["data"]) if isinstance(y, T) and y.op == "call" and callname(y) in ("t.to", "t.type", "t.as_tensor", "np.asarray") and any(contains(a, x) for a in cargs(y)[:1])
                           for d in [dict(y.args[2]).get("dtype")] if isinstance(d, T) and d.op == "ext" and d.args[0].split(".")[-1] in NARROW]
                    if low:
                        c.ob("C22.precision", at, False, f"the samples pass through {show(low[0])} before they are written")
                    if not z:
                        elem(c, "C22.save", at, r.I, w["data"], idx, want, "written samples", "the given samples", **kw)
                    else:
                        level(c, at, r.I, w["data"], idx, want, const(1.0) if scene else const(0.5), kw)
                    v = compare(r.I, w.get("samplerate", NONE), fs, ints=(fs,), pos=(fs,))
                    c.ob("C22.rate", at, v, "the given rate" if v else f"written with rate {show(w.get('samplerate', NONE), 2)[:60]}")
                    if not scene:
                        s = w.get("subtype")
                        c.ob("C22.subtype", at, True if s is const("PCM_24") else False if s is None or s.op == "const" or s.op == "call" and callname(s) == "builtins.getattr" and contains(s, x) else None, "the given sample format" if s is const("PCM_24") else f"the sample format asked for is not the one written: {show(s, 4) if s is not None else s}"[:150])
                    if p == "p":
                        where(c, "C22.path", at, w["file"], T("bin", "/", S("p"), const("a.wav")) if scene else S("p"), "writes")
                    if scene and r.state is not None:
                        where(c, "C22.path", at + ", returned", r.I.freeze(r.state, r.ret), T("bin", "/", S("p"), const("a.wav")), "returns")


def level(c, at, I, data, idx, want, peak, kw):
    """Normalised: every sample scaled by peak over the largest magnitude; an all-zero signal unchanged."""
    L = Lower(I)
    try:
        got, x = L.at(data, idx), L.at(*want)
        M = L.at(T("call", T("ext", "t.max"), (T("call", T("ext", "t.abs"), (want[0],), ()),), ()), ())
    except NoLower as ex:
        c.ob("C22.level", at, None, f"not followed: {show(ex.args[0], 3)[:90] if ex.args and isinstance(ex.args[0], T) else ex}")
        return
    N = norms(I, **kw)()
    m = N.norm(M)
    B = lambda o, a, b: T("bin", o, a, b)
    mk = norms(I, pos=(M, m), eps=1e-9, **kw)
    cmp = lambda a, b: _Cmp(mk, trusted=lambda y: callname(y) in FREE).compare(a, b)

    def unclamp(y):
        """A scaled sample lies within the peak: limiting it to the peak changes nothing."""
        k = dict(y.args[2]) if callname(y) == "t.clamp" else {}
        if set(k) == {"min", "max"} and cmp(k["max"], peak) is True and cmp(k["min"], T("un", "-", peak)) is True and cmp(B("*", cargs(y)[0], M), B("*", x, peak)) is True:
            return cargs(y)[0]
        if callname(y) == "t.clamp":
            return y
        if y.op in ("phi", "bin", "un"):
            return T(y.op, *[unclamp(z) if isinstance(z, T) else z for z in y.args])
        return y
    got = unclamp(got)
    v = cmp(B("*", got, M), B("*", x, peak))
    c.ob("C22.level", at, v, "scaled to the peak asked for" if v else f"sample becomes {show(got, 4)[:120]}")


# ---------------------------------------------------------------- names and formats
def touches(r):
    return [e for e in r.events if e.kind == "call" and isinstance(e.fn, str) and e.fn.startswith(TOUCH) and not e.fn.startswith(("os.path.", "os.fspath"))]


def verdict(r):
    """accepted / refused / refused late / None."""
    hits = touches(r)
    dead = r.state is None or isinstance(r.ret, T) and r.ret.op == "dead"
    soft = [e for e in r.events if e.kind == "call" and isinstance(e.fn, str) and (e.fn.startswith("m.") and e.fn[2:] in ("load", "save", "info") or e.fn == "?")]
    if dead:
        return "refused" if not hits and not soft else "late" if hits else None
    if any(e.fn.startswith("soundfile.") and not e.pc for e in hits) and not r.raises:
        return "accepted"
    return None


def gate(c, what, src, key, good):
    with c.rule("C22.accept" if good else "C22.reject", what):
        r = c.user(src, key, symty={S("x"): TEN, S("fs"): INT}, shapes={S("x"): (const(48000),)})
        v = verdict(r)
        if good:
            c.ob("C22.accept", what, v == "accepted" if v in ("accepted", "refused", "late") else None, "accepted" if v == "accepted" else "a documented file type is refused" if v else "not followed")
        else:
            c.ob("C22.reject", what, True if v == "refused" else False if v in ("accepted", "late") else None,
                 "refused before any file access" if v == "refused" else "accepted although it is not a documented file type" if v == "accepted" else "refused only after the file system was touched" if v == "late" else "not followed")


def gates(c):
    for mod, name, back in WAVONLY:
        args = ", x, fs" if name.startswith("save") else ""
        b = ", backend='soundfile'" if back else ""
        go = lambda p, more, good, tag: gate(c, f"{mod}.{name}({p!r}{more})", program(mod, name, ["x", "fs"], f"return f(Path({p!r}){args}{b}{more})"), ("c22-gate", mod, name, p, more), good)
        for p in GOOD:
            go(p, "", True, p)
        for p in BAD:
            go(p, "", False, p)
        if back:
            go("a", ", format='wav'", True, "format")
            go("a", ", format='WAVE'", True, "format")
            go("a.wav", ", format='flac'", False, "format")
            go("a", ", format='mp3'", False, "format")
    for mod, name, back in LOAD + SAVE + INFO:
        if not back:
            continue
        args = ", x, fs" if name.startswith("save") else ""
        gate(c, f"{mod}.{name} with an unknown backend", program(mod, name, ["x", "fs"], f"return f(Path('a.wav'){args}, backend='no such backend')"), ("c22-back", mod, name), False)
    gate(c, f"{IO}.set_audio_backend with an unknown backend", program(IO, "set_audio_backend", ["x", "fs"], "return f('no such backend')"), ("c22-setback",), False)


# ---------------------------------------------------------------- information and data sets
FIELDS = {"sample_rate": "samplerate", "num_frames": "frames", "num_channels": "channels", "format": "format", "subtype": "subtype", "duration": "duration"}


def infos(c):
    for mod, name, back in INFO:
        wav = (mod, name, back) in WAVONLY
        b = (", backend='soundfile'" + (", format='wav'" if wav else "")) if back else ""
        src = program(mod, name, ["p"], f"i = f(p{b}); return ({', '.join('i.' + k for k in FIELDS)})")
        at = f"{mod}.{name}"
        with c.rule("C22.info", at):
            r = c.user(src, ("c22-info", mod, name), symty={S("p"): PATH})
            t = r.I.freeze(r.state, r.ret) if r.state is not None else None
            if t is None or t.op != "tuple":
                c.ob("C22.info", at, None, "result not followed")
                continue
            for (k, want), v in zip(FIELDS.items(), t.args):
                a = attrof(v)
                ok = True if a == want else None
                if a is None and k == "duration" and v.op == "bin" and v.args[0] == "/" and attrof(v.args[1]) == "frames" and attrof(v.args[2]) == "samplerate":
                    ok = True
                elif a is not None and a != want and set(FIELDS.values()) >= {a}:
                    ok = False
                c.ob("C22.info", f"{k}, {at}", ok, "the file's own" if ok else f"{k} is {show(v, 2)[:60]}")
            for e in calls(r, "soundfile.info"):
                where(c, "C22.path", at, e.args[0], S("p"), "reads")


def datasets(c):
    cases = [("CmuArcticDataset", "CmuArcticDataset(root, speaker={s!r}, download=False)", [("bdl", "arctic_a0001", "wav"), ("slt", "arctic_b0539", "wav")]),
             ("LibriSpeechDataset", "LibriSpeechDataset(root, subset={s!r}, download=False)", [("dev-clean", "103-1240-0007", "flac"), ("test-other", "84-121123-0012", "flac")])]
    for cls, make, utts in cases:
        seen = []
        for s, u, ext in utts:
            at = f"{cls}.load_audio({u!r})"
            src = f"from torchrir.datasets import {cls}\ndef use(root):\n    d = {make.format(s=s)}\n    return d.load_audio({u!r})\n"
            with c.rule("C22.dataset", at):
                F = File(1)
                r = c.user(src, ("c22-data", cls, s, u), symty={S("root"): PATH}, rewrite={"x.soundfile.read": F.read})
                rd = calls(r, "soundfile.read")
                if len(rd) != 1:
                    c.ob("C22.dataset", at, None, f"{len(rd)} reads found")
                    continue
                ps = [x.args[0] if x.op == "const" else None for x in parts(rd[0].args[0]) if x is not S("root")]
                if not ps or None in ps:
                    c.ob("C22.dataset", at, None, f"path not followed: {show(rd[0].args[0], 3)[:80]}")
                    continue
                want = f"{u}.{ext}"
                inside = [s in x for x in ps[:-1] if isinstance(x, str)]
                ok = ps[-1] == want and any(inside) and (cls != "LibriSpeechDataset" or ps[-3:-1] == u.split("-")[:2])
                c.ob("C22.dataset", at, ok, "reads the file of that utterance" if ok else f"reads {'/'.join(map(str, ps))}")
                seen.append(tuple(ps))
                t = r.I.freeze(r.state, r.ret) if r.state is not None else None
                if t is not None and t.op == "tuple" and len(t.args) == 2:
                    n = S("n")
                    elem(c, "C22.load", at, r.I, t.args[0], (n,), T("at", F.data, n, const(0)) if len(r.I.shape(F.data)) == 2 else T("at", F.data, n), "returned samples", "the file's own samples", ints=(n,), nonneg=(n,))
                    v = True if attrof(t.args[1]) == "samplerate" else compare(r.I, t.args[1], F.rate, ints=(F.rate,), pos=(F.rate,))
                    c.ob("C22.rate", at, v, "the file's rate")


def check(c):
    for mod in (IO, AU):
        if mod not in c.P.modules:
            raise SystemExit(f"public module {mod} not found")
    loads(c)
    saves(c)
    gates(c)
    infos(c)
    datasets(c)
