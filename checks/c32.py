"""C32: path-feasibility dataflow under 'the choice is none of the supported names': with every equality and membership test of the parameter false, no path returns and no write, download or random draw is reachable before the error."""
import os
from vf.terms import *
from vf.rules import *
from vf.flow import Flow
from vf.loader import AnalysisBroken, PKG
from .c04 import PREFIX, QUIETNET

NORM = {"builtins.str", "m.lower", "m.upper", "m.strip", "m.casefold", "m.replace", "m.lstrip", "m.rstrip", "m.title", "m.capitalize", "sys.intern", "m.swapcase"}
WRITES = {"soundfile.write", "m.mkdir", "os.makedirs", "os.mkdir", "m.write_text", "m.write_bytes", "m.touch", "torch.save", "numpy.save", "json.dump", "shutil.rmtree", "m.unlink", "os.remove", "os.unlink", "m.rmdir", "m.savefig", "m.extractall",
          "shutil.copy", "shutil.copyfile", "shutil.move", "os.replace", "os.rename", "tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile", "subprocess.run", "subprocess.Popen"}
DRAWS = {"torch.rand", "torch.randn", "torch.randint", "torch.randperm", "torch.rand_like", "torch.randn_like", "torch.normal", "torch.multinomial", "torch.bernoulli", "t.uniform_", "t.normal_", "t.bernoulli_", "t.exponential_", "m.integers", "m.standard_normal",
         "m.choice", "m.choices", "m.shuffle", "m.sample", "m.uniform", "m.normal", "m.random", "m.randint", "m.randrange", "m.permutation", "m.gauss", "torch.manual_seed"}

PLAIN = {"builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.frozenset"}
SEARCH = {"m.difference", "m.intersection", "m.issubset", "m.issuperset", "m.isdisjoint", "m.union", "m.symmetric_difference", "builtins.filter", "builtins.next", "builtins.map", "builtins.any", "builtins.all", "m.count", "m.find", "m.index", "m.__contains__",
          "operator.contains", "builtins.hasattr", "builtins.getattr", "difflib.get_close_matches", "fnmatch.fnmatch", "operator.eq"}


def effect(e):
    fn = e.fn or ""
    if e.kind != "call":
        return None
    if fn.startswith(PREFIX) and fn not in QUIETNET or fn == "m.urlopen":
        return "downloads"
    if fn in WRITES:
        return "writes"
    if fn in ("builtins.open", "io.open", "m.open"):
        i = 0 if fn == "m.open" and len(e.args) == 1 else 1
        mode = e.args[1] if len(e.args) > 1 else e.kw.get("mode")
        if mode is not None and is_const(mode) and isinstance(mode.args[0], str) and set(mode.args[0]) & set("wax+"):
            return "writes"
    if fn in DRAWS or fn.startswith(("numpy.random.", "random.")) and fn.split(".")[-1] not in ("Random", "default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "getstate", "get_state"):
        return "draws"
    return None


class Choice:
    """Facts of 'parameter p holds a string outside the supported set'."""

    def __init__(self, p):
        self.p = T("sym", p)
        self.memo = {}
        self.sized = self.unsure = False

    def norm(self, t):
        """Is the value the parameter itself, up to case and white space?"""
        while isinstance(t, T):
            if t is self.p:
                return True
            n = callname(t)
            if n in NORM and cargs(t):
                t = cargs(t)[0]
            elif t.op == "fstr" and len(t.args) == 1:
                t = t.args[0]
            elif t.op == "phi":
                v = beval(t.args[0], self.value)
                if v is None:
                    return self.norm(t.args[1]) and self.norm(t.args[2])
                t = t.args[1 if v else 2]
            elif t.op == "or" and len(t.args) == 2:      # p or default: a non-empty name is chosen
                t = t.args[0]
            else:
                return False
        return False

    def names(self, t):
        """A finite collection of names."""
        while isinstance(t, T) and callname(t) in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "m.keys", "builtins.dict") and cargs(t):
            t = cargs(t)[0]
        if is_const(t):
            return isinstance(t.args[0], (tuple, list, set, frozenset, dict))
        return isinstance(t, T) and t.op in ("tuple", "list", "set", "dict", "gdict", "keys", "dictof", "listof") or isinstance(t, T) and t.op == "gobj" or isinstance(t, T) and t.op in ("ref", "gvar", "frozen")

    def fixed(self, t):
        return is_const(t) or isinstance(t, T) and t.op in ("gvar", "ext") or isinstance(t, T) and not any(x is self.p for x in subterms(t)) and t.op != "sym"

    def lookup(self, t):
        """table[p]: raises KeyError for an unsupported name."""
        return isinstance(t, T) and t.op in ("item", "getitem", "index") and len(t.args) > 1 and self.norm(t.args[1]) and not any(x is self.p for x in subterms(t.args[0]))

    def shape(self, t):
        """Shape of a tensor made from a written-out list (None: unknown)."""
        if not isinstance(t, T):
            return None
        if ("shape", t) in self.memo:
            return self.memo["shape", t]
        r, n = None, callname(t)
        a = cargs(t) if n else ()
        if t.op in ("list", "tuple"):
            ss = {self.shape(x) if isinstance(x, T) and x.op in ("list", "tuple") else () if isinstance(x, T) and x.op in ("sym", "const") else None for x in t.args}
            if len(ss) == 1 and None not in ss:
                r = (len(t.args),) + next(iter(ss))
        elif t.op == "phi":
            v = beval(t.args[0], self.value)
            ss = {self.shape(x) for x in ([t.args[1], t.args[2]] if v is None else [t.args[1 if v else 2]])}
            r = next(iter(ss)) if len(ss) == 1 else None
        elif n in ("torch.as_tensor", "t.as_tensor", "torch.tensor", "t.tensor", "torch.asarray", "t.asarray", "t.to", "t.clone", "t.detach", "t.contiguous", "t.float", "t.double", "t.cpu", "torch.clone", "numpy.asarray", "numpy.array") and a:
            r = self.shape(a[0])
        elif n == "t.unsqueeze" and a:
            s = self.shape(a[0])
            d = a[1] if len(a) > 1 else ckw(t).get("dim")
            if s is not None and is_const(d) and isinstance(d.args[0], int):
                k = d.args[0] % (len(s) + 1)
                r = s[:k] + (1,) + s[k:]
        elif n in ("t.reshape", "t.flatten", "t.view") and a:
            s = self.shape(a[0])
            if s is not None and len(a) == 2 and is_const(a[1]) and a[1].args[0] in (-1, (-1,)):
                m = 1
                for x in s:
                    m *= x
                r = (m,)
        self.memo["shape", t] = r
        return r

    def number(self, t):
        """Numeric value of a size expression (None: unknown)."""
        if is_const(t):
            return t.args[0] if isinstance(t.args[0], int) else None
        if not isinstance(t, T):
            return None
        n = callname(t)
        a = cargs(t) if n else ()
        if t.op == "phi":
            v = beval(t.args[0], self.value)
            ss = {self.number(x) for x in ([t.args[1], t.args[2]] if v is None else [t.args[1 if v else 2]])}
            return next(iter(ss)) if len(ss) == 1 else None
        if n in ("builtins.int",) and a:
            return self.number(a[0])
        if n in ("t.numel", "t.dim", "builtins.len", "t.ndimension", "m.numel", "t.nelement") and a:
            s = self.shape(a[0])
            if s is None:
                return None
            k = 1
            for x in s:
                k *= x
            return k if n.endswith(("numel", "nelement")) else s[0] if n.endswith("len") else len(s)
        if t.op == "attr" and t.args[1] == "ndim":
            s = self.shape(t.args[0])
            return None if s is None else len(s)
        if t.op in ("item", "getitem", "index"):
            s, i = self.dims(t.args[0]), t.args[1]
            if s is not None and is_const(i) and isinstance(i.args[0], int) and -len(s) <= i.args[0] < len(s):
                return s[i.args[0]]
        return None

    def dims(self, t):
        if isinstance(t, T) and t.op == "attr" and t.args[1] == "shape":
            return self.shape(t.args[0])
        if callname(t) == "t.size" and len(cargs(t)) == 1:
            return self.shape(cargs(t)[0])
        if isinstance(t, T) and t.op == "phi":
            v = beval(t.args[0], self.value)
            ss = {self.dims(x) for x in ([t.args[1], t.args[2]] if v is None else [t.args[1 if v else 2]])}
            return next(iter(ss)) if len(ss) == 1 else None
        return None

    def shaped(self, t):
        """A size written as a tuple."""
        while callname(t) in ("builtins.tuple", "builtins.list", "torch.Size") and len(cargs(t)) == 1:
            t = cargs(t)[0]
        if is_const(t) and isinstance(t.args[0], tuple):
            return t.args[0]
        if isinstance(t, T) and t.op == "tuple" and all(is_const(x) for x in t.args):
            return tuple(x.args[0] for x in t.args)
        return self.dims(t)

    def literals(self, t):
        if isinstance(t, T) and t.op in ("tuple", "list", "set"):
            xs = [self.shaped(x) for x in t.args]
            return None if None in xs else xs
        return list(t.args[0]) if is_const(t) and isinstance(t.args[0], (tuple, list, set, frozenset)) else None

    def holds(self, t):
        """A collection with the parameter among its elements."""
        while callname(t) in PLAIN and cargs(t):
            t = cargs(t)[0]
        return isinstance(t, T) and t.op in ("set", "list", "tuple") and any(isinstance(x, T) and self.norm(x) for x in t.args)

    def surplus(self, t):
        """Names of a collection holding the parameter that are not supported."""
        while callname(t) in PLAIN | {"builtins.len"} and cargs(t):
            t = cargs(t)[0]
        if callname(t) == "m.difference" and len(cargs(t)) == 2:
            x, y = cargs(t)
        elif isinstance(t, T) and t.op == "bin" and t.args[0] == "-" and len(t.args) == 3:
            x, y = t.args[1:]
        else:
            return False
        return self.holds(x) and self.names(y)

    def dubious(self, t):
        """A test of the parameter in a form that is not understood (a set operation, a search, an iteration over tables)."""
        def mentions(v):
            return any(self.norm(z) for z in subterms(v))
        if t.kind not in ("if", "ret") or not isinstance(t.a, T):
            return False
        for a in atoms(t.a):
            if beval(a, self.value) is not None:
                continue
            if a.op == "forall" and any(x.op == "cmp" and any(isinstance(z, T) and self.norm(z) for z in x.args[1:]) for x in atoms(a.args[1])):
                return True
            for x in subterms(a):
                n = callname(x)
                if (n in SEARCH or n == "m.get" and len(cargs(x)) == 2 or n and n.startswith("re.")) and any(isinstance(y, T) and (self.norm(y) or self.holds(y)) for y in cargs(x)):
                    return True
                if x.op == "bin" and x.args[0] in ("-", "&", "|", "^") and any(isinstance(y, T) and self.holds(y) for y in x.args[1:]):
                    return True
        return False

    def value(self, a):
        if a in self.memo:
            return self.memo[a]
        r = None
        if a.op == "cmp" and len(a.args) == 3:
            k, x, y = a.args
            u, w = self.number(x), self.number(y)
            if u is not None and w is not None:
                self.sized = True
                r = {"==": u == w, "!=": u != w, "<": u < w, "<=": u <= w}.get(k)
                if r is not None:
                    self.memo[a] = r
                    return r
        if a.op == "cmp" and len(a.args) == 3:
            k, x, y = a.args
            if k in ("==", "is", "!="):
                for u, w in ((x, y), (y, x)):
                    if self.norm(u) and self.fixed(w):
                        r = k == "!="
                    elif callname(u) == "m.get" and len(cargs(u)) > 1 and self.norm(cargs(u)[1]):
                        d = cargs(u)[2] if len(cargs(u)) > 2 else NONE
                        if is_const(w) and is_const(d):
                            r = (w.args[0] == d.args[0]) == (k != "!=")
            elif k in ("in", "notin", "not in") and self.norm(x) and self.names(y):
                r = k != "in"
            elif k in ("in", "notin", "not in") and self.shaped(x) is not None and self.literals(y) is not None:
                r = (self.shaped(x) in self.literals(y)) == (k == "in")
            elif k in ("==", "!=") and self.shaped(x) is not None and self.shaped(y) is not None:
                r = (self.shaped(x) == self.shaped(y)) == (k == "==")
            elif k in ("<=", "<") and self.holds(x) and self.names(y):
                r = False                    # a set holding p is not within the supported set
        elif a.op == "in" and len(a.args) == 2 and self.norm(a.args[0]) and self.names(a.args[1]):
            r = False
        elif a.op == "forall":
            r = beval(a.args[1], self.value)
        elif a.op == "truth" and self.surplus(a.args[0]):
            r = True
        elif a.op == "truth" and callname(a.args[0]) == "m.issubset" and len(cargs(a.args[0])) == 2 and self.holds(cargs(a.args[0])[0]) and self.names(cargs(a.args[0])[1]):
            r = False
        elif a.op == "truth" and callname(a.args[0]) == "m.issuperset" and len(cargs(a.args[0])) == 2 and self.holds(cargs(a.args[0])[1]) and self.names(cargs(a.args[0])[0]):
            r = False
        elif a.op == "truth":
            x = a.args[0]
            if self.norm(x):
                r = True
            elif callname(x) == "m.get" and len(cargs(x)) == 2 and self.norm(cargs(x)[1]):
                r = False
        elif a.op == "isinst" and self.norm(a.args[0]):
            r = any(isinstance(z, T) and z.op in ("ext", "const") and z.args[0] in ("builtins.str", "str") for z in a.args[1:]) or "str" in str(a.args[1])
        elif a.op == "isinstance" or callname(a) == "builtins.isinstance":
            xs = a.args if a.op == "isinstance" else cargs(a)
            if len(xs) > 1 and self.norm(xs[0]):
                r = any(isinstance(z, T) and z.op == "ext" and z.args[0] in ("builtins.str", "str") for z in subterms(xs[1]))
        self.memo[a] = r
        return r

    def raises(self, t):
        """Does evaluating this node raise by itself (lookup in a table of supported names)?"""
        if self.dubious(t):
            self.unsure = True
            return True
        if t.kind == "ev":
            e = t.a
            vs = list(e.args) + list(e.kw.values())
            if e.fn == "m.index" and len(e.args) > 1 and self.norm(e.args[1]):
                return True
        else:
            vs = [t.a]
        return any(self.lookup(x) for v in vs if isinstance(v, T) for x in subterms(v))


U = "def use({0}):\n    from torchrir import {1}\n    return {2}\n"
M = "def use({0}):\n    from {1} import {2}\n    return {3}\n"
WAV = [("load", "path, backend", "load(path, backend=backend)"), ("save", "path, audio, fs, backend", "save(path, audio, fs, backend=backend)"), ("info", "path, backend", "info(path, backend=backend)"),
       ("load_wav", "path, backend", "load_wav(path, backend=backend)"), ("save_wav", "path, audio, fs, backend", "save_wav(path, audio, fs, backend=backend)"), ("info_wav", "path, backend", "info_wav(path, backend=backend)"),
       ("load_audio", "path, backend", "load_audio(path, backend=backend)"), ("save_audio", "path, audio, fs, backend", "save_audio(path, audio, fs, backend=backend)"), ("info_audio", "path, backend", "info_audio(path, backend=backend)"),
       ("set_audio_backend", "backend", "set_audio_backend(backend)")]
CASES = [
    ("CMU ARCTIC speaker", "speaker", M.format("root, speaker, download", "torchrir.datasets", "CmuArcticDataset", "CmuArcticDataset(root, speaker=speaker, download=download)")),
    ("LibriSpeech subset", "subset", M.format("root, subset, speaker, download", "torchrir.datasets", "LibriSpeechDataset", "LibriSpeechDataset(root, subset=subset, speaker=speaker, download=download)")),
    ("attribution dataset", "dataset", M.format("dataset, subset", "torchrir.datasets", "attribution_for", "attribution_for(dataset, subset)")),
    ("convolver mode", "mode", M.format("mode, hop, timestamps, fs, signal, rirs", "torchrir.signal", "DynamicConvolver", "DynamicConvolver(mode=mode, hop=hop, timestamps=timestamps, fs=fs).convolve(signal, rirs)")),
    ("convolver mode (call)", "mode", M.format("mode, hop, timestamps, fs, signal, rirs", "torchrir.signal", "DynamicConvolver", "DynamicConvolver(mode=mode, hop=hop, timestamps=timestamps, fs=fs)(signal, rirs)")),
    ("directivity pattern", "pattern", M.format("pattern, cos_theta", "torchrir.sim", "directivity_gain", "directivity_gain(pattern, cos_theta)")),
    ("circular array plane", "plane", M.format("center, n, radius, plane", "torchrir.geometry", "circular_array", "circular_array(center=[0.0, 0.0, 0.0], num=n, radius=radius, plane=plane)")),
    ("polyhedron kind", "kind", M.format("center, radius, kind", "torchrir.geometry", "polyhedron_array", "polyhedron_array(center=center, kind=kind, radius=radius)")),
    ("builder speaker", "speaker", M.format("root, out, speaker, download, overwrite", "torchrir.datasets.dynamic_cmu_arctic", "build_dynamic_cmu_arctic_dataset", "build_dynamic_cmu_arctic_dataset(cmu_root=root, dataset_root=out, speakers=['bdl', speaker], n_sources=1, n_moving_sources=0, download_cmu=download, overwrite=overwrite)")),
] + [(f"audio backend of {n}", "backend", M.format(ps, "torchrir.io", n, ex)) for n, ps, ex in WAV]
SIM = "def use(room, sources, mics, order, directivity, hpf, cfg):\n    from torchrir.sim import simulate_rir\n    return simulate_rir(room=room, sources=sources, mics=mics, max_order=order, {0}nsample=512)\n"
CASES += [(f"{w} pattern of simulate_rir", "directivity", SIM.format(f"directivity={x}, ")) for w, x in (("common", "directivity"), ("source", "(directivity, 'omni')"), ("microphone", "('omni', directivity)"))]

DIMS = []
for k in (1, 4):
    v = "[" + ", ".join("abcd"[:k]) + "]"
    pr = "a, b, c, d, n, r, gen"
    DIMS += [
        (f"room of {k} lengths", M.format(pr, "torchrir", "Room", f"Room.shoebox(size={v}, fs=16000, beta=r)")),
        (f"circular array at a {k}-dimensional centre", M.format(pr, "torchrir.geometry", "circular_array", f"circular_array(center={v}, num=n, radius=r)")),
        (f"polyhedron at a {k}-dimensional centre", M.format(pr, "torchrir.geometry", "polyhedron_array", f"polyhedron_array(center={v}, kind='cube', radius=r)")),
        (f"eigenmike32 at a {k}-dimensional centre", M.format(pr, "torchrir.geometry", "eigenmike_em32", f"eigenmike_em32(center={v})")),
        (f"eigenmike64 at a {k}-dimensional centre", M.format(pr, "torchrir.geometry", "eigenmike_em64", f"eigenmike_em64(center={v})")),
        (f"sources with {k} coordinates", M.format(pr, "torchrir", "Source", f"Source.from_positions([{v}])")),
        (f"microphones with {k} coordinates", M.format(pr, "torchrir", "MicrophoneArray", f"MicrophoneArray.from_positions([{v}])")),
        (f"static plot of a room with {k} lengths", M.format(pr + ", src, mic", "torchrir.viz", "plot_scene_static", f"plot_scene_static(room={v}, sources=src, mics=mic, show=False)")),
        (f"dynamic plot of a room with {k} lengths", M.format(pr + ", src, mic", "torchrir.viz", "plot_scene_dynamic", f"plot_scene_dynamic(room={v}, src_traj=src, mic_traj=mic, show=False)")),
        (f"surface reflectivity of a room with {k} lengths", "def use(a, b, c, d, r):\n    import torch\n    from torchrir.util.acoustics import estimate_beta_from_t60\n    return estimate_beta_from_t60(torch.tensor(" + v + "), r)\n"),
    ]
for fn in ("gif", "mp4"):
    DIMS.append((f"{fn} animation with neither a 2D nor a 3D view", M.format("path, room, src, mic", "torchrir.viz", f"animate_scene_{fn}", f"animate_scene_{fn}(out_path=path, room=room, sources=src, mics=mic, src_traj=src, mic_traj=mic, plot_2d=False, plot_3d=False)")))


def judge(c, title, p, src):
    site_ = title
    with c.rule("C32.rejected", site_):
        r = c.user(src, "c32 " + title)
        ch = Choice(p)
        found = {}

        def step(e, q):
            if e.kind == "raise":
                return None, [("exc:" + (e.fn or "?"), q)]
            k = effect(e)
            if k and not (p == "<none>" and e.fn in ("m.mkdir", "os.makedirs")):      # the folder of a picture is no picture
                found.setdefault(k, e)
                return q, []
            return q, []
        fl = Flow(r, step, lambda e: e.kind == "raise" or effect(e) is not None or e.fn == "m.index", base=ch.value, stop=ch.raises, atleast=1)
        fl.opaque = lambda t: False
        out = fl.run("start")
        bad = any(out.get(k) for k in ("ret", "fall"))
        tested = any(any(ch.norm(x) for x in subterms(a)) for a in tests(r.trace)) or any(ch.raises(t) for t in nodes(r.trace) if t.kind in ("ev", "ret", "if"))
        if os.environ.get("VF_DEBUG"):
            print(title, {k: len(v) for k, v in out.items()}, tested, fl.over)
        c.ob("C32.rejected", site_, None if bad and fl.over or not bad and ch.unsure else not bad, (f"a {p} outside the supported set is accepted: a path returns although every comparison of {p} with a supported name fails" if p != "<none>" else "a path returns for an unsupported dimension") if bad else "every path raises")
        c.ob("C32.before", site_, None if found and fl.over else not found, "; ".join(f"{e.fn} {k} before the choice is rejected ({site(e)})" for k, e in found.items()) or "nothing is written, downloaded or drawn before the error")
        return tested


def nodes(tr):
    for t in tr:
        yield t
        for b in [t.body, t.alt, t.final] + [h for n, h in t.handlers]:
            yield from nodes(b)


def tests(tr):
    return {a for t in nodes(tr) if t.kind == "if" for a in atoms(t.a)}


def check(c):
    seen = 0
    for title, p, src in CASES:
        seen += bool(judge(c, title, p, src))
    if not seen:
        raise AnalysisBroken("no choice parameter is tested anywhere")
    for title, src in DIMS:
        judge(c, title, "<none>", src)
    stubs(c)


def stubs(c):
    n = 0
    for full, m, node, owner in all_functions(c.P):
        if not full.startswith(PKG + ".experimental.") or owner is None or node.name.startswith("_") and node.name not in ("__len__", "__getitem__", "__iter__", "__call__"):
            continue
        with c.rule("C32.stub", full):
            r = c.run(full)
            out = Flow(r, lambda e, q: (None, [("exc:" + (e.fn or "?"), q)]) if e.kind == "raise" else (q, []), lambda e: e.kind == "raise").run("start")
            n += 1
            rets = any(out.get(k) for k in ("ret", "fall"))
            c.ob("C32.stub", full, not rets, "a not-yet-implemented method returns normally" if rets else "raises on every path")
    if not n:
        raise AnalysisBroken("no experimental stub found")
