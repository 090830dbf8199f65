"""C27: path-sensitive resource typestate on the exceptional control-flow of the interprocedural trace: every acquired handle, figure, process, temporary file or directory is released, or handed to the caller, on every normal and exceptional exit."""
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken

HANDLES = {"builtins.open", "io.open", "m.open", "tarfile.open", "tarfile.TarFile", "tarfile.TarFile.open", "zipfile.ZipFile", "gzip.open", "bz2.open", "lzma.open", "os.fdopen", "urllib.request.urlopen", "soundfile.SoundFile",
           "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile", "tempfile.TemporaryDirectory", "subprocess.Popen", "socket.socket", "http.client.HTTPSConnection",
           "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor", "multiprocessing.Pool", "m.extractfile", "m.makefile", "bz2.BZ2File", "gzip.GzipFile"}
FIGS = {"matplotlib.pyplot.figure", "matplotlib.pyplot.subplots", "matplotlib.pyplot.subplot_mosaic"}
TEMPS = {"tempfile.mkdtemp", "tempfile.mkstemp"}
CLOSERS = {"m.close", "m.cleanup", "m.__exit__", "m.shutdown", "m.terminate", "m.kill", "m.wait", "m.communicate", "m.release_conn"}
FIGCLOSE = {"matplotlib.pyplot.close"}
REMOVE = {"m.unlink", "os.unlink", "os.remove", "m.replace", "m.rename", "os.replace", "os.rename", "shutil.move", "shutil.rmtree", "m.rmdir", "os.rmdir", "contextlib.suppress"}
WRITE = {"soundfile.write", "m.write_bytes", "m.write_text", "urllib.request.urlretrieve", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "m.save", "m.savefig", "numpy.save", "torch.save",
         "shutil.copy", "shutil.copy2", "shutil.copyfile", "m.touch"}
OPEN = {"builtins.open", "io.open", "m.open"}
CALM = {"builtins." + x for x in "len int str float isinstance issubclass bool list tuple dict set range enumerate zip print min max abs round repr sorted reversed any all getattr hasattr id type super object sum".split()} | \
    {"pathlib.Path", "m.with_suffix", "m.with_name", "m.joinpath", "m.append", "m.info", "m.debug", "m.warning", "m.error", "m.exception", "m.exists", "m.is_file", "m.is_dir", "m.get", "m.items", "m.keys", "m.values", "m.format", "m.join", "m.startswith", "m.endswith",
     "m.strip", "m.lower", "m.upper", "m.split", "t.numel", "t.item", "t.dim", "t.size", "t.is_floating_point", "contextlib.closing", "contextlib.ExitStack", "contextlib.nullcontext", "m.add_subplot", "time.time", "time.perf_counter", "time.monotonic", "logging.getLogger", "warnings.warn"}
MAX = 600


def calm(e):
    fn = e.fn or ""
    return fn in CALM or fn.startswith("builtins.") and fn.endswith(("Error", "Exception", "Warning", "Interrupt", "Exit"))


def core(t):
    """The object behind branches, `with ... as` bindings and string/Path conversions."""
    while isinstance(t, T):
        if t.op == "enter":
            t = t.args[0]
        elif callname(t) in ("builtins.str", "pathlib.Path", "os.fspath", "m.as_posix", "m.__enter__", "m.enter_context", "contextlib.closing") and (cargs(t) or ()):
            t = cargs(t)[-1] if callname(t) == "m.enter_context" else cargs(t)[0]
        else:
            break
    return t


ALTS, HAS = {}, {}


def alts(t):
    """Possible objects of a value."""
    if not isinstance(t, T):
        return []
    if t in ALTS:
        return ALTS[t]
    out, todo, seen = [], [t], set()
    while todo:
        x = core(todo.pop())
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("phi", "maybe"):
            todo += [x.args[2], x.args[1]]
            continue
        out.append(x)
        if x.op == "attr" and x.args[1] in ("name", "fileobj") or x.op in ("item", "getitem"):
            todo.append(x.args[0])
    ALTS[t] = out
    return out


def has(t, x):
    k = (t, x)
    if k not in HAS:
        HAS[k] = isinstance(t, T) and contains(t, x)
    return HAS[k]


def paths(ts):
    """Path objects among call arguments, also inside argument lists."""
    out = []
    for t in ts:
        for x in alts(t):
            if x.op in ("list", "tuple"):
                out += paths(x.args)
            else:
                out.append(x)
    return out


class Walk:
    def __init__(self, r, temps):
        self.r, self.I = r, r.I
        self.temps = temps
        self.leaks = {}      # resource -> (how, event)
        self.acq = {}        # resource -> acquisition event
        self.given = set()   # resources whose ownership leaves the analysis
        self.rel = {}
        seen, self.firstimport = set(), set()     # importing a loaded module again cannot fail
        for e in linear(r.trace):
            if e.kind == "import" and e.fn not in seen:
                seen.add(e.fn)
                self.firstimport.add(e)
        cnt = {}
        self.busy = {}
        self.count(r.trace, cnt)
        self.track = {a for a, n in cnt.items() if n > 1}
        self.over = False

    def opaque(self, t):
        """No effect on resources and no exit other than falling through or raising."""
        k = ("o", id(t))
        if k not in self.busy:
            self.busy[k] = not any(self.relevant(b) for b in [t.body, t.alt, t.final, t.xfinal or []] + [h for n, h in t.handlers]) and (t.kind == "call" or not self.jumps([t]))
        return self.busy[k]

    def jumps(self, nodes, inner=False):
        for t in nodes:
            if t.kind in ("break", "cont", "ret"):
                return True
            if t.kind != "call" and any(self.jumps(b) for b in [t.body, t.alt, t.final, t.xfinal or []] + [h for n, h in t.handlers]):
                return True
        return False

    def count(self, nodes, cnt):
        for t in nodes:
            if t.kind in ("call", "if", "loop", "try") and self.opaque(t):
                continue
            if t.kind == "if":
                for a in atoms(t.a):
                    cnt[a] = cnt.get(a, 0) + 1
            for b in [t.body, t.alt, t.final, t.xfinal or []] + [h for n, h in t.handlers]:
                self.count(b, cnt)

    # ---- what an event does
    def acquired(self, e):
        if e.kind != "call":
            return None
        fn = e.fn or ""
        if fn in HANDLES or fn in FIGS or fn in TEMPS:
            return e.res
        return None

    def writes(self, e):
        if e.kind != "call" or not self.temps:
            return []
        fn = e.fn or ""
        if fn in OPEN:
            mode = e.args[1] if len(e.args) > 1 else e.kw.get("mode")
            if mode is None or is_const(mode) and "r" in str(mode.args[0]) and "+" not in str(mode.args[0]):
                return []
            named = paths(list(e.args[:1]) + [e.kw.get("file")])
        elif fn not in WRITE:
            return []
        else:
            named = paths(list(e.args) + list(e.kw.values()))
        return [p for p in self.temps if p in named]

    def releases(self, e, st):
        if e.kind != "call":
            return ()
        fn = e.fn or ""
        out = []
        if fn in FIGCLOSE:
            a = e.args[0] if e.args else None
            for x in st[0]:
                if x in self.acq and self.acq[x].fn in FIGS and (a is None or is_const(a) and a.args[0] == "all" or has(a, x) or not any(has(a, y) for y in self.acq)):
                    out.append(x)
        elif fn in CLOSERS and e.args:
            out = [x for x in alts(e.args[0]) if x in st[0]]
            if not out:
                out = [x for x in st[0] if any(has(y, x) and not (y.op == "call") for y in alts(e.args[0]))]
        elif fn in REMOVE:
            for a in e.args[:1]:
                for y in alts(a):
                    out += [x for x in st[0] if x is y or x in self.acq and self.acq[x].fn in TEMPS and has(y, x)]
        return out

    def relevant(self, nodes):
        """Does this part of the trace touch a resource?"""
        k = id(nodes)
        if k not in self.busy:
            z = False
            for t in nodes:
                if t.kind == "ev":
                    e = t.a
                    z = z or e.kind == "call" and (self.acquired(e) is not None or bool(self.writes(e)) or e.fn in CLOSERS | FIGCLOSE | REMOVE) or e.kind in ("setattr", "append", "setitem", "mut")
                elif t.kind == "with":
                    z = True
                z = z or any(self.relevant(b) for b in [t.body, t.alt, t.final, t.xfinal or []] + [h for n, h in t.handlers])
            self.busy[k] = z
        return self.busy[k]

    def canraise(self, nodes):
        for t in nodes:
            if t.kind == "ev" and (t.a.kind == "raise" or (t.a in self.firstimport or t.a.kind == "call" and not calm(t.a))):
                return t.a
            for b in [t.body, t.alt, t.final, t.xfinal or []] + [h for n, h in t.handlers]:
                z = self.canraise(b)
                if z:
                    return z
        return None

    # ---- exits
    def walk(self, nodes, S):
        """S: states falling into nodes -> {kind: {state: witness event}}; kinds fall, ret, exc:<name>, brk:<id>, cont:<id>."""
        out = {}

        def add(k, s, w=None):
            out.setdefault(k, {}).setdefault(s, w)
        cur = dict(S)
        for t in nodes:
            if len(cur) > MAX:
                self.over = True
                cur = {(s[0], frozenset()): w for s, w in cur.items()}
            if not cur:
                break
            nxt = {}
            if t.kind == "ev":
                e = t.a
                for s, w in cur.items():
                    self.step(e, s, w, nxt, add)
            elif t.kind in ("call", "if", "loop", "try") and self.opaque(t):
                w0 = self.canraise([t])
                for s, w in cur.items():
                    nxt[s] = w
                    if w0 and s[0]:
                        add("exc:*", s, w0)
            elif t.kind == "ret":
                for s, w in cur.items():
                    add("ret", s, w)
            elif t.kind in ("break", "cont"):
                for s, w in cur.items():
                    add(f"{t.kind}:{t.a}", s, w)
            else:
                o = self.compound(t, cur)
                for k, ss in o.items():
                    for s, w in ss.items():
                        if k == "fall":
                            nxt.setdefault(s, w)
                        else:
                            add(k, s, w)
            cur = nxt
        for s, w in cur.items():
            add("fall", s, w)
        return out

    def step(self, e, s, w, nxt, add):
        op, facts = s
        if e.kind == "raise":
            add(f"exc:{e.fn}", s, e)
            return
        ws = self.writes(e)
        if ws:
            op = op | frozenset(ws)
            for p in ws:
                self.acq.setdefault(p, e)
        rel = self.releases(e, (op, facts))
        if rel:
            nxt.setdefault((op - frozenset(rel), facts), w)
            return
        if e.kind in ("setattr", "append", "setitem", "mut") and op:
            args = [a for a in list(e.args)[1:] if isinstance(a, T)]
            gone = [x for x in op if x not in self.temps and any(x in alts(a) or a.op in ("tuple", "list", "dict") and has(a, x) for a in args)]
            self.given |= set(gone)
            op = op - frozenset(gone)
        if e.kind == "call" and e.fn == "m.enter_context" and len(e.args) > 1:
            op = op - frozenset(x for x in op if has(e.args[1], x))
        if e.kind == "call" and e.fn in ("m.callback", "m.push", "atexit.register", "weakref.finalize"):
            gone = [x for x in op if any(has(a, x) for a in e.args[1:])]
            op = op - frozenset(gone)
        if op and (e.kind == "call" and not calm(e) or e in self.firstimport or e.kind == "yield"):
            add("exc:*", (op, facts), e)
        a = self.acquired(e)
        if a is not None:
            self.acq.setdefault(a, e)
            op = op | {a}
        nxt.setdefault((op, facts), w)

    def truth(self, s):
        op, facts = s
        d = dict(facts)

        def asg(a):
            if a in d:
                return d[a]
            if a.op == "truth" and callname(a.args[0]) in ("m.exists", "m.is_file", "os.path.exists", "os.path.isfile", "m.is_dir", "os.path.isdir"):
                p = [x for x in alts(cargs(a.args[0])[0])]
                if any(x in op for x in p):
                    return None          # decided by splitting in compound
                return None
            if a.op == "cmp" and a.args[0] == "is" and NONE in a.args[1:]:
                o = a.args[1] if a.args[2] is NONE else a.args[2]
                xs = [x for x in alts(o) if x in self.acq]
                if xs:
                    return not any(x in op for x in xs)
                ys = [x for x in self.acq if has(o, x)]
                if ys and o.op in ("phi", "maybe"):
                    return not any(x in op for x in ys)
            if a.op == "truth" and a.args[0].op in ("phi", "maybe", "call"):
                xs = [x for x in alts(a.args[0]) if x in self.acq]
                if xs and callname(a.args[0]) not in CALM:
                    return any(x in op for x in xs)
            return None
        return asg

    def assume(self, s, c, v):
        op, facts = s
        if c.op == "not":
            return self.assume(s, c.args[0], not v)
        if c.op == "and" and v or c.op == "or" and not v:
            for x in c.args:
                s = self.assume(s, x, v)
            return s
        if c.op == "truth" and callname(c.args[0]) in ("m.exists", "m.is_file", "os.path.exists", "os.path.isfile", "m.is_dir", "os.path.isdir") and not v:
            p = alts(cargs(c.args[0])[0])
            op = frozenset(x for x in op if x not in p)
        if c in self.track and c.op not in ("and", "or", "phi"):
            facts = facts | {(c, v)}
        return (op, facts)

    def compound(self, t, S):
        out = {}

        def put(o, skip=()):
            for k, ss in o.items():
                if k not in skip:
                    for s, w in ss.items():
                        out.setdefault(k, {}).setdefault(s, w)
        if t.kind == "if":
            yes, no = {}, {}
            for s, w in S.items():
                v = beval(t.a, self.truth(s))
                if v is not False:
                    yes.setdefault(self.assume(s, t.a, True), w)
                if v is not True:
                    no.setdefault(self.assume(s, t.a, False), w)
            oy, on = self.walk(t.body, yes), self.walk(t.alt, no)
            if unsure(t.a) and any(s[0] for s in S):
                # a flag set inside the try block: which value it has at the exception is not known, so a release on either branch counts
                gone = frozenset().union(*[s[0] for s in S]) - (common(oy) & common(on))
                oy, on = ({k: {(s[0] - gone, s[1]): w for s, w in ss.items()} for k, ss in o.items()} for o in (oy, on))
            for o in (oy, on):
                fs = [s[1] for s in S]
                if "fall" in o and len(set(fs)) == 1:      # nothing open: no correlation to remember
                    o["fall"] = {(s if s[0] else (s[0], fs[0])): w for s, w in o["fall"].items()}
                put(o)
        elif t.kind == "loop":
            cur, brk = dict(S), {}
            out.setdefault("fall", {}).update(S)
            for _ in range(2):
                o = self.walk(t.body, cur)
                put(o, ("fall", f"break:{t.a}", f"cont:{t.a}"))
                brk.update(o.get(f"break:{t.a}", {}))
                cur = {**o.get("fall", {}), **o.get(f"cont:{t.a}", {})}
                keep = frozenset().union(*[s[1] for s in S]) if S else frozenset()      # facts of one iteration do not carry over
                cur = {(s[0], s[1] & keep): w for s, w in cur.items()}
                for s, w in {**cur, **brk}.items():
                    out["fall"].setdefault(s, w)
        elif t.kind == "call":
            o = self.walk(t.body, S)
            o["fall"] = {**o.get("fall", {}), **o.pop("ret", {})}
            if "ret+" in o:
                o["ret"] = o.pop("ret+")
            put(o)
        elif t.kind == "user":      # the block of a with statement, run inside its context manager
            o = self.walk(t.body, S)
            if "ret" in o:
                o["ret+"] = o.pop("ret")
            put(o)
        elif t.kind == "with":
            o = self.walk(t.body, S)
            rs = [x for x in self.acq if has(t.a, x)]
            for k, ss in o.items():
                for s, w in ss.items():
                    out.setdefault(k, {}).setdefault((s[0] - frozenset(rs), s[1]), w)
        elif t.kind == "try":
            b = self.walk(t.body, S)
            res = {k: dict(v) for k, v in b.items() if not k.startswith("exc:")}
            if t.alt and "fall" in res:
                o = self.walk(t.alt, res.pop("fall"))
                for k, ss in o.items():
                    res.setdefault(k, {}).update(ss)
            for k, ss in b.items():
                if not k.startswith("exc:"):
                    continue
                name, live = k[4:], dict(ss)
                for names, h in t.handlers:
                    catch = bool({"Exception", "BaseException"} & set(names)) if name == "*" else self.I.catches(names, name)
                    o = self.walk(h, live)
                    for kk, s2 in o.items():
                        if kk == "exc:?":
                            kk = k
                        for s, w in s2.items():
                            res.setdefault(kk, {}).setdefault(s, w)
                    if catch:
                        live = {}
                        break
                for s, w in live.items():
                    res.setdefault(k, {}).setdefault(s, w)
            if t.final or t.xfinal is not None:
                for k, ss in res.items():
                    o = self.walk(t.xfinal if k.startswith("exc:") and t.xfinal is not None else t.final, ss)
                    for kk, s2 in o.items():
                        for s, w in s2.items():
                            out.setdefault(k if kk == "fall" else kk, {}).setdefault(s, w)
            else:
                put(res)
        else:
            put(self.walk(t.body, S) if t.body else {"fall": dict(S)})
        return out


def unsure(c):
    return any(isinstance(x, T) and x.op == "maybe" for x in subterms(c))


def common(o):
    """Resources still open in some fall-through state."""
    return frozenset().union(*[s[0] for s in o.get("fall", {})]) if o.get("fall") else frozenset()


def temps_of(r):
    """Paths that are written and later removed or renamed within the same operation."""
    ev = linear(r.trace)
    sub = []
    for e in ev:
        if e.kind == "call" and e.fn in REMOVE and e.args:
            for x in alts(e.args[0]):
                if x not in sub and x.op not in ("sym", "const"):
                    sub.append(x)
    for e in ev:
        if e.kind == "call" and (e.fn in WRITE or e.fn in OPEN):
            for x in paths(list(e.args) + list(e.kw.values())):
                if x not in sub and hinted(x):
                    sub.append(x)
    return sub


def hinted(x):
    if callname(x) in ("m.with_name", "m.with_suffix") and len(cargs(x)) > 1:
        s = show(cargs(x)[1], 4).lower()
    elif x.op == "bin" and x.args[0] == "/":
        s = show(x.args[2], 4).lower()
    else:
        return False
    return any(k in s for k in ("tmp", "temp", ".part", "partial", "scratch"))


def check(c):
    info = list(all_functions(c.P))
    pub = [f for f, m, n, o in info if not f.split(".")[-1].startswith("_")]
    seen = set()
    done = []
    for f in pub + [f for f, m, n, o in info if f not in pub]:
        short = f.split(".")[-1]
        if short.startswith("_") and not short.startswith("__") and f in seen:
            continue
        with c.rule("C27.release", f):
            r = c.run(f)
            seen |= set(r.I.inlined)
            leaks(c, f, r)
            done.append(f)
    acquiring = [o for o in c.obs if o[0] == "C27.release"]
    if not acquiring:
        with c.rule("C27.anchor"):
            raise AnalysisBroken("no resource acquisition found in the package")


def leaks(c, f, r):
    ev = linear(r.trace)
    if not any(e.kind == "call" and (e.fn in HANDLES or e.fn in FIGS or e.fn in TEMPS or e.fn in WRITE) for e in ev):
        return
    temps = temps_of(r)
    W = Walk(r, temps)
    out = W.walk(r.trace, {(frozenset(), frozenset()): None})
    normal = [s for k in ("fall", "ret") for s in out.get(k, {})]
    for x, e in W.acq.items():
        isfile = x in temps
        what = show(x, 3)[:60] if isfile else e.fn
        s0 = f"{site(e)}" + (f" {what}" if isfile else "")
        if x in W.given:
            c.ob("C27.release", s0, None, f"{what} is stored; its owner closes it")
            continue
        if isfile and not hinted(x) and any(x in s[0] for s in normal):
            continue        # a file that is kept on some normal exit is an output
        back = r.ret is not None and not isfile and has(r.ret, x)
        bad = None
        for k, ss in out.items():
            for s, w in ss.items():
                if x in s[0] and (k.startswith("exc:") or not back):
                    bad = bad or (k, w)
        if bad is None:
            c.ob("C27.release", s0, True, "returned to the caller, closed on failure" if back else "released on every exit")
            continue
        k, w = bad
        how = "left behind" if isfile else "left open"
        det = f"in {f}: {what} {how} " + (f"when {w.fn or w.kind} raises ({w.mod}:{w.line})" if k.startswith("exc:") and w is not None else "on a normal exit")
        c.ob("C27.release", s0, None if W.over else False, det)
