"""C04: effect analysis of every entry from which a network call can be reached, specialised to 'download not requested': no network effect may remain on any path, and with the data directory absent no path may return."""
import ast
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken

PREFIX = ("urllib.request.", "http.client.", "requests.", "socket.", "ftplib.", "torch.hub.", "urllib3.", "aiohttp.", "httpx.", "gdown.", "huggingface_hub.", "wget.", "torchaudio.datasets.")
QUIETNET = {"urllib.request.Request", "urllib.request.pathname2url", "urllib.request.url2pathname", "torch.hub.get_dir", "socket.gethostname"}
WORDS = {"urlopen", "urlretrieve", "request", "requests", "http", "socket", "hub", "ftplib", "urllib", "urllib3", "wget", "curl", "gdown", "aiohttp", "httpx", "build_opener", "subprocess", "popen", "system", "Popen"}
EXISTS = {"m.exists", "m.is_dir", "m.is_file", "os.path.exists", "os.path.isdir", "os.path.isfile", "m.iterdir", "m.lexists", "os.path.lexists"}


def is_net(e):
    if e.kind != "call":
        return False
    if e.fn.startswith(PREFIX) and e.fn not in QUIETNET or e.fn == "m.urlopen":
        return True
    if e.fn.startswith("subprocess.") or e.fn in ("os.system", "os.popen"):
        return any(isinstance(s, T) and s.op == "const" and isinstance(s.args[0], str) and s.args[0].split("/")[-1].split(" ")[0] in ("curl", "wget") for a in e.args for s in subterms(a))
    return False


def word(t, w):
    """Does the term read something the caller named `w...`?"""
    for s in subterms(t):
        if isinstance(s, T) and (s.op == "sym" and w in str(s.args[0]) or s.op == "attr" and w in str(s.args[1]) or s.op == "const" and isinstance(s.args[0], str) and s.args[0].strip("-").replace("-", "_").startswith(w) and " " not in s.args[0]):
            return True
    return False


def off(w):
    def asg(a):
        x = a.args[0] if a.op == "truth" else a
        if x.op == "attr" and w in str(x.args[1]) or x.op == "sym" and w in str(x.args[0]):
            return False
        if a.op == "cmp" and a.args[0] in ("is", "==") and any(is_const(y) and y.args[0] is True for y in a.args[1:]) and word(a, w):
            return False
        return None
    return asg


def params(node):
    a = node.args
    pos = a.posonlyargs + a.args
    d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    return list(zip(pos, d)) + list(zip(a.kwonlyargs, a.kw_defaults))


def check(c):
    info = {f: (m, n, o) for f, m, n, o in all_functions(c.P)}
    rs = roots(c.P, WORDS)
    n = 0
    done = set()
    for f in rs:
        with c.rule("C04.analyse", f):
            m, node, o = info[f]
            ps = [p.arg for p, d in params(node) if "download" in p.arg]
            r = c.run(f)
            nets = [e for e in r.events if is_net(e)]
            if not nets:
                continue
            n += 1
            nm = f.split(".")[-1]
            if not nm.startswith("_") and any(w in nm for w in ("download", "fetch")) and not ps:
                c.ob("C04.requested", f, True, "calling it is the request")
                continue
            q = c.run(f, kw={p: FALSE for p in ps}, key="nodl") if ps else r
            left = [e for e in q.events if is_net(e)]
            bad = 0
            for e in left:
                pc = conj(e.pc)
                v = beval(pc, off("download"))
                w = f"{site(e)} via {f}"
                if v is False:
                    continue
                bad += 1
                if any(word(a, "download") for a in atoms(pc)):
                    c.ob("C04.requested", w, None, "condition on the request not understood")
                else:
                    c.ob("C04.requested", w, False, f"{e.fn} is reached although {'/'.join(ps) or 'no download'} was {'false' if ps else 'requested'}")
            if not bad:
                c.ob("C04.requested", f, True, f"{len(nets)} network call sites, none reachable unless {'/'.join(ps) or 'the caller asked'}")
            for p, d in params(node):
                if "download" in p.arg and d is not None:
                    fd = isinstance(d, ast.Constant) and not d.value
                    c.ob("C04.default", f"{f}:{p.arg}", True if fd else False if isinstance(d, ast.Constant) else None, "off unless asked for" if fd else "download is on although the caller did not ask")
            if o is not None and nm == "__init__" and ps:
                with c.rule("C04.missing", f):
                    missing(c, r, f, o, m, ps)
    for f, (m, node, o) in info.items():
        if "add_argument" in mentions(node):
            with c.rule("C04.flags", f):
                flags(c, c.run(f), f, "download", "C04.default")
    if not n:
        with c.rule("C04.anchor"):
            raise AnalysisBroken("no network call reachable from a public entry")


def flags(c, r, f, w, rule):
    """Command-line switches: the effective default of destination `w...` is off."""
    first, sd = {}, {}
    for e in r.events:
        if e.kind != "call":
            continue
        if e.fn == "m.add_argument" and len(e.args) > 1:
            opts = [a.args[0] for a in e.args[1:] if is_const(a) and isinstance(a.args[0], str)]
            if not opts:
                continue
            dest = e.kw["dest"].args[0] if "dest" in e.kw and is_const(e.kw["dest"]) else next((o for o in opts if o.startswith("--")), opts[0]).lstrip("-").replace("-", "_")
            act = e.kw["action"].args[0] if "action" in e.kw and is_const(e.kw["action"]) else None
            d = e.kw.get("default")
            if d is None:
                d = FALSE if act == "store_true" else TRUE if act == "store_false" else NONE
            first.setdefault(dest, d)
        elif e.fn == "m.set_defaults":
            sd.update(e.kw)
    for dest, d in first.items():
        if w in dest:
            d = sd.get(dest, d)
            v = (not d.args[0]) if is_const(d) else None
            c.ob(rule, f"{f}:--{dest}", v, "off by default" if v else "on by default" if v is False else "default not a constant")


IO = {"soundfile.read", "soundfile.info", "m.open", "builtins.open", "m.glob", "m.rglob", "m.iterdir", "m.read_text", "soundfile.SoundFile", "torchaudio.load", "os.listdir"}


def datadir(c, r, cls, mod, init):
    """Shallowest directory on the path of the audio files that is specific to this dataset (mentions a constructor option other than the root)."""
    me = next((t for t, x in r.state.heap.items() if x.kind == "inst" and x.cls is not None and x.cls.node is cls), None) if r.state else None
    if me is None:
        return None
    fields = r.state.heap[me].fields
    selfs = T("sym", "self")

    def sub(t):
        return substitute(t, {T("attr", selfs, k): v for k, v in fields.items()})
    out = []
    for nm in ("load_audio", "audio_path", "available_sentences"):
        full = f"{mod.name}.{cls.name}.{nm}"
        if full not in {f for f, *_ in all_functions(c.P)}:
            continue
        q = c.run(full, key="self")
        cand = [e.args[0] for e in q.events if e.kind == "call" and e.fn in IO and e.args]
        for p in cand:
            p = pnorm(sub(unhash(p)))
            ch = ancestors(p)[::-1]
            for a in ch:
                if a.op == "bin" and any(isinstance(s, T) and s.op == "sym" for s in subterms(a.args[2])):
                    if a not in out:
                        out.append(a)
                    break
    return out


def substitute(t, m):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = m.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            r = x if na == x.args else (phi(*na) if x.op == "phi" else T(x.op, *na))
            r = m.get(r, r)
        memo[x] = r
        return r
    return go(t)


def missing(c, r, f, cls, mod, ps):
    ds = datadir(c, r, cls, mod, f)
    if not ds:
        c.ob("C04.missing", f, None, "data directory not identified")
        return
    for D in ds:
        w = f"{f}: {show(D)[:80]}"

        def asg(a):
            x = a.args[0] if a.op == "truth" else a
            while callname(x) in ("builtins.any", "builtins.list", "builtins.bool") and cargs(x):
                x = cargs(x)[0]
            if callname(x) in EXISTS:
                p = pnorm(unhash(cargs(x)[0]))
                return not under(p, D)
            return None
        q = c.run(f, kw={p: FALSE for p in ps}, key="nodl")
        if q.state is None:
            c.ob("C04.missing", w, None, "never returns")
            continue
        F = conj(q.state.pc)
        v = beval(F, asg)
        if v is None:
            open_ = [a for a in atoms(F) if asg(a) is None and any(callname(s) in EXISTS or callname(s) in IO for s in subterms(a) if isinstance(s, T))]
            v = None if open_ else True
        c.ob("C04.missing", w, None if v is None else not v, "absent data without download always raises" if v is False else "returns normally although the data directory does not exist")
        for name, pc, e in q.raises:
            if beval(conj(pc), asg) is not False and any(asg(a) is not None for x in pc[-1:] for a in atoms(x)):
                x = e.args[0] if e.args else NONE
                named = x.op != "call" or bool(cargs(x)) or bool(ckw(x))
                if x.op in ("call", "ext", "cls"):
                    c.ob("C04.named", f"{site(e)} via {f}", bool(named and x.op == "call"), "the error says what is missing" if named and x.op == "call" else "the error carries no message")
