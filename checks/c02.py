"""C02: typestate of a download: write temp -> close -> compare length -> rename to the archive's final name; failures propagate."""
from vf.terms import *
from vf.rules import *
from vf.alg import Norm
from vf.peval import PEval, PP, Unknown
from vf.loader import AnalysisBroken

NET = {"urllib.request.urlopen", "urllib.request.urlretrieve", "requests.get", "m.urlopen"}
WORDS = {"urlopen", "urlretrieve", "requests", "http"}
MOVE = {"m.replace": (0, 1), "m.rename": (0, 1), "os.replace": (0, 1), "os.rename": (0, 1), "shutil.move": (0, 1), "m.move": (0, 1),
        "shutil.copy": (0, 1), "shutil.copyfile": (0, 1), "shutil.copy2": (0, 1), "m.copy": (0, 1), "os.link": (0, 1), "m.hardlink_to": (1, 0)}
COPIES = {"shutil.copy", "shutil.copyfile", "shutil.copy2"}
LENHINTS = ("Content-Length", "content-length")


def is_total(t):
    for s in subterms(t):
        if isinstance(s, T) and s.op == "attr" and s.args[1] == "length":
            return True
        if isinstance(s, T) and s.op == "const" and s.args[0] in LENHINTS:
            return True
    return False


def is_downloaded(t):
    for s in subterms(t):
        if isinstance(s, T) and (s.op in ("loopout", "mu") or callname(s) in ("m.stat", "os.path.getsize", "builtins.len", "m.tell", "os.stat")):
            return True
    return False


def wmode(e):
    """Write mode of an open() event, or None."""
    m = e.kw.get("mode")
    a = list(e.args)
    i = 1
    if m is None and len(a) > i:
        m = a[i]
    if m is None or not is_const(m) or not isinstance(m.args[0], str):
        return None
    return m.args[0] if any(ch in m.args[0] for ch in "wax+") else None


def short(a):
    """Atoms' truth when fewer bytes than announced were received."""
    if a.op == "truth":
        if is_total(a.args[0]) and not is_downloaded(a.args[0]):
            return True
        return None
    if a.op == "cmp":
        op, x, y = a.args
        k = lambda z: "tot" if is_total(z) and not is_downloaded(z) else "dl" if is_downloaded(z) and not is_total(z) else "n" if is_const(z) else None
        kx, ky = k(x), k(y)
        if {kx, ky} == {"tot", "dl"}:
            if op in ("==", "is"):
                return False
            lt = kx == "dl"
            return lt if op in ("<", "<=") else None
        if {kx, ky} == {"tot", "n"}:
            c = y if ky == "n" else x
            v = c.args[0]
            if op == "is":
                return False
            if isinstance(v, (int, float)) and v == 0:
                if op == "==":
                    return False
                return kx == "n" if op in ("<", "<=") else None
            if isinstance(v, int) and v == -1 and op == "==":
                return False
        if op == "in" and x.op == "const" and x.args[0] in LENHINTS:
            return True
    return None


class Chunk:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


MiB = 1 << 20
# announced length, received pieces, whether the last read raises
SHORT = [(1000, (), 0), (1000, (1,), 0), (1000, (990,), 0), (1000, (500, 499), 0), (5 * MiB + 7, (MiB,) * 4, 0), (5 * MiB + 7, (MiB,) * 5, 0), (1 << 30, ((1 << 29), (1 << 29) - 4096), 0),
         (1 << 30, ((1 << 29), (1 << 29) - 1), 0), (3000, (1024, 1024), 1), (5 * MiB, (MiB, 17), 1)]


class Transfer(PEval):
    """Values of the download's own variables for one short transfer."""

    def __init__(self, L, pieces, fails, loopinfo):
        super().__init__({}, {}, loopinfo)
        self.L, self.pieces, self.fails = L, pieces, fails
        self.state, self.cur, self.exc = {}, None, False
        self.steps = 0

    def truth(self, t):
        if t.op == "excd":
            if self.cur is None:
                raise Unknown
            return self.exc
        return super().truth(t)

    def ev(self, t):
        o, a = t.op, t.args
        if o == "attr" and a[1] == "length":
            return self.L
        if o == "attr" and a[1] == "st_size":
            return sum(self.pieces)
        if o == "call" and a[0].op == "ext":
            n = a[0].args[0]
            if n in ("m.tell", "os.path.getsize"):
                return sum(self.pieces)
            if n in ("m.get", "m.getheader", "m.info", "m.getheaders") and any(is_const(x) and x.args[0] in LENHINTS for x in a[1]):
                return str(self.L)
            if n in ("m.read", "m.read1"):
                if self.cur is None:
                    raise Unknown
                return Chunk(self.cur)
            if n == "builtins.getattr" and self.exc and len(a[1]) > 1 and is_const(a[1][1], "partial"):
                return Chunk(3)
        if o == "item" and is_const(a[1]) and a[1].args[0] in LENHINTS:
            return str(self.L)
        if o == "mu":
            k = (a[0], a[1])
            if k in self.state:
                return self.state[k]
            raise Unknown
        if o == "loopout":
            if self.cur is not None or len(a[3]) != 1:
                raise Unknown
            k = (a[0], a[1])
            self.state[k] = self.ev(a[2])
            try:
                for i, n in enumerate(self.pieces):
                    self.cur, self.exc = n, bool(self.fails and i == len(self.pieces) - 1)
                    self.state[k] = self.ev(a[3][0])
                return self.state[k]
            finally:
                self.cur, self.exc = None, False
                self.state.pop(k, None)
        if o == "bin":
            x, y = self.ev(a[1]), self.ev(a[2])
            if all(isinstance(z, (int, float)) for z in (x, y)):
                if a[0] in ("+", "-", "*", "/", "//", "%"):
                    return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y, "%": lambda: x % y}[a[0]]()
            raise Unknown
        return super().ev(t)


def samepath(x, y):
    """The two path terms name the same file for some arguments (symbols stand for sample names)."""
    from vf.rules import unhash
    x, y = unhash(x), unhash(y)
    env = {z: PP(str(z.args[0]).split(".")[-1]) for w in (x, y) for z in subterms(w) if isinstance(z, T) and z.op == "sym"}
    u, v = PEval(env, {})(x), PEval(env, {})(y)
    return u is not None and v is not None and str(u) == str(v)


def in_finally(P, e):
    """Is the event's statement in a finally clause that also runs after a failed transfer: True, None (guarded) or False."""
    import ast
    fs = [n for m, q, n, o in P.functions() if m.rel == e.mod and n.lineno <= e.line <= n.end_lineno]
    if not fs:
        return False
    node = max(fs, key=lambda n: n.lineno)
    for t in ast.walk(node):
        if isinstance(t, ast.Try) and t.finalbody and t.finalbody[0].lineno <= e.line <= t.finalbody[-1].end_lineno:
            for b in t.finalbody:
                for x in ast.walk(b):
                    if isinstance(x, (ast.Raise, ast.Return)):
                        return None
                    if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                        q = x.test
                        if not (isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("exists", "is_file")):
                            return None
            return True
    return False


def check(c):
    rs = roots(c.P, WORDS)
    n = 0
    for f in rs:
        with c.rule("C02.analyse", f):
            r = c.run(f)
            ev = linear(r.trace)
            nets = [e for e in ev if e.kind == "call" and e.fn in NET]
            if not nets:
                continue
            n += 1
            one(c, r, ev, nets, f)
    if n == 0:
        with c.rule("C02.anchor"):
            raise AnalysisBroken("no download is reachable from any public entry")


def one(c, r, ev, nets, root):
    I = r.I
    finals = {}
    for e in ev:
        if e.kind == "call" and e.fn in ("tarfile.open", "tarfile.TarFile", "zipfile.ZipFile", "shutil.unpack_archive", "m.gzopen", "m.bz2open"):
            p = e.args[0] if e.args else e.kw.get("name") or e.kw.get("file")
            if p is not None:
                finals[pathcore(p)] = p
    if not finals:
        c.ob("C02.final-name", root, None, "archive path not identified")
        return
    first_net = min(e.n for e in nets)
    tmps = []
    nmoves = 0
    for e in ev:
        if e.kind != "call":
            continue
        # R1 direct writes to the final name
        if e.fn in ("builtins.open", "m.open", "io.open"):
            m = wmode(e)
            if m is None:
                continue
            p = pathcore(e.args[0])
            if p in finals or any(samepath(e.args[0], z) for z in finals.values()):
                c.ob("C02.temp-name", f"{site(e)} via {root}", False, "the download is written directly under the archive's final name")
            elif e.n > first_net or any(x in e.loops for n_ in nets for x in n_.loops):
                if not any("json" in show(e.args[0]) for _ in (1,)) or True:
                    tmps.append((e, p, m))
        elif e.fn in ("urllib.request.urlretrieve", "m.write_bytes"):
            q = e.args[1] if e.fn.endswith("retrieve") and len(e.args) > 1 else e.args[0] if e.fn == "m.write_bytes" else e.kw.get("filename")
            if q is not None and pathcore(q) in finals:
                c.ob("C02.temp-name", f"{site(e)} via {root}", False, f"{e.fn} writes directly under the archive's final name")
    moves = []
    for e in ev:
        if e.kind == "call" and e.fn in MOVE and len(e.args) > 1:
            if e.fn == "m.replace" and "str" in (I.ty(e.args[0]) or ()):
                continue
            s, d = (e.args[i] for i in MOVE[e.fn])
            if pathcore(d) in finals:
                moves.append((e, s, d))
    for e, s, d in moves:
        nmoves += 1
        w = f"{site(e)} via {root}"
        sp = pathcore(s)
        mine = [t for t in tmps if t[1] is sp and t[0].n < e.n]
        if e.fn in COPIES:
            c.ob("C02.atomic", w, False, f"{e.fn} copies onto the final name, so an interruption leaves a partial archive")
        else:
            c.ob("C02.atomic", w, True, e.fn)
        # R4 closed before the move
        if mine:
            o = mine[-1][0]
            inside = False
            for x in ev:
                if x.kind == "exit" and x.args and any(callname(y) in ("m.open", "builtins.open") and pathcore(cargs(y)[0]) is sp for y in subterms(x.args[0]) if isinstance(y, T)):
                    if o.n < x.n:
                        inside = x.n > e.n
                        break
            else:
                closes = [x for x in ev if x.kind == "call" and x.fn == "m.close" and o.n < x.n < e.n]
                inside = None if closes else "never"
            if inside is True:
                c.ob("C02.closed", w, False, "the temporary file takes the final name before it is closed")
            elif inside == "never":
                c.ob("C02.closed", w, None, "close of the temporary file not seen")
            else:
                c.ob("C02.closed", w, True if inside is False else None, "moved after close")
            m = mine[-1][2]
            if "a" in m:
                un = [x for x in ev if x.kind == "call" and x.fn in ("m.unlink", "os.remove", "os.unlink") and x.n < o.n and pathcore(x.args[0]) is sp]
                c.ob("C02.fresh-temp", w, bool(un) or False, "appends to a stale partial file" if not un else "stale partial removed first")
            else:
                c.ob("C02.fresh-temp", w, True, f"temporary opened with mode {m}")
        # R3 length compared
        F = conj(e.pc)
        tot = [a for p in e.pc for a in atoms(p) if is_total(a)]
        v = beval(F, short)
        if v is None:
            # facts that do not mention the announced length cannot refuse a short transfer
            rel = [p for p in e.pc if any(is_total(a) for a in atoms(p))]
            v = beval(conj(rel), short) if rel else True
        rel = [p for p in e.pc if any(is_total(a) for a in atoms(p))]
        if v is not True and rel:
            for L, pieces, fails in SHORT:
                if Transfer(L, pieces, fails, I.loopinfo).cond(conj(rel)) is True:
                    v = (L, sum(pieces), fails)
                    break
        fin = in_finally(c.P, e)
        c.ob("C02.after-failure", w, {True: False, None: None, False: True}[fin], "the rename is in a finally clause, so it also runs after a failed transfer" if fin else "not reached after a failed transfer" if fin is False else "guarded finally clause")
        if isinstance(v, tuple):
            c.ob("C02.length-checked", w, False, f"a transfer of {v[1]} bytes out of {v[0]} announced" + (" whose last read failed" if v[2] else "") + " is given the archive's final name")
        elif v is False:
            c.ob("C02.length-checked", w, True, "a short transfer cannot reach the rename")
        elif v is True:
            c.ob("C02.length-checked", w, False, "a transfer shorter than the announced length is given the archive's final name")
        else:
            c.ob("C02.length-checked", w, None, "length test not understood")
        # the announced length must be read before the body consumes it (http.client counts it down)
        if any(isinstance(s, T) and s.op == "attr" and s.args[1] == "length" for a in tot for s in subterms(a)):
            la = [x for x in ev if x.kind == "attr" and x.fn == "length" and x.n < e.n]
            rd = [x for x in ev if x.kind == "call" and x.fn in ("m.read", "shutil.copyfileobj", "m.readinto") and x.n < e.n]
            if la and rd:
                # per download attempt: first read of .length after the request vs first body read
                req = max(x.n for x in nets if x.n < e.n)
                l1 = [x.n for x in la if x.n > req]
                r1 = [x.n for x in rd if x.n > req]
                if l1 and r1:
                    c.ob("C02.length-before-read", w, min(l1) < min(r1), "response.length is read " + ("before" if min(l1) < min(r1) else "after (it has been counted down to 0 by then)") + " the body")
    if not moves:
        c.ob("C02.final-name", root, None, "no move to the archive's final name recognised")
    # R5 failures propagate
    propagate(c, r, r.trace, [], root)


def has_net(trs):
    return any(e.kind == "call" and e.fn in NET for e in linear(trs))


def propagate(c, r, trs, loops, root):
    for t in trs:
        if t.kind == "loop":
            propagate(c, r, t.body, loops + [t], root)
            continue
        if t.kind == "try" and has_net(t.body):
            for h in t.handlers:
                names, body = h[0], h[-1]
                if not broad(names):
                    continue
                evs = linear(body)
                raises = [e for e in evs if e.kind == "raise"]
                retry = has_net(body)
                w = f"{fnof(t)}:except via {root}"
                outer = min((e.pc for e in linear(t.body)), key=len, default=())
                if not raises and not retry:
                    # swallowed unless the enclosing loop's exit raises
                    hmax = max((e.n for e in linear([t])), default=0)
                    scope = loops[-1].body if loops else r.trace
                    if any(e.kind == "call" and e.fn in NET and e.n > hmax for e in linear(scope)):
                        c.ob("C02.error-propagates", w, True, "a further attempt follows")
                    elif after_raise(r, loops, t):
                        c.ob("C02.error-propagates", w, None, "raised after the retry loop")
                    else:
                        c.ob("C02.error-propagates", w, False, "a failed download is swallowed: the handler neither re-raises nor retries")
                    continue
                if retry:
                    c.ob("C02.error-propagates", w, True, "handler retries once and lets the second failure out")
                    continue
                if any(all(q.op == "excd" for q in e.pc if q not in outer) for e in raises):
                    c.ob("C02.error-propagates", w, True, "re-raised")
                    continue
                c.ob("C02.error-propagates", w, *last_attempt(r, raises, loops))
        propagate(c, r, t.body, loops, root)
        propagate(c, r, t.alt, loops, root)
        for h in t.handlers:
            propagate(c, r, h[-1], loops, root)
        propagate(c, r, t.final, loops, root)


def broad(names):
    return not names or any(n.split(".")[-1] in ("Exception", "BaseException", "OSError", "IOError", "URLError", "HTTPError") for n in names)


def fnof(t):
    for e in linear([t]):
        return next((s for s in reversed(e.stack[:2] or e.stack) if not s.endswith("<entry>")), "?") if False else e.stack[-1]
    return "?"


def after_raise(r, loops, t):
    inner = linear(t.body)
    own = min((e.stack for e in linear([t])), key=len, default=())
    mx = max((e.n for e in linear([t])), default=0)
    return any(e.kind == "raise" and e.n > mx and e.stack[:len(e.stack)] == own[:len(e.stack)] and e.fn != "FileNotFoundError"
               for e in linear(r.trace))


def last_attempt(r, raises, loops):
    I = r.I
    inner = None
    for l in reversed(loops):
        li = I.loopinfo.get(l.a)
        if li and isinstance(li.get("iter"), T) and callname(li["iter"]) == "builtins.range":
            inner = (l.a, li["iter"])
            break
    if inner is None:
        return None, "retry loop form not understood"
    lid, it = inner
    lo, hi, st = cargs(it)
    last = T("bin", "-", hi, const(1))
    el = T("elem", it, lid)
    N = Norm(I, ints=[s for s in subterms(it) if isinstance(s, T) and s.op == "sym"])
    res = []
    for e in raises:
        cs = [p for p in e.pc if contains(p, el)]
        cond = substitute(conj(cs), {el: last})
        v = N.cnorm(cond) if cs else TRUE
        other = [p for p in e.pc if not contains(p, el) and p.op != "excd" and p.op != "exc" and lid in e.loops and p not in (I.loopinfo[lid].get("basepc") or ())]
        res.append((v, other))
    if any(v is TRUE for v, o in res):
        return True, "re-raised on the last attempt"
    if all(v is FALSE for v, o in res):
        return False, "on the last attempt the handler does not re-raise: the failure is swallowed"
    return None, "last-attempt condition not decided"
