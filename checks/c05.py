"""C05: effect analysis of the dataset builder: every deleting effect is located (lexical path) inside the target directory and dead when overwriting is off, the refusal dominates every write, and no option-only validation error is still reachable after the deletion."""
import ast, fnmatch, itertools, random
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken
from .c04 import params, flags, off, word

TREE = {"shutil.rmtree"}
DELETE = {"shutil.rmtree", "m.unlink", "m.rmdir", "os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.truncate"}
MOVES = {"m.replace", "m.rename", "os.replace", "os.rename", "shutil.move"}
CREATE = {"soundfile.write", "m.mkdir", "os.makedirs", "os.mkdir", "m.write_text", "m.write_bytes", "m.touch"}
LOOKS = {"m.exists", "m.is_dir", "os.path.exists", "os.path.isdir", "m.lexists", "os.path.lexists"}
LISTS = {"m.iterdir", "os.listdir", "os.scandir", "m.glob", "m.rglob", "os.walk", "m.walk"}


def inside(p, D):
    """Lexically strictly inside / equal to D (True), elsewhere (False), not known (None)."""
    p = pnorm(p)
    if p.op == "elem":
        p = p.args[0]
        while callname(p) in ("builtins.list", "builtins.sorted", "builtins.iter", "builtins.tuple", "builtins.reversed"):
            p = cargs(p)[0]
        if callname(p) in LISTS or callname(p) in ("m.glob",):
            return inside(cargs(p)[0], D)
        return None
    if p is pnorm(D):
        return True
    if callname(p) in ("m.with_name", "m.with_suffix", "m.with_stem"):
        q = pnorm(cargs(p)[0])
        if q is pnorm(D):
            return False
        return inside(q, D)
    if p.op == "bin" and p.args[0] == "/":
        if is_const(p.args[2]) and p.args[2].args[0] == "..":
            return False if pnorm(p.args[1]) is pnorm(D) else None
        return inside(p.args[1], D)
    if p.op == "attr" and p.args[1] == "parent":
        return False if pnorm(p.args[0]) is pnorm(D) or p.args[0].op == "sym" else None
    if p.op == "phi":
        a, b = inside(p.args[1], D), inside(p.args[2], D)
        return a if a == b else False if False in (a, b) else None
    if p.op == "sym" or p.op == "const":
        return False
    if callname(p) in ("pathlib.Path.cwd", "pathlib.Path.home", "os.getcwd", "tempfile.gettempdir"):
        return False
    return None


def target_of(r):
    """The parameter under which the audio is written."""
    n = {}
    for e in r.events:
        if e.kind == "call" and e.fn == "soundfile.write" and e.args:
            p = ancestors(e.args[0])[-1]
            while callname(p) in ("m.with_name", "m.with_suffix"):
                p = ancestors(cargs(p)[0])[-1]
            if p.op == "sym":
                n[p] = n.get(p, 0) + 1
    return max(n, key=n.get) if n else None


def wpath(e):
    """Path written or created by an event, or None."""
    if e.kind != "call" or not e.args:
        return None
    if e.fn in CREATE:
        return e.args[0]
    if e.fn in ("builtins.open", "m.open", "io.open"):
        m = e.kw.get("mode") or (e.args[1] if len(e.args) > 1 else None)
        if m is not None and is_const(m) and any(x in str(m.args[0]) for x in "wax+"):
            return e.args[0]
    return None


def is_move(e, I):
    return len(e.args) == 2 and not (e.fn.startswith("m.") and "str" in (I.ty(e.args[0]) or ()))


def own(e, ev):
    """Deletes something this very run has written or handed to a subprocess before."""
    p = pnorm(unhash(e.args[0]))
    for x in ev:
        if x.n >= e.n:
            break
        w = wpath(x)
        if w is not None and pnorm(unhash(w)) is p:
            return True
        if x.kind == "call" and x.fn.startswith("subprocess.") and any(contains(unhash(a), p) for a in x.args):
            return True
        if x.kind == "call" and x.fn in ("tempfile.mkstemp", "tempfile.NamedTemporaryFile", "tempfile.mkdtemp", "tempfile.TemporaryDirectory") and contains(e.args[0], x.res):
            return True
    return False


def check(c):
    n = 0
    for f, m, node, o in all_functions(c.P):
        ow = [p.arg for p, d in params(node) if "overwrite" in p.arg or p.arg in ("force", "exist_ok", "clobber")]
        if not ow or f.split(".")[-1] not in public_names(c.P):
            continue
        n += 1
        with c.rule("C05.analyse", f):
            one(c, f, node, ow)
    for f, m, node, o in all_functions(c.P):
        if "add_argument" in mentions(node):
            with c.rule("C05.flags", f):
                flags(c, c.run(f), f, "overwrite", "C05.default")
    with c.rule("C05.calls"):
        callers(c)
    if not n:
        with c.rule("C05.anchor"):
            raise AnalysisBroken("no exported builder with an overwrite option")


def callers(c):
    """Who turns overwriting on: a call inside the package passes it on from its own caller or the command line."""
    for f, m, node, o in all_functions(c.P):
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                for k in x.keywords:
                    if k.arg and "overwrite" in k.arg:
                        s = [y for y in ast.walk(k.value) if isinstance(y, (ast.Name, ast.Attribute)) and "overwrite" in (y.id if isinstance(y, ast.Name) else y.attr)]
                        if isinstance(k.value, ast.Constant):
                            c.ob("C05.explicit", f"{f}: {k.arg}=", not k.value.value, "constant passed to the builder")
                        else:
                            c.ob("C05.explicit", f"{f}: {k.arg}=", True if s else None, "passed on from the caller" if s else "value not understood")


def one(c, f, node, ow):
    dl = [p.arg for p, d in params(node) if "download" in p.arg]
    base = {p: FALSE for p in dl}
    r = c.run(f, kw=base, key="nodl")
    ev = linear(r.trace)
    D = target_of(r)
    if D is None:
        c.ob("C05.inside", f, None, "target directory not identified")
        return
    dels = [e for e in ev if e.kind == "call" and e.fn in DELETE and e.args]
    for e in dels:
        v = inside(e.args[0], D)
        c.ob("C05.inside", f"{site(e)}({show(pnorm(e.args[0]))[:80]})", v, "inside the dataset directory" if v else f"deletes outside {show(D)}" if v is False else "path not understood")
    for e in ev:
        if e.kind == "call" and e.fn in MOVES and is_move(e, r.I):
            for a in e.args[:2]:
                v = inside(a, D)
                if v is not True and not any(callname(s) == "tempfile.TemporaryDirectory" for s in subterms(a) if isinstance(s, T)):
                    c.ob("C05.inside", f"{site(e)}({show(pnorm(a))[:80]})", v, "moves or replaces a file outside the dataset directory" if v is False else "path not understood")
        p = wpath(e)
        if p is not None:
            v = inside(p, D)
            if v is not True:
                c.ob("C05.inside", f"{site(e)}({show(pnorm(p))[:80]})", v, "writes outside the dataset directory" if v is False else "path not understood")
    q = c.run(f, kw={**base, **{p: FALSE for p in ow}}, key="noow")
    qe = linear(q.trace)
    Dn = pnorm(D)

    def world(name, isdir):
        """Truth of tests of the file system where the target is a directory holding one entry."""
        def listed(x):
            a = cargs(x)
            if callname(x) in ("m.glob", "m.rglob"):
                pat = a[1] if len(a) > 1 else dict(x.args[2]).get("pattern")
                if pat is None or not is_const(pat) or "/" in pat.args[0]:
                    return None
                return fnmatch.fnmatchcase(name, pat.args[0])
            return True

        def look(x):
            q = pnorm(unhash(cargs(x)[0]))
            there = d = None
            if q is Dn:
                there = d = True
            elif q.op == "bin" and q.args[0] == "/" and is_const(q.args[2]) and isinstance(q.args[2].args[0], str) and contains(q.args[1], Dn) and inside(q.args[1], D):
                there = q.args[1] is Dn and q.args[2].args[0] == name
                d = there and isdir
            if callname(x) in ("m.is_dir", "os.path.isdir"):
                return d
            if callname(x) in ("m.is_file", "os.path.isfile"):
                return None if there is None else there and not d
            return there

        def w(a):
            x = a.args[0] if a.op == "truth" else a
            while callname(x) in ("builtins.any", "builtins.bool", "builtins.list", "builtins.sorted", "builtins.tuple", "builtins.set"):
                x = cargs(x)[0]
            nm = callname(x)
            if nm in LOOKS or nm in ("m.is_file", "os.path.isfile"):
                return look(x)
            if nm in LISTS and pnorm(unhash(cargs(x)[0])) is Dn:
                return listed(x)
            if a.op == "cmp":
                op, u, v = a.args
                for s, t in ((u, v), (v, u)):
                    z = next((z for z in subterms(s) if isinstance(z, T) and callname(z) in LISTS and pnorm(unhash(cargs(z)[0])) is Dn), None)
                    some = listed(z) if z is not None else None
                    if some is None:
                        continue
                    if callname(s) == "builtins.next" and t is NONE and op in ("is", "=="):
                        return not some
                    if callname(s) == "builtins.len" and is_const(t) and t.args[0] == 0:
                        return (not some) if op == "==" else some if (op == "<" and s is v) else (not some) if op == "<=" and s is u else None
            return None
        return w
    vis = lambda p: any(isinstance(s, T) and (callname(s) in LOOKS or callname(s) in LISTS) and contains(s, D) for s in subterms(p))

    def alive(pc):
        """False: impossible where the target holds earlier data; True: not stopped by it; None: depends on a test not understood."""
        rs = []
        for wd in (world("keep.txt", False), world("old", True)):
            v = beval(conj(pc), wd)
            rs.append(False if v is False else None if any(wd(a) is None and vis(a) for p in pc for a in atoms(p)) else True)
        return True if True in rs else None if None in rs else False
    # overwrite off: nothing that existed before is deleted
    k = 0
    for e in qe:
        if e.kind == "call" and e.fn in DELETE and e.args and not own(e, qe):
            w = f"{site(e)}({show(pnorm(e.args[0]))[:80]})"
            v = beval(conj(e.pc), off("overwrite"))
            al = alive(e.pc)
            if v is False or al is False:
                continue
            k += 1
            c.ob("C05.explicit", w, None if al is None or any(word(a, "overwrite") for a in atoms(conj(e.pc))) else False, f"deletes although {'/'.join(ow)} is false")
    if not k:
        c.ob("C05.explicit", f, True, f"{len(dels)} deletions, none of earlier data without {'/'.join(ow)}")
    for p, d in params(node):
        if p.arg in ow and d is not None:
            c.ob("C05.default", f"{f}:{p.arg}", (not d.value) if isinstance(d, ast.Constant) else None, "off unless asked for" if isinstance(d, ast.Constant) and not d.value else "overwriting is the default")
    # a non-empty target is refused before anything is written
    k = 0
    for e in qe:
        p = wpath(e) if e.kind == "call" else None
        if p is not None and inside(p, D) is not False or e.kind == "call" and e.fn in MOVES and is_move(e, q.I) and inside(e.args[1], D):
            v = alive(e.pc)
            if v is not False:
                k += 1
                c.ob("C05.refuse", site(e), None if v is None else False, "writes into an existing target although overwriting is off")
    v = alive(q.state.pc) if q.state is not None else False
    c.ob("C05.refuse", f"{f}: return", None if v is None else not v, "an existing target is refused" if v is False else "returns normally with an existing target and overwriting off")
    order(c, f, r, ev, dels, node)


# ------------------------------------------------------------------ validation before deletion
PURE = {"builtins.float", "builtins.int", "builtins.str", "builtins.len", "builtins.min", "builtins.max", "builtins.abs", "builtins.bool", "builtins.round", "math.isfinite", "math.isnan",
        "np.sqrt", "math.sqrt", "np.isfinite", "m.lower", "m.strip"}


def optional(t, opts):
    """Built from the caller's options and constants only, by scalar operations."""
    if not isinstance(t, T):
        return True
    if t.op == "sym":
        return t.args[0] in opts
    if t.op == "const" or t.op == "gobj" or t.op == "ext":
        return True
    if t.op == "elem":
        return optional(t.args[0], opts)
    if t.op == "call":
        return callname(t) in PURE and all(optional(x, opts) for x in t.args[1]) and all(optional(v, opts) for k, v in t.args[2])
    if t.op in ("cmp", "bin"):
        return all(optional(x, opts) for x in t.args[1:])
    if t.op in ("and", "or", "not", "truth", "un", "phi", "neg", "item", "getitem", "tuple"):
        return all(optional(x, opts) for x in t.args if isinstance(x, T))
    return False


class Unk(Exception):
    pass


def val(t, env):
    """Value of a scalar option term at a sample point (atoms that are not numeric are free booleans)."""
    o = t.op
    if o == "const":
        return t.args[0]
    if o == "sym":
        return env[t]
    if o == "and":
        return all([val(x, env) for x in t.args])
    if o == "or":
        return any([val(x, env) for x in t.args])
    if o == "not":
        return not val(t.args[0], env)
    if o == "truth":
        return bool(val(t.args[0], env))
    if o == "phi":
        return val(t.args[1 if val(t.args[0], env) else 2], env)
    if o == "bin":
        a, b = val(t.args[1], env), val(t.args[2], env)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b}[t.args[0]]()
        except (ZeroDivisionError, KeyError, OverflowError, TypeError):
            raise Unk
    if o == "cmp":
        if t.args[0] == "in":
            return env.setdefault(t, env["#rng"].random() < 0.5)
        a, b = val(t.args[1], env), val(t.args[2], env)
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, "==": lambda: a == b, "!=": lambda: a != b, "is": lambda: a is b}[t.args[0]]()
        except (KeyError, TypeError):
            raise Unk
    if o == "call":
        n = callname(t)
        if n == "builtins.len":
            return env.setdefault(t, env["#rng"].choice([1, 2, 3, 6]))
        a = [val(x, env) for x in t.args[1]]
        import math
        try:
            return {"builtins.float": float, "builtins.int": int, "builtins.min": min, "builtins.max": max, "builtins.abs": abs, "builtins.bool": bool, "math.isfinite": math.isfinite, "np.isfinite": math.isfinite,
                    "math.isnan": math.isnan, "np.sqrt": math.sqrt, "math.sqrt": math.sqrt, "builtins.round": round}[n](*a)
        except (KeyError, ValueError, TypeError, OverflowError):
            raise Unk
    raise Unk


POINTS = [-1.0, 0, 0.1, 0.25, 0.35, 0.5, 0.65, 0.9, 1, 2, 3, 7, 300.0]


def order(c, f, r, ev, dels, node):
    opts = {p.arg for p, d in params(node)}
    real = [e for e in dels if not own(e, ev)]
    if not real:
        c.ob("C05.validate-first", f, True, "nothing is deleted")
        return
    d = min(real, key=lambda e: e.n)
    k = bad = 0
    for name, pc, e in r.raises:
        if e.n < d.n or not pc:
            k += 1
            continue
        last = pc[-1]
        if not any(isinstance(s, T) and s.op == "sym" for s in subterms(last)) or not optional(last, opts):
            continue
        w = f"{site(e)}: {show(last)[:80]}"
        rest = [p for p in pc[:-1] if optional(p, opts)]
        nonnum = [a for a in atoms(last) if a.op == "cmp" and a.args[0] == "in"]
        if nonnum and any(p is not last and any(contains(p, x) for a in nonnum for x in [a.args[2]]) for p in pc[:-1]):
            c.ob("C05.validate-first", w, None, "membership test partly made before")
            continue
        v = witness([last] + rest)
        if v is False:
            continue
        bad += 1
        c.ob("C05.validate-first", w, None if v is None else False, f"the option is only refused after {d.fn} has deleted the existing dataset" + (f" (e.g. {v})" if v else ""))
    # a constructor argument refused inside a loop over the options counts too; done above because the loop element is an option
    if not bad:
        c.ob("C05.validate-first", f, True, f"{k} errors can be raised before the deletion, none that depends on options alone after it")


def witness(cs):
    syms = sorted({s for x in cs for s in subterms(x) if isinstance(s, T) and s.op == "sym"}, key=lambda s: s.args[0])
    rng = random.Random(5)
    unk = 0
    for i in range(4000):
        env = {s: rng.choice(POINTS) for s in syms}
        env["#rng"] = rng
        try:
            if all(val(x, env) for x in cs):
                return ", ".join(f"{s.args[0]}={env[s]}" for s in syms)[:120] or "x"
        except Unk:
            unk += 1
        except RecursionError:
            return None
    return None if unk > 2000 else False
