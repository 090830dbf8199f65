"""Shared queries over value-flow graphs, effect traces and the package's call structure."""
from __future__ import annotations
import ast
from .terms import *
from .loader import AnalysisBroken


def beval(c, asg):
    """Three-valued evaluation of a condition under asg(atom) -> True/False/None."""
    r = asg(c)
    if r is not None:
        return r
    o = c.op
    if o == "const":
        return bool(c.args[0])
    if o == "not":
        r = beval(c.args[0], asg)
        return None if r is None else not r
    if o == "and":
        rs = [beval(x, asg) for x in c.args]
        return False if False in rs else True if all(x is True for x in rs) else None
    if o == "or":
        rs = [beval(x, asg) for x in c.args]
        return True if True in rs else False if all(x is False for x in rs) else None
    if o == "truth":
        return beval(c.args[0], asg) if c.args[0].op in BOOLOPS or c.args[0].op in ("phi", "const", "call") else None
    if o == "call" and c.args[0].op == "ext" and c.args[0].args[0] == "builtins.bool" and c.args[1]:
        return beval(c.args[1][0], asg)
    if o == "phi":
        p = beval(c.args[0], asg)
        if p is not None:
            return beval(c.args[1 if p else 2], asg)
        a, b = beval(c.args[1], asg), beval(c.args[2], asg)
        return a if a is b else None
    return None


def atoms(c, out=None):
    out = [] if out is None else out
    if c.op in ("and", "or", "not"):
        for x in c.args:
            atoms(x, out)
    elif c.op == "truth" and (c.args[0].op in BOOLOPS):
        atoms(c.args[0], out)
    elif c.op == "phi":
        for x in c.args:
            atoms(x, out)
    elif c.op != "const" and c not in out:
        out.append(c)
    return out


def callname(t):
    return t.args[0].args[0] if isinstance(t, T) and t.op == "call" and t.args[0].op == "ext" else None


def cargs(t):
    return t.args[1]


def ckw(t):
    return {k: v for k, v in t.args[2] if k != "#"}


def unhash(t):
    """Drop the uniqueness tags of impure calls (two evaluations compare equal)."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "call":
                r = T("call", go(x.args[0]), go(x.args[1]), tuple((k, go(v)) for k, v in x.args[2] if k != "#"))
            else:
                na = tuple(go(y) for y in x.args)
                r = x if na == x.args else (phi(*na) if x.op == "phi" else T(x.op, *na))
            memo[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------ package structure
def all_functions(P):
    """(full name, module, node, owner ClassDef or None) for module functions and methods."""
    for m, q, n, o in P.functions():
        if q.count(".") > (1 if o is not None else 0):
            continue
        yield f"{m.name}.{q}", m, n, o


def dunder_all(m):
    a = m.assigns.get("__all__")
    if a is None:
        return []
    return [e.value for e in ast.walk(a) if isinstance(e, ast.Constant) and isinstance(e.value, str)]


def public_names(P):
    out = set()
    for m in P.modules.values():
        out.update(dunder_all(m))
    return out


def mentions(node):
    s = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            s.add(n.id)
        elif isinstance(n, ast.Attribute):
            s.add(n.attr)
    return s


def reaching(P, words):
    """Functions that mention one of words, or (transitively) the name of such a function."""
    words = set(words)
    fns = list(all_functions(P))
    ment = {f: mentions(n) for f, m, n, o in fns}
    S = {f for f in ment if ment[f] & words}
    while True:
        names = set()
        for f in S:
            p = f.split(".")
            names.add(p[-1])
            if p[-1] in ("__init__", "__post_init__", "__new__", "__call__"):
                names.add(p[-2])
        add = {f for f in ment if f not in S and ment[f] & names}
        if not add:
            return S
        S |= add


def roots(P, words):
    """Outermost analysis entries of reaching(words): exported callables and uncalled functions."""
    S = reaching(P, words)
    pub = public_names(P)
    info = {f: (m, n, o) for f, m, n, o in all_functions(P)}
    called = set()
    for f, (m, n, o) in info.items():
        called |= mentions(n)
    for m in P.modules.values():
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                called |= mentions(s)
    out = []
    for f in sorted(S):
        m, n, o = info[f]
        nm = f.split(".")[-1]
        if o is not None:
            pubm = o.name in pub and (not nm.startswith("_") or nm in ("__init__", "__post_init__", "__getitem__", "__len__", "__call__", "__enter__", "__exit__"))
            if pubm or (nm not in called and not (nm.startswith("__") and o.name in called)):
                out.append(f)
        elif nm in pub or nm not in called:
            out.append(f)
    return out


def loops_of(e):
    return e.loops


def strip(t, names):
    """Remove wrapper calls (first argument passes through)."""
    while callname(t) in names and cargs(t):
        t = cargs(t)[0]
    return t


PATHWRAP = {"m.resolve", "m.absolute", "m.expanduser", "pathlib.Path", "builtins.str", "os.path.abspath", "os.path.realpath", "os.fspath", "os.path.normpath",
            "m.as_posix", "pathlib.PurePath", "pathlib.PosixPath", "m.__fspath__", "os.path.expanduser"}
RESOLVERS = {"m.resolve", "os.path.abspath", "os.path.realpath", "os.path.normpath"}


def pathcore(t):
    return unhash(strip(t, PATHWRAP))


def site(e):
    """Stable construct id (no line numbers)."""
    f = [s for s in e.stack if not s.endswith("<entry>")]
    return f"{f[-1] if f else e.mod}:{e.kind}:{e.fn}"


def linear(trace, out=None):
    """Flatten a trace into its events in program order."""
    out = [] if out is None else out
    for t in trace:
        if t.kind == "ev":
            out.append(t.a)
        linear(t.body, out)
        linear(t.alt, out)
        for h in t.handlers:
            if isinstance(h, tuple):
                linear(h[-1], out)
        linear(t.final, out)
    return out


# ------------------------------------------------------------------ lexical paths
def pnorm(t, memo=None):
    """Canonical lexical path: nested ('/', base, part) with wrappers, joins and parent-of-join resolved."""
    t = unhash_keep(t)
    while callname(t) in PATHWRAP and cargs(t):
        t = cargs(t)[0]
    n = callname(t)
    if n in ("os.path.join", "m.joinpath") and len(cargs(t)) >= 2:
        r = pnorm(cargs(t)[0])
        for x in cargs(t)[1:]:
            r = T("bin", "/", r, x)
        return r
    if n == "os.path.dirname":
        b = pnorm(cargs(t)[0])
        return b.args[1] if b.op == "bin" and b.args[0] == "/" else T("attr", b, "parent")
    if t.op == "bin" and t.args[0] == "/":
        p = t.args[2]
        b = pnorm(t.args[1])
        if is_const(p) and isinstance(p.args[0], str) and "/" in p.args[0].strip("/"):
            for q in p.args[0].strip("/").split("/"):
                b = T("bin", "/", b, const(q))
            return b
        return T("bin", "/", b, p)
    if t.op == "attr" and t.args[1] == "parent":
        b = pnorm(t.args[0])
        if b.op == "bin" and b.args[0] == "/" and callname(b.args[2]) != "m.relative_to":
            return b.args[1]
        return T("attr", b, "parent")
    if t.op == "phi":
        return phi(t.args[0], pnorm(t.args[1]), pnorm(t.args[2]))
    return t


def unhash_keep(t):
    return t


def ancestors(t):
    t = pnorm(t)
    out = [t]
    while True:
        if t.op == "bin" and t.args[0] == "/":
            t = t.args[1]
        elif t.op == "attr" and t.args[1] == "parent":
            break
        else:
            break
        out.append(t)
    return out


def under(p, root):
    """Is path p lexically at or below root (both terms)?"""
    r = pnorm(root)
    return any(a is r for a in ancestors(p))


def outermost_needed(rs, f, events):
    """False when all the events of root f happen inside another analysed root."""
    others = set(rs) - {f}
    return not events or any(not (set(e.stack) & others) for e in events)
