"""C30: typestate of the package logger: every logger configured or handed out is named below the package (proved per leaf of the value, refuted by constant propagation of sample names), no root-logger operation is reachable outside the command line, a handler is added only when none exists, and the level that reaches logger and handlers is the validated one."""
import ast
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken, PKG
from .c04 import params
from .c29 import Names

ROOTOPS = {"logging.basicConfig", "logging.debug", "logging.info", "logging.warning", "logging.warn", "logging.error", "logging.critical", "logging.exception", "logging.log", "logging.disable", "logging.captureWarnings",
           "logging.setLoggerClass", "logging.addLevelName", "logging.shutdown", "logging.config.dictConfig", "logging.config.fileConfig", "logging.setLogRecordFactory"}
LEVELS = {"NOTSET": 0, "DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
SAMPLES = ["", "root", PKG, PKG + ".x", PKG + "x", PKG + "_tools", "a", "a.b", "A" + PKG, ".a", PKG.upper(), "x." + PKG]


def below(name):
    return name == PKG or name.startswith(PKG + ".")


def leaves(t, facts=()):
    if t.op == "phi":
        return leaves(t.args[1], facts + (t.args[0],)) + leaves(t.args[2], facts + (neg(t.args[0]),))
    return [(t, facts)]


def proved(t, facts):
    """The name term always lies at or below the package (given the facts on this branch)."""
    if is_const(t):
        return isinstance(t.args[0], str) and below(t.args[0])
    if t.op == "fstr" and is_const(t.args[0]) and isinstance(t.args[0].args[0], str) and t.args[0].args[0].startswith(PKG + "."):
        return True
    if t.op == "bin" and t.args[0] == "+":
        x = t.args[1]
        while x.op == "bin" and x.args[0] == "+":
            x = x.args[1]
        return is_const(x) and str(x.args[0]).startswith(PKG + ".")
    if t.op == "phi":
        return all(proved(x, f) for x, f in leaves(t, tuple(facts)))
    if t.op == "gobj" or t.op == "sym":
        pass

    def asg(a):
        if a.op == "cmp" and a.args[0] == "==" and t in a.args[1:]:
            o = a.args[2] if a.args[1] is t else a.args[1]
            return False if is_const(o) and isinstance(o.args[0], str) and below(o.args[0]) else None
        x = a.args[0] if a.op == "truth" else a
        if callname(x) == "m.startswith" and cargs(x)[0] is t and is_const(cargs(x)[1]):
            return False if str(cargs(x)[1].args[0]).startswith(PKG + ".") else None
        return None
    # refuted when every test that puts the name below the package is false
    return beval(conj(list(facts)), asg) is False


def check(c):
    info = {f: (m, n, o) for f, m, n, o in all_functions(c.P)}
    pub = public_names(c.P)
    cfg = [f for f, (m, n, o) in info.items() if o is None and f.split(".")[-1] in pub and {"addHandler", "setLevel"} & closure(info, f)]
    get = [f for f, (m, n, o) in info.items() if o is None and f.split(".")[-1] in pub and f not in cfg and "getLogger" in closure(info, f) and returns_logger(n)]
    if not cfg and not get:
        with c.rule("C30.anchor"):
            raise AnalysisBroken("no exported logging helper")
    for f in cfg + get:
        with c.rule("C30.namespace", f):
            namespace(c, f, info[f][1])
    for f in cfg:
        with c.rule("C30.configure", f):
            configure(c, f, info[f][1])
    with c.rule("C30.root"):
        rootops(c, info)
    with c.rule("C30.propagate"):
        propagate(c)


def closure(info, f, depth=2):
    s = set(mentions(info[f][1]))
    for _ in range(depth):
        for g, (m, n, o) in info.items():
            if g.split(".")[-1] in s and o is None and m.name == info[f][0].name:
                s |= mentions(n)
    return s


def returns_logger(n):
    return n.returns is not None and "Logger" in ast.unparse(n.returns)


def loggers(t, facts=()):
    """(name argument or None, facts) of every getLogger in a value."""
    out = []
    for x, fs in leaves(t, facts):
        if callname(x) == "logging.getLogger":
            a = cargs(x)[0] if cargs(x) else ckw(x).get("name")
            out += [(n, f2) for n, f2 in (leaves(a, fs) if a is not None else [(None, fs)])]
        elif x.op == "attr" and x.args[1] == "root" and show(x).startswith("logging"):
            out.append((None, fs))
        elif callname(x) == "m.getChild":
            out += loggers(cargs(x)[0], fs)
        else:
            out.append((False, fs))
    return out


def namespace(c, f, node):
    ps = [p.arg for p, d in params(node)]
    nm = next((p for p in ps if "name" in p), None)
    r = c.run(f)
    bad = False
    if nm:
        for s in SAMPLES + [None]:
            q = c.run(f, kw={nm: const(s)}, key=("nm", s))
            for e in q.events:
                if e.kind == "call" and e.fn == "logging.getLogger":
                    for a, fs in loggers(e.res):
                        if a is None or a is not False and is_const(a) and not below(str(a.args[0] or "")):
                            touched = any(x.kind in ("call", "setattr") and x.fn in ("m.setLevel", "m.addHandler", "m.removeHandler", "propagate") and contains(x.args[0], e.res) for x in q.events) or q.ret is not None and contains(q.ret, e.res)
                            if touched and not bad:
                                bad = True
                                c.ob("C30.namespace", f, False, f"{nm}={s!r} reaches the logger {show(a) if a is not None else 'root'}, outside {PKG}")
    if bad:
        return
    vals = [(r.ret, ())] + [(e.args[0], tuple(e.pc)) for e in r.events if e.kind in ("call", "setattr") and e.fn in ("m.setLevel", "m.addHandler", "propagate") and e.args and any(callname(s) == "logging.getLogger" for s, _ in leaves(e.args[0]))]
    ok = True
    for v, pc in vals:
        for a, fs in loggers(v, pc):
            if a is False:
                ok = None if ok else ok
                continue
            if a is None or not proved(a, fs):
                ok = None
    c.ob("C30.namespace", f, ok, "every logger lies below the package" if ok else "a name could not be placed")


# ------------------------------------------------------------------ configuring
def configure(c, f, node):
    ps = params(node)
    nm = next((p.arg for p, d in ps if "name" in p.arg), None)
    r = c.run(f, kw={nm: const(PKG)} if nm else {}, key="pkg")
    ev = linear(r.trace)
    LG = next((e.res for e in ev if e.kind == "call" and e.fn == "logging.getLogger"), None)
    if LG is None:
        c.ob("C30.once", f, None, "logger not identified")
        return
    HS = T("attr", LG, "handlers")
    isl = lambda t: any(s is LG for s, _ in leaves(t))

    def has(v):
        """World in which the logger already has (v) / has no (not v) handler."""
        def asg(a):
            x = a.args[0] if a.op == "truth" else a
            if x is HS or callname(x) == "m.hasHandlers" and isl(cargs(x)[0]):
                return v
            if x.op == "call" and callname(x) in ("builtins.len", "builtins.any", "builtins.bool") and contains(x, HS):
                return v
            if a.op == "cmp" and any(callname(s) == "builtins.len" and contains(s, HS) for s in a.args[1:]):
                op, u, w = a.args
                k = w if callname(u) == "builtins.len" else u
                if is_const(k) and k.args[0] == 0:
                    return (not v) if op == "==" else v if op == "<" and u is k else (not v) if op == "<=" and w is k else None
            if a.op == "cmp" and a.args[0] in ("==", "is") and HS in a.args[1:]:
                return not v
            if a.op in ("forall", "exists") and contains(a, HS):
                return v if a.op == "exists" else None
            return None
        return asg
    adds = [e for e in ev if e.kind == "call" and e.fn == "m.addHandler" and isl(e.args[0])]
    clears = [e for e in ev if e.kind == "call" and e.fn in ("m.removeHandler", "m.clear") and (isl(e.args[0]) or contains(e.args[0], HS))] + [e for e in ev if e.kind == "setattr" and e.fn == "handlers" and isl(e.args[0])] + [e for e in ev if e.kind in ("setitem", "delitem") and e.args and contains(e.args[0], HS)]
    for e in adds:
        w = site(e)
        if any(x.n < e.n and not x.pc[len(e.pc):] for x in clears):
            c.ob("C30.once", w, True, "earlier handlers are removed first")
            continue
        v = beval(conj(e.pc), has(True))
        if v is None:
            open_ = [a for a in atoms(conj(e.pc)) if has(True)(a) is None and (contains(a, LG) or any(isinstance(s, T) and s.op in ("gobj", "loopout", "gvar") for s in subterms(a) if not (isinstance(s, T) and s.op == "gobj" and "nameToLevel" in show(s))))]
            v = None if open_ else True
        c.ob("C30.once", w, None if v is None else not v, "a handler is added only when there is none" if v is False else "a second call adds a second handler, so every message is printed twice")
    if not adds:
        c.ob("C30.once", f, None, "no handler added here")
    levels(c, f, r, ev, LG, HS, isl, adds, has)


def levels(c, f, r, ev, LG, HS, isl, adds, has):
    sets = [e for e in ev if e.kind == "call" and e.fn == "m.setLevel" and len(e.args) > 1]
    lg = [e for e in sets if isl(e.args[0])]
    if not lg:
        c.ob("C30.level", f"{f}: logger", False if r.I.inlinecalls is not None else None, "the logger's level is never set")
        return
    V = lg[-1].args[1]
    noh = [e for e in lg if beval(conj(e.pc), has(True)) is False]
    c.ob("C30.level", f"{f}: logger", True if not len(noh) == len(lg) else False, "logger level set on every call" if len(noh) != len(lg) else "the level is only set on the first call")
    stale(c, f, lg, V)
    new = [e for e in sets if any(any(h is e.args[0] for h, _ in leaves(a.args[1])) for a in adds)]
    old = [e for e in sets if not isl(e.args[0]) and contains(e.args[0], HS)]
    for e in new + old:
        c.ob("C30.level", f"{site(e)}: {'new' if e in new else 'existing'} handler", True if same(e.args[1], V) else None if not is_const(e.args[1]) else False, "same level as the logger")
    if new and not old and adds:
        g = [a for a in adds if beval(conj(a.pc), has(True)) is False]
        if g:
            c.ob("C30.level", f"{f}: existing handler", False, "handlers of an earlier call keep their old level: a more verbose level requested later has no effect")
    if old:
        live = [e for e in old if beval(conj(e.pc), has(True)) is not False]
        c.ob("C30.level", f"{f}: existing handlers", bool(live) or False, "updated on a later call" if live else "never reached when handlers exist")
    # what the level can be for a name logging does not know
    out = set()

    def unknown(a):
        if a.op == "cmp" and a.args[0] == "in" and ("nameToLevel" in show(a.args[2], 4) or "getLevelNamesMapping" in show(a.args[2], 4)):
            return False
        if a.op == "isinst":
            k = show(a.args[1], 3)
            if a.args[0].op == "attr" and a.args[0].args[1] == "level" or a.args[0].op == "sym":
                return True if "str" in k else False
            if callname(a.args[0]) == "logging.getLevelName":
                return False if "int" in k else True
        if a.op == "cmp" and a.args[0] == "is" and NONE in a.args[1:]:
            o = a.args[1] if a.args[2] is NONE else a.args[2]
            if getter(o):
                d = getter(o)[0]
                return True if d is None or d is NONE else False if is_const(d) else None
            if o.op == "attr" and o.args[1] == "level":
                return False
        return None
    for e in lg[-1:]:
        if beval(conj(e.pc), unknown) is False:
            c.ob("C30.known", f, True, "an unknown level name never reaches setLevel")
            continue
        for v, fs in leaves(e.args[1]):
            z = beval(conj(list(fs)), unknown)
            if z is False:
                continue
            n = callname(v)
            if v.op in ("item", "getitem") or v.op == "attr" and v.args[1] == "level":
                k = True
            elif getter(v):
                d = getter(v)[0]
                k = False if d is not None and (is_const(d) and d.args[0] is not None or d.op in ("ext", "attr")) else None if n == "builtins.getattr" else False if z is True or not fs else None
            elif is_const(v) or v.op == "ext" and v.args[0].startswith("logging."):
                k = False if z is True else None
            elif n == "logging.getLevelName":
                k = None
            else:
                k = True if "_nameToLevel" in show(v, 4) and n is None else None
            c.ob("C30.known", f"{f}: {show(v, 3)[:80]}", k, "an unknown level name raises" if k else "an unknown level name silently becomes another level" if k is False else "level value not understood")


def stale(c, f, lg, V):
    """Over sampled previous levels x and requested levels y: the call leaves the logger at y."""
    for x in (0, 10, 20, 30):
        for y in (0, 10, 20, 30):
            def num(t):
                if unhash(t) is unhash(V):
                    return y
                if t.op == "attr" and t.args[1] == "level" and any(callname(s) == "logging.getLogger" for s, _ in leaves(t.args[0])):
                    return x
                if callname(t) == "m.getEffectiveLevel":
                    return x or 30
                if t.op == "ext" and t.args[0].split(".")[-1] in LEVELS and t.args[0].startswith("logging."):
                    return LEVELS[t.args[0].split(".")[-1]]
                return t.args[0] if is_const(t) and isinstance(t.args[0], (int, float)) else None

            def asg(a):
                if a.op == "cmp" and a.args[0] in ("==", "<", "<=", "is"):
                    u, w = num(a.args[1]), num(a.args[2])
                    if u is not None and w is not None:
                        return {"==": u == w, "is": u == w, "<": u < w, "<=": u <= w}[a.args[0]]
                k = a.args[0] if a.op == "truth" else a
                if num(k) is not None:
                    return bool(num(k))
                if callname(k) == "m.isEnabledFor" and num(cargs(k)[1]) is not None:
                    return (x or 30) <= num(cargs(k)[1])
                return None
            if x != y and all(beval(conj(e.pc), asg) is False for e in lg):
                c.ob("C30.level", f"{f}: previous level", False, f"a logger left at level {x} by an earlier call keeps it when {y} is requested")
                return
    c.ob("C30.level", f"{f}: previous level", True, "the requested level replaces any earlier one")


def getter(o):
    """(default or None,) of a lookup with a fallback."""
    n = callname(o) or ""
    k = 2 if n in ("m.get", "builtins.getattr") else 1 if n.endswith(".get") else None
    if k is None:
        return None
    return (cargs(o)[k] if len(cargs(o)) > k else ckw(o).get("default"),)


def same(a, b):
    return unhash(a) is unhash(b)


# ------------------------------------------------------------------ root logger
def rootops(c, info):
    fns = {f: mentions(n) for f, (m, n, o) in info.items()}
    cli = {f for f, (m, n, o) in info.items() if f.split(".")[-1] == "main" or "add_argument" in fns[f] and f.split(".")[-1].startswith("_")}
    while True:
        add = set()
        for f in fns:
            if f in cli:
                continue
            short = f.split(".")[-1]
            users = [g for g in fns if g != f and short in fns[g]]
            pub = short in public_names(c.P)
            if users and not pub and all(g in cli for g in users):
                add.add(f)
        if not add:
            break
        cli |= add
    n = 0
    names = {}
    for f, (m, node, o) in info.items():
        N = names.setdefault(m.name, Names(m))
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                d = N.dotted(x.func)
                n += 1
                if d in ROOTOPS and f not in cli:
                    c.ob("C30.root", f"{f}: {d}", False, "operates on the root logger")
                elif d == "logging.getLogger":
                    arg(c, f, m, x, f not in cli)
            elif isinstance(x, ast.Attribute) and x.attr == "root" and N.dotted(x) == "logging.root" and f not in cli:
                c.ob("C30.root", f"{f}: logging.root", False, "operates on the root logger")
    for m in c.P.modules.values():
        N = names.setdefault(m.name, Names(m))
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and N.dotted(x.func) == "logging.getLogger":
                        arg(c, m.name, m, x, True)
    c.ob("C30.root", "all", True, f"{n} calls looked at, {len(cli)} command-line functions excepted")


def arg(c, where, m, x, strict):
    if not strict:
        return
    a = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == "name"), None)
    if a is None or isinstance(a, ast.Constant) and a.value in (None, "", "root"):
        c.ob("C30.root", f"{where}: getLogger()", False, "takes the root logger")
    elif isinstance(a, ast.Constant):
        c.ob("C30.namespace", f"{where}: getLogger({a.value!r})", below(str(a.value)), "below the package" if below(str(a.value)) else "a logger outside the package's namespace")


def propagate(c):
    """Messages stay with the package's handlers by default."""
    for m in c.P.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == "propagate" and s.value is not None:
                        v = s.value.value if isinstance(s.value, ast.Constant) else None
                        c.ob("C30.propagate", f"{m.name}.{n.name}.propagate", (not v) if isinstance(s.value, ast.Constant) else None, "off by default" if v is False else "messages also reach the root logger's handlers by default")
    for f, m, n, o in all_functions(c.P):
        if "setLevel" in mentions(n) and "addHandler" in mentions(n):
            r = c.run(f)
            es = [e for e in r.events if e.kind == "setattr" and e.fn == "propagate"]
            for e in es:
                v = e.args[1]
                c.ob("C30.propagate", site(e), True if v.op == "attr" and v.args[1] == "propagate" or v is FALSE else False if v is TRUE else None, "as configured")
            if not es:
                c.ob("C30.propagate", f, False if "propagate" in {x.attr for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)} | {s.target.id for k in m.tree.body if isinstance(k, ast.ClassDef) for s in k.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)} else None, "the configured propagation is never applied")
