"""C29: what runs at import time is enumerated (module bodies, class bodies, decorators, defaults, and the package functions they call) and checked for imports beyond the hard dependencies and for effects; the import order is simulated so that every imported and advertised name is shown to be bound."""
import ast, builtins, pathlib, re, sys
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken, REPO, PKG

HARD = {"torch", "numpy", "soundfile", PKG}
STDLIB = set(sys.stdlib_module_names)
METHODS = {"mkdir", "write_text", "write_bytes", "read_text", "read_bytes", "touch", "unlink", "rmdir", "iterdir", "rglob", "glob", "exists", "is_file", "is_dir", "stat", "open", "resolve_file"}
SIDE = {
    "file": ["open", "io.open", "os.makedirs", "os.mkdir", "os.remove", "os.unlink", "os.rename", "os.listdir", "os.scandir", "os.chdir", "os.walk", "os.path.exists", "os.path.isfile", "os.path.isdir", "shutil.*", "tempfile.*", "soundfile.*", "numpy.load", "numpy.save",
             "torch.load", "torch.save", "numpy.loadtxt", "numpy.fromfile"],
    "network": ["urllib.request.*", "socket.*", "requests.*", "http.client.*", "torch.hub.*"],
    "random state": ["random.seed", "random.random", "random.randint", "random.uniform", "random.shuffle", "random.choice", "random.sample", "random.gauss", "random.getrandbits", "random.setstate", "torch.manual_seed", "torch.seed", "torch.rand", "torch.randn", "torch.randint", "torch.randperm",
                     "torch.set_rng_state", "torch.normal", "torch.random.*", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all"],
    "logging configuration": ["logging.basicConfig", "logging.disable", "logging.captureWarnings", "logging.setLoggerClass", "logging.config.*", "logging.addLevelName", "logging.info", "logging.warning", "logging.debug", "logging.error"],
    "process state": ["warnings.filterwarnings", "warnings.simplefilter", "torch.set_default_dtype", "torch.set_default_device", "torch.set_num_threads", "torch.set_printoptions", "torch.set_grad_enabled", "torch.use_deterministic_algorithms", "torch.set_default_tensor_type", "torch.set_float32_matmul_precision",
                      "numpy.seterr", "numpy.set_printoptions", "os.putenv", "os.environ.setdefault", "os.environ.update", "os.environ.pop", "os.umask", "sys.setrecursionlimit", "sys.path.append", "sys.path.insert", "atexit.register", "signal.signal", "subprocess.*", "os.system", "locale.setlocale", "print"],
}
NPRANDOM_OK = {"numpy.random.default_rng", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.RandomState"}


def side(name):
    if name.startswith("numpy.random.") and name not in NPRANDOM_OK:
        return "random state"
    for k, v in SIDE.items():
        for p in v:
            if name == p or p.endswith(".*") and name.startswith(p[:-1]):
                return k
    return None


def absname(m, node):
    """Absolute module of an ImportFrom."""
    if not node.level:
        return node.module or ""
    parts = m.name.split(".")
    if m.path.name != "__init__.py":
        parts = parts[:-1]
    parts = parts[:len(parts) - (node.level - 1)]
    return ".".join(parts + ([node.module] if node.module else []))


def tc_test(t):
    return "TYPE_CHECKING" in mentions(t)


def is_main(t):
    return isinstance(t, ast.Compare) and "__name__" in mentions(t)


def executed(body, cond=None):
    """(statement, conditional) executed at import time, compound statements opened."""
    for s in body:
        if isinstance(s, ast.If):
            if tc_test(s.test):
                yield from executed(s.orelse, cond)
                continue
            if is_main(s.test):
                continue
            yield ("expr", s.test, cond)
            c2 = "environment" if {"environ", "getenv"} & mentions(s.test) else cond
            yield from executed(s.body, c2)
            yield from executed(s.orelse, c2)
        elif isinstance(s, ast.Try):
            yield from executed(s.body, cond)
            for h in s.handlers:
                yield from executed(h.body, cond or "handler")
            yield from executed(s.orelse, cond)
            yield from executed(s.finalbody, cond)
        elif isinstance(s, (ast.For, ast.While)):
            yield ("expr", s.iter if isinstance(s, ast.For) else s.test, cond)
            yield ("stmt", s, cond)
            yield from executed(s.body, cond)
            yield from executed(s.orelse, cond)
        elif isinstance(s, ast.With):
            for i in s.items:
                yield ("expr", i.context_expr, cond)
            yield ("stmt", s, cond)
            yield from executed(s.body, cond)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                yield ("expr", d, cond)
            yield ("stmt", s, cond)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                yield ("expr", d, cond)
            yield ("class", s, cond)
            yield from executed(s.body, cond)
            yield ("endclass", s, cond)
        else:
            yield ("stmt", s, cond)


def exprs(kind, s):
    """Expression roots evaluated by a simple statement."""
    if kind == "expr":
        return [s]
    if isinstance(s, ast.Expr):
        return [s.value]
    if isinstance(s, ast.Assign):
        return [s.value] + [t for t in s.targets if not isinstance(t, ast.Name)]
    if isinstance(s, ast.AugAssign):
        return [s.value, s.target]
    if isinstance(s, ast.AnnAssign):
        return [s.value] if s.value is not None else []
    if isinstance(s, ast.Raise):
        return [x for x in (s.exc,) if x is not None]
    if isinstance(s, ast.Assert):
        return [s.test]
    return []


def walk_exec(e):
    """Nodes evaluated now (bodies of lambdas are not)."""
    st = [e]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, ast.Lambda):
            st += n.args.defaults
            continue
        st += list(ast.iter_child_nodes(n))


class Names:
    """Import aliases of one module (any level)."""

    def __init__(self, m):
        self.m, self.a = m, {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for x in n.names:
                    self.a[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                b = absname(m, n)
                for x in n.names:
                    self.a[x.asname or x.name] = f"{b}.{x.name}"
        self.local = {n.name for n in m.tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}

    def dotted(self, f):
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        base = f"{self.m.name}.{f.id}" if f.id in self.local else self.a.get(f.id, f.id)
        return ".".join([base] + parts[::-1])


def check(c):
    P = c.P
    names = {m.name: Names(m) for m in P.modules.values()}
    with c.rule("C29.imports"):
        for m in P.modules.values():
            module(c, P, m, names)
    with c.rule("C29.bound"):
        simulate(c, P)
    with c.rule("C29.stable"):
        stable(c, P)


def heavy(mod):
    top = mod.split(".")[0]
    return top not in HARD and top not in STDLIB


def module(c, P, m, names):
    N = names[m.name]
    bad = 0
    k = 0

    def flag(rule, site, verdict, txt):
        nonlocal bad
        bad += verdict is False
        c.ob(rule, site, verdict, txt)
    for kind, s, cond in executed(m.tree.body):
        k += 1
        if kind == "stmt" and isinstance(s, (ast.Import, ast.ImportFrom)):
            mods = [x.name for x in s.names] if isinstance(s, ast.Import) else [absname(m, s)]
            for x in mods:
                if heavy(x):
                    flag("C29.hard-deps", f"{m.name}: import {x}", None if cond == "environment" else False, f"importing {m.name} loads {x}, which is not needed by the core package")
            continue
        for e in exprs(kind, s):
            effects(c, P, m, N, names, e, cond, flag, m.name, set())
        if kind == "stmt" and isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                stored(c, m, N, t, cond, flag, m.name)
    if not bad:
        c.ob("C29.hard-deps", m.name, True, f"{k} import-time statements")


def stored(c, m, N, t, cond, flag, site):
    if isinstance(t, ast.Attribute):
        d = N.dotted(t) or ""
        if t.attr in ("propagate", "disabled"):
            flag("C29.effects", f"{site}: {ast.unparse(t)} =", None if cond == "environment" else False, "changes logging configuration at import")
        elif d.startswith(("torch.backends.", "torch._", "warnings.", "logging.", "numpy.", "sys.")):
            flag("C29.effects", f"{site}: {d} =", None if cond == "environment" else False, "changes the state of another library at import")
    elif isinstance(t, ast.Subscript):
        d = N.dotted(t.value) or ""
        if d == "os.environ":
            flag("C29.effects", f"{site}: os.environ[...] =", None if cond == "environment" else False, "changes the environment at import")
        elif d.endswith("rcParams"):
            flag("C29.effects", f"{site}: {d}[...] =", None if cond == "environment" else False, "changes plotting state at import")


def effects(c, P, m, N, names, e, cond, flag, site, seen):
    for n in walk_exec(e):
        if not isinstance(n, ast.Call):
            continue
        d = N.dotted(n.func)
        if d in ("importlib.import_module", "__import__"):
            a = n.args[0] if n.args else None
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                x = a.value if not a.value.startswith(".") else PKG
                if heavy(x):
                    flag("C29.hard-deps", f"{site}: import {x}", None if cond else False, f"import-time dynamic import of {x}")
            continue
        if d is not None:
            k = side(d)
            if k:
                flag("C29.effects", f"{site}: {d}()", None if cond == "environment" or cond == "branch" else False, f"import-time effect on {k}")
                continue
        if isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in ("setLevel", "removeHandler", "addFilter", "setFormatter") or a == "addHandler" and "NullHandler" not in mentions(n):
                flag("C29.effects", f"{site}: .{a}()", None if cond in ("environment", "branch") else False, "changes logging configuration at import")
                continue
            if a in METHODS and ({"Path", "__file__"} & mentions(n.func.value) or pathname(m, n.func.value)):
                flag("C29.effects", f"{site}: .{a}()", None if cond in ("environment", "branch") else False, "touches the file system at import")
                continue
        # follow package functions called at import time
        if d and d.startswith(PKG + "."):
            f = resolve(P, names, d)
            if f is None or f in seen:
                continue
            seen.add(f)
            fm, fn = f
            body = fn.body
            if isinstance(fn, ast.ClassDef):
                body = [x for x in fn.body if isinstance(x, ast.FunctionDef) and x.name in ("__init__", "__post_init__", "__new__")]
                body = [y for x in body for y in x.body]
            follow(c, P, fm, names, body, cond, flag, f"{site} -> {fm.name}.{fn.name}", seen)


def follow(c, P, m, names, body, cond, flag, site, seen):
    N = names[m.name]
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in ([y.name for y in s.names] if isinstance(s, ast.Import) else [absname(m, s)]):
                if heavy(x):
                    flag("C29.hard-deps", f"{site}: import {x}", None if cond in ("branch", "environment") else False, f"a function called at import time loads {x}")
            continue
        if isinstance(s, (ast.If, ast.For, ast.While)):
            effects(c, P, m, N, names, s.test if not isinstance(s, ast.For) else s.iter, cond, flag, site, seen)
            follow(c, P, m, names, s.body + s.orelse, "branch", flag, site, seen)
        elif isinstance(s, ast.Try):
            follow(c, P, m, names, s.body + s.orelse + s.finalbody, cond, flag, site, seen)
            for h in s.handlers:
                follow(c, P, m, names, h.body, "branch", flag, site, seen)
        elif isinstance(s, ast.With):
            for i in s.items:
                effects(c, P, m, N, names, i.context_expr, cond, flag, site, seen)
            follow(c, P, m, names, s.body, cond, flag, site, seen)
        else:
            for e in ([s.value] if isinstance(s, ast.Return) and s.value is not None else exprs("stmt", s)):
                effects(c, P, m, N, names, e, cond, flag, site, seen)
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    stored(c, m, N, t, cond, flag, site)


def pathname(m, e):
    """A module-level name bound to a path."""
    return isinstance(e, ast.Name) and e.id in m.assigns and {"Path", "__file__"} & mentions(m.assigns[e.id])


def resolve(P, names, d, depth=0):
    mod, _, nm = d.rpartition(".")
    if depth > 8 or mod not in P.modules:
        return None
    m = P.modules[mod]
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == nm:
            return m, n
    t = names[mod].a.get(nm)
    return resolve(P, names, t, depth + 1) if t and t != d else None


# ------------------------------------------------------------------ simulation of the import order
class Fail(Exception):
    pass


def simulate(c, P):
    ok = 0
    mods = [PKG] + sorted(x for x in P.modules if x != PKG)
    if PKG not in P.modules:
        raise AnalysisBroken(f"package {PKG} not found")
    final = None
    for first in mods:
        S = Sim(c, P, first)
        S.load(first)
        if not S.bad:
            ok += 1
        final = final or S
        if first == PKG:
            final = S
    # everything loaded: what is advertised
    S = Sim(c, P, PKG)
    S.quiet = True
    for x in mods:
        S.load(x)
    n = 0
    for x in mods:
        m = P.modules[x]
        lazy = [y for y in m.tree.body if isinstance(y, ast.FunctionDef) and y.name == "__getattr__"]
        for nm in advertised(m):
            n += 1
            if nm in S.ns[x] or f"{x}.{nm}" in P.modules:
                continue
            c.ob("C29.advertised", f"{x}.{nm}", None if lazy else False, "listed in __all__ but never bound" if not lazy else "resolved by a module __getattr__")
    for mod, nm, where in documented(P):
        n += 1
        if mod not in P.modules:
            c.ob("C29.advertised", f"{mod} ({where})", False, "a documented module does not exist")
        elif nm and nm not in S.ns[mod] and f"{mod}.{nm}" not in P.modules and nm != "*":
            lazy = any(isinstance(y, ast.FunctionDef) and y.name == "__getattr__" for y in P.modules[mod].tree.body)
            c.ob("C29.advertised", f"{mod}.{nm} ({where})", None if lazy else False, "documented but never bound")
    c.ob("C29.advertised", "all", True, f"{n} advertised names looked up")
    c.ob("C29.bound", "all", True, f"{ok} of {len(mods)} modules import cleanly as the first import")


def advertised(m):
    out = []
    for s in m.tree.body:
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Name) and t.id == "__all__" for t in ts) and s.value is not None:
                if isinstance(s.value, (ast.List, ast.Tuple, ast.BinOp)):
                    out += [e.value for e in ast.walk(s.value) if isinstance(e, ast.Constant) and isinstance(e.value, str)]
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "__all__" and s.value.func.attr in ("append", "extend"):
            out += [e.value for e in ast.walk(s.value) if isinstance(e, ast.Constant) and isinstance(e.value, str)]
    return out


def documented(P):
    """(module, name, where) imported in README code blocks, docstring examples and console scripts."""
    out = []
    texts = [("README.md", (REPO / "README.md").read_text(errors="replace") if (REPO / "README.md").exists() else "")]
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                d = ast.get_docstring(n)
                if d and "import" in d:
                    texts.append((m.name, d))
    for where, t in texts:
        for blk in re.findall(r"```(?:python|py)\n(.*?)```", t, re.S):
            import textwrap
            try:
                tree = ast.parse(textwrap.dedent(blk))
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] == PKG:
                    out += [(n.module, x.name, where) for x in n.names]
                elif isinstance(n, ast.Import):
                    out += [(x.name, None, where) for x in n.names if x.name.split(".")[0] == PKG]
    pp = REPO / "pyproject.toml"
    if pp.exists():
        try:
            import tomllib
            for k, v in tomllib.loads(pp.read_text()).get("project", {}).get("scripts", {}).items():
                mod, _, fn = v.partition(":")
                out.append((mod, fn.split(".")[0] or None, f"script {k}"))
        except Exception:
            pass
    return out


class Sim:
    def __init__(self, c, P, first):
        self.c, self.P, self.first = c, P, first
        self.ns, self.loading, self.bad, self.quiet = {}, [], 0, False

    def fail(self, m, what, txt):
        self.bad += 1
        if not self.quiet:
            self.c.ob("C29.bound", f"{m}: {what}", False, txt + (f" (import chain {' -> '.join(x.replace(PKG + '.', '') for x in self.loading)})" if self.loading else ""))

    def load(self, name):
        if name in self.ns or name not in self.P.modules:
            return
        par = name.rpartition(".")[0]
        if par:
            self.load(par)
            if name in self.ns:
                return
        m = self.P.modules[name]
        self.ns[name] = {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__annotations__", "__dict__"}
        self.loading.append(name)
        future = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(x.name == "annotations" for x in s.names) for s in m.tree.body)
        cls = []
        for kind, s, cond in executed(m.tree.body):
            here = self.ns[name] if not cls else cls[-1]
            if kind == "class":
                cls.append(set())
                continue
            if kind == "endclass":
                cls.pop()
                (self.ns[name] if not cls else cls[-1]).add(s.name)
                continue
            if kind == "stmt" and isinstance(s, ast.Import):
                for x in s.names:
                    if x.name.split(".")[0] == PKG:
                        if x.name not in self.P.modules:
                            self.fail(name, f"import {x.name}", "no such module")
                        self.load(x.name)
                    here.add(x.asname or x.name.split(".")[0])
                continue
            if kind == "stmt" and isinstance(s, ast.ImportFrom):
                b = absname(m, s)
                if b.split(".")[0] == PKG:
                    if b not in self.P.modules:
                        self.fail(name, f"from {b} import", "no such module")
                    self.load(b)
                for x in s.names:
                    if b in self.P.modules:
                        t = self.ns.get(b, set())
                        if x.name == "*":
                            here |= set(advertised(self.P.modules[b])) or {y for y in t if not y.startswith("_")}
                            continue
                        if x.name not in t and "__getattr__" not in t:
                            if f"{b}.{x.name}" in self.P.modules:
                                self.load(f"{b}.{x.name}")
                            elif cond != "handler":
                                self.fail(name, f"from {b} import {x.name}", "circular import: the name is not bound yet" if b in self.loading else "the name does not exist")
                    here.add(x.asname or x.name)
                continue
            for e in exprs(kind, s):
                self.uses(name, e, cls, cond)
            if kind == "stmt":
                if not future and isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [s.args.vararg, s.args.kwarg]:
                        if a is not None and a.annotation is not None:
                            self.uses(name, a.annotation, cls, cond)
                    if s.returns is not None:
                        self.uses(name, s.returns, cls, cond)
                here |= bound(s)
        self.loading.pop()
        if par in self.ns:
            self.ns[par].add(name.rpartition(".")[2])

    def uses(self, name, e, cls, cond):
        loc = set()
        for n in walk_exec(e):
            if isinstance(n, ast.comprehension):
                loc |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            elif isinstance(n, ast.NamedExpr):
                loc.add(n.target.id)
        for n in walk_exec(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in loc or n.id in self.ns[name] or any(n.id in x for x in cls) or hasattr(builtins, n.id) or n.id in ("__class__", "__qualname__", "__module__"):
                    continue
                self.fail(name, n.id, "used at import time before it is bound") if cond is None else None


def bound(s):
    out = set()
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return {s.name}
    if isinstance(s, ast.With):
        return {x.id for i in s.items if i.optional_vars is not None for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
    if isinstance(s, ast.For):
        return {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    if isinstance(s, (ast.While,)):
        return set()
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.alias):
            out.add(n.asname or n.name.split(".")[0])
    return out


# ------------------------------------------------------------------ stable never imports experimental
def stable(c, P):
    E = f"{PKG}.experimental"
    n = 0
    for m in P.modules.values():
        if m.name == E or m.name.startswith(E + "."):
            continue
        n += 1
        skip = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.If) and tc_test(x.test):
                for b in x.body:
                    skip |= {id(y) for y in ast.walk(b)}
        for x in ast.walk(m.tree):
            if id(x) in skip:
                continue
            hit = None
            if isinstance(x, ast.Import):
                hit = any(y.name == E or y.name.startswith(E + ".") for y in x.names)
            elif isinstance(x, ast.ImportFrom):
                b = absname(m, x)
                hit = b == E or b.startswith(E + ".") or b == PKG and any(y.name == "experimental" for y in x.names)
            elif isinstance(x, ast.Call) and ({"import_module", "__import__"} & mentions(x.func)):
                cs = [y.value for y in ast.walk(x) if isinstance(y, ast.Constant) and isinstance(y.value, str)]
                hit = any("experimental" in y for y in cs)
            if hit:
                c.ob("C29.stable", f"{m.name}: {ast.unparse(x)[:80]}", False, "the stable package imports the experimental one")
    c.ob("C29.stable", "all", True, f"{n} stable modules")
