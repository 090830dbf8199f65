"""Parse /repo/src/torchrir and resolve names; nothing is imported or run."""
from __future__ import annotations
import ast, hashlib, os, pathlib

REPO = pathlib.Path(os.environ.get("VF_REPO", "/repo"))
PKG = "torchrir"


class Module:
    def __init__(self, name, path, pkg, src=None):
        self.name, self.path, self.is_pkg = name, path, path.name == "__init__.py"
        self.src = path.read_text(encoding="utf-8") if src is None else src
        self.tree = ast.parse(self.src, str(path))
        self.pkg = pkg
        self.defs = {}      # name -> ast node (FunctionDef / ClassDef)
        self.assigns = {}   # name -> last value expr
        self.imports = {}   # name -> ("mod", dotted) | ("from", dotted, attr)
        self.global_written = set()
        self._scan(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.global_written.update(n.names)

    @property
    def rel(self):
        try:
            return str(self.path.relative_to(REPO))
        except ValueError:
            return str(self.path)

    def _absname(self, level, mod):
        if not level:
            return mod or ""
        base = self.name.split(".")
        if not self.is_pkg:
            base = base[:-1]
        base = base[: len(base) - (level - 1)]
        return ".".join(base + ([mod] if mod else []))

    def bind_import(self, node, into):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    into[a.asname] = ("mod", a.name)
                else:
                    into[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
        else:
            m = self._absname(node.level, node.module)
            for a in node.names:
                into[a.asname or a.name] = ("from", m, a.name)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
                self.assigns.pop(n.name, None)
                self.imports.pop(n.name, None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.bind_import(n, self.imports)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.assigns[e.id] = ast.Subscript(
                                    value=n.value, slice=ast.Constant(value=i), ctx=ast.Load())
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.assigns[n.target.id] = n.value
            elif isinstance(n, ast.If):
                self._scan(n.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                for h in n.handlers:
                    self._scan(h.body)
                self._scan(n.orelse)
                self._scan(n.finalbody)
            elif isinstance(n, ast.With):
                self._scan(n.body)


class Program:
    def __init__(self, root=None):
        root = pathlib.Path(root or REPO / "src" / PKG)
        self.root = root
        self.modules = {}
        for p in sorted(root.rglob("*.py")):
            rel = p.relative_to(root.parent).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            name = ".".join(parts)
            self.modules[name] = Module(name, p, self)
        if not self.modules:
            raise AnalysisBroken(f"no modules under {root}")
        h = hashlib.sha256()
        for m in self.modules.values():
            h.update(m.name.encode())
            h.update(m.src.encode())
        self.digest = h.hexdigest()[:16]

    def functions(self):
        """Yield (module, qualname, node, owner class or None) for every def."""
        for m in self.modules.values():
            def walk(body, pre, owner):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + n.name, n, owner
                        yield from walk_inner(n, pre + n.name + ".")
                    elif isinstance(n, ast.ClassDef):
                        yield from walk(n.body, pre + n.name + ".", n)
            def walk_inner(fn, pre):
                for n in ast.walk(fn):
                    if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + n.name, n, None
            yield from walk(m.tree.body, "", None)


class AnalysisBroken(Exception):
    """An anchor vanished or nothing was analysed: error exit, never a pass."""
