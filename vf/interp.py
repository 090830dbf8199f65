"""Join-based abstract interpreter over value terms (one pass per function, no path
enumeration, no solver, no execution of the analysed code)."""
from __future__ import annotations
import ast
from .terms import *
from .state import *
from .loader import AnalysisBroken, Program, PKG
from . import calls

_getattr = getattr
MAXDEPTH = 24
MAXUNROLL = 8


class FuncVal:
    def __init__(self, mod, qual, node, env=None, owner=None, kind="func"):
        self.mod, self.qual, self.node, self.env, self.owner, self.kind = mod, qual, node, env, owner, kind
        self.defframe = None

    @property
    def full(self):
        return f"{self.mod.name}.{self.qual}"


class ClassVal:
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node
        self.methods, self.fields, self.attrs, self.ann = {}, [], {}, {}
        self.is_dataclass = self.frozen = False
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            if ast.unparse(f).split(".")[-1] == "dataclass":
                self.is_dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == "frozen":
                            self.frozen = ast.unparse(k.value) == "True"
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[n.name] = n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields.append((n.target.id, n.value))
                self.ann[n.target.id] = n.annotation
                if n.value is not None:
                    self.attrs[n.target.id] = n.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value

    @property
    def full(self):
        return f"{self.mod.name}.{self.qual}"

    @property
    def name(self):
        return self.qual.split(".")[-1]


class Frame:
    def __init__(self, fv, caller_pc):
        self.fv, self.base = fv, caller_pc
        self.returns = []       # (pc suffix, value, state)
        self.yields = []
        self.loops = []         # LoopCtx
        self.globals = set()
        self.nonlocals = set()
        self.imports = {}
        self.cur = None         # current state of the frame (for closures)


class LoopCtx:
    def __init__(self, lid):
        self.lid, self.breaks, self.conts = lid, [], []


class Result:
    def __init__(self, ret, state, events, trace, raises, interp):
        self.ret, self.state, self.events, self.trace = ret, state, events, trace
        self.raises, self.I = raises, interp

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and e.fn in names]


class Interp:
    def __init__(self, prog: Program, *, shapes=None, rewrite=None, oracle=None, trust=True,
                 inline=None, symty=None, updates=False, recur=2):
        self.P = prog
        self.shapes = dict(shapes or {})
        self.rewrite = dict(rewrite or {})
        self.oracle = oracle
        self.recur = recur               # how often a function may be entered within itself
        self.updates = updates           # element stores into local tensors yield new versions of the variable
        self.trust = trust               # trust annotations when deciding isinstance
        self.mayinline = inline or (lambda fv: True)
        self.symty = dict(symty or {})   # sym T -> frozenset of tags
        self.objs = {}                   # T(func/cls/bound/mod) -> python object
        self.gcache = {}
        self.gheap = {}
        self.nloc = 0
        self.nloop = 0
        self.nexc = 0
        self.stack = []
        self.events = []
        self.lazy = {}           # generator objects -> events of their body
        self.inlinecalls = []    # every inlined call: callee, bound arguments, returned value
        self.root = []
        self.tr = self.root
        self.muted = 0
        self.mutlog = []
        self.unsupported = []
        self.loopinfo = {}
        self.trystack = []
        self.setlog = []
        self.raises = []
        self.curnode = None
        self.loopsnow = ()
        self.shape_conflicts = []
        self._shape = {}
        self._ty = {}
        self.inlined = set()
        self.cmhooks = []
        self.compinfo = {}
        self.compsome = {}
        self.nimp = 0
        self.pkgcls = {}
        for m in prog.modules.values():
            for n, d in m.defs.items():
                if isinstance(d, ast.ClassDef):
                    self.pkgcls.setdefault(n, self.mkclass(ClassVal(m, n, d)))

    # ---------------------------------------------------------------- modules
    def resolve_global(self, mod, name, seen=()):
        key = (mod.name, name)
        if key in self.gcache:
            return self.gcache[key]
        if key in seen:
            return T("ext", f"{mod.name}.{name}")
        r = self._resolve_global(mod, name, seen + (key,))
        if r is not None:
            self.gcache[key] = r
        return r

    def _resolve_global(self, mod, name, seen):
        if name in mod.defs:
            n = mod.defs[name]
            if isinstance(n, ast.ClassDef):
                return self.mkclass(ClassVal(mod, name, n))
            return self.mkfunc(FuncVal(mod, name, n))
        if name in mod.assigns:
            if name in mod.global_written:
                return T("gvar", mod.name, name)
            return self.eval_global(mod, name)
        if name in mod.imports:
            return self.resolve_import(mod.imports[name], seen)
        sub = f"{mod.name}.{name}"
        if sub in self.P.modules:
            return self.mkmod(sub)
        if name == "__name__":
            return const(mod.name)
        if name == "__file__":
            return T("sym", "__file__")
        return None

    def eval_global(self, mod, name):
        fv = FuncVal(mod, f"<{name}>", None)
        st = State({}, {}, ())
        save = (self.stack, self.tr, self.muted, self.loopsnow)
        self.stack, self.tr, self.loopsnow = [Frame(fv, ())], [], ()
        self.muted += 1
        try:
            v = self.ev(mod.assigns[name], st)
        finally:
            self.stack, self.tr, self.muted, self.loopsnow = save
        for l, o in st.heap.items():
            o = o.copy()
            o.label = o.label or f"{mod.name}.{name}"
            o.depth = -1
            self.gheap[l] = o
        return v

    def resolve_import(self, imp, seen=()):
        if imp[0] == "mod":
            return self.mkmod(imp[1]) if imp[1] in self.P.modules else T("ext", imp[1])
        _, m, a = imp
        if m in self.P.modules:
            if self.P.modules[m].imports.get(a) == imp and f"{m}.{a}" in self.P.modules:
                return self.mkmod(f"{m}.{a}")      # a package importing its own submodule
            r = self.resolve_global(self.P.modules[m], a, seen)
            if r is None and f"{m}.{a}" in self.P.modules:
                r = self.mkmod(f"{m}.{a}")
            return r if r is not None else T("ext", f"{m}.{a}")
        return T("ext", f"{m}.{a}")

    def mkmod(self, name):
        t = T("mod", name)
        self.objs[t] = self.P.modules[name]
        return t

    def mkclass(self, cv):
        t = T("cls", cv.full)
        self.objs.setdefault(t, cv)
        return t

    def mkfunc(self, fv, uid=0):
        t = T("func", fv.full, fv.kind, uid)
        self.objs.setdefault(t, fv)
        return t

    def cls_by_name(self, full):
        mod, _, q = full.rpartition(".")
        if mod not in self.P.modules:
            raise AnalysisBroken(f"module {mod} vanished")
        t = self.resolve_global(self.P.modules[mod], q)
        if t is None or t.op != "cls":
            raise AnalysisBroken(f"class {full} vanished")
        return t

    def func(self, full):
        """Public anchor lookup: dotted name of a function or Class.method."""
        parts = full.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = ".".join(parts[:i])
            if m in self.P.modules:
                rest = parts[i:]
                t = self.resolve_global(self.P.modules[m], rest[0])
                if t is None:
                    break
                for r in rest[1:]:
                    if t.op != "cls":
                        raise AnalysisBroken(f"anchor {full} vanished")
                    t = self.cls_attr(self.objs[t], r, t)
                    if t is None:
                        raise AnalysisBroken(f"anchor {full} vanished")
                return t
        raise AnalysisBroken(f"anchor {full} vanished")

    def bases(self, cv):
        out = []
        for b in cv.node.bases:
            b = b.value if isinstance(b, ast.Subscript) else b
            if isinstance(b, ast.Name):
                t = self.resolve_global(cv.mod, b.id)
                if t is not None and t.op == "cls":
                    out.append(self.objs[t])
        return out

    def mro(self, cv):
        out = [cv]
        for b in self.bases(cv):
            out += [c for c in self.mro(b) if c not in out]
        return out

    def find_method(self, cv, name):
        for c in self.mro(cv):
            if name in c.methods:
                return c, c.methods[name]
        return None, None

    def decos(self, node):
        return [ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] for d in node.decorator_list]

    def cls_attr(self, cv, name, clsT):
        c, n = self.find_method(cv, name)
        if n is not None:
            d = self.decos(n)
            kind = "static" if "staticmethod" in d else "class" if "classmethod" in d else "prop" if "property" in d else "method"
            f = self.mkfunc(FuncVal(c.mod, f"{c.qual}.{name}", n, None, c, kind))
            if kind == "class":
                return self.bind(f, clsT)
            return f
        for c in self.mro(cv):
            if name in c.attrs and not (c.is_dataclass and isinstance(c.attrs[name], ast.Call)):
                key = ("classattr", c.full, name)
                if key not in self.gcache:
                    fv = FuncVal(c.mod, f"{c.qual}.<{name}>", None)
                    st = State({}, {}, ())
                    save = (self.stack, self.tr, self.loopsnow)
                    self.stack, self.tr, self.loopsnow = [Frame(fv, ())], [], ()
                    self.muted += 1
                    v = self.ev(c.attrs[name], st)
                    self.muted -= 1
                    self.stack, self.tr, self.loopsnow = save
                    for l, o in st.heap.items():
                        o = o.copy()
                        o.label, o.depth = f"class attribute {c.full}.{name}", -1
                        self.gheap[l] = o
                    self.gcache[key] = v
                return self.gcache[key]
        return None

    def bind(self, f, selfT):
        t = T("bound", f, selfT)
        self.objs[t] = self.objs[f]
        return t

    # ------------------------------------------------------------- events
    def event(self, kind, fn, args, kw, res, st, extra=None, raw=None):
        if self.muted:
            return None
        fr = self.stack[-1]
        line = _getattr(self.curnode, "lineno", 0)
        e = Event(kind, fn, tuple(args), dict(kw), res, st.pc, self.loopsnow,
                  tuple(f.fv.full for f in self.stack), fr.fv.mod.rel, line, len(self.events), extra, raw)
        self.events.append(e)
        self.tr.append(Tr("ev", e))
        return e

    def unsup(self, what):
        fr = self.stack[-1]
        msg = f"{fr.fv.mod.rel}:{_getattr(self.curnode, 'lineno', 0)}: {what}"
        if msg not in self.unsupported:
            self.unsupported.append(msg)
        self.nexc += 1
        return T("unknown", self.nexc)

    # ------------------------------------------------------------- heap
    def new(self, st, obj):
        self.nloc += 1
        r = T("ref", self.nloc)
        obj.depth = len(self.loopsnow)
        st.heap[r] = obj
        return r

    def obj(self, st, r):
        o = st.heap.get(r)
        if o is None:
            o = self.gheap.get(r)
        return o

    def put(self, st, r, o):
        st.heap[r] = o
        self.mutlog.append(r)

    def freeze(self, st, t, seen=(), memo=None):
        """Replace heap references by immutable snapshots."""
        if isinstance(t, T) and not t.hasref:
            return t
        if memo is None:
            memo = {}
        if isinstance(t, tuple):
            return tuple(self.freeze(st, x, seen, memo) for x in t)
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is None:
            r = self._freeze(st, t, seen, memo)
            memo[t] = r
        return r

    def _freeze(self, st, t, seen, memo):
        fr = lambda x, s2: self.freeze(st, x, s2, memo)
        if t.op == "ref":
            if t in seen:
                return T("cyclic")
            o = self.obj(st, t)
            if o is None:
                return t
            s2 = seen + (t,)
            if o.label and o.depth == -1 and (o.kind != "list"):
                return T("gobj", o.label)
            if o.kind in ("list", "set", "deque"):
                if not o.rest:
                    return T("list" if o.kind == "list" else o.kind, *[fr(x, s2) for x in o.elems])
                return T("listof", o.kind, tuple(fr(x, s2) for x in o.elems), tuple(fr(x, s2) for x in o.rest))
            if o.kind == "dict":
                fz = lambda prs: tuple(T("tuple", fr(k, s2), fr(v, s2)) for k, v in prs)
                if not o.rest:
                    return T("dict", *fz(o.elems))
                return T("dictof", fz(o.elems), fz(o.rest))
            if o.kind == "inst":
                return T("inst", o.cls.full, tuple((k, fr(v, s2)) for k, v in sorted(o.fields.items())))
            return t
        if t.op in ("func", "cls", "mod", "bound", "partial"):
            if t.op == "bound":
                return T("bound", t.args[0], fr(t.args[1], seen))
            return t
        na = tuple(fr(x, seen) for x in t.args)
        if na == t.args:
            return t
        return phi(*na) if t.op == "phi" else T(t.op, *na)

    # ------------------------------------------------------------- deciding
    def decide(self, c, st):
        pc = st.pc if st is not None else ()
        return self._dec(c, pc)

    def _dec(self, c, pc):
        if c.op == "const":
            return bool(c.args[0])
        if c in pc:
            return True
        if neg(c) in pc:
            return False
        if self.oracle is not None:
            r = self.oracle(c, self)
            if r is not None:
                return r
        if c.op == "not":
            r = self._dec(c.args[0], pc)
            return None if r is None else not r
        if c.op == "and":
            rs = [self._dec(x, pc) for x in c.args]
            return False if False in rs else (True if all(r is True for r in rs) else None)
        if c.op == "or":
            rs = [self._dec(x, pc) for x in c.args]
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if c.op == "phi":
            r = self._dec(c.args[0], pc)
            if r is True:
                return self._dec(c.args[1], pc)
            if r is False:
                return self._dec(c.args[2], pc)
            a, b = self._dec(c.args[1], pc), self._dec(c.args[2], pc)
            return a if a == b else None
        if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
            x = c.args[1]
            if x is NONE:
                return True
            if x.op in ("tuple", "ref", "list", "func", "cls", "bound", "mod", "bin", "cmp", "inst", "fstr", "const", "un"):
                return False
            if x.op == "phi":
                r = self._dec(x.args[0], pc)
                if r is not None:
                    return self._dec(T("cmp", "is", x.args[1 if r else 2], NONE), pc)
                a = self._dec(T("cmp", "is", x.args[1], NONE), pc)
                b = self._dec(T("cmp", "is", x.args[2], NONE), pc)
                return a if a == b else None
            ty = self.ty(x)
            if ty and "None" not in ty:
                return False
        if c.op == "cmp" and c.args[0] in ("==", "in"):
            r = self._eqknown(c, pc)
            if r is not None:
                return r
        if c.op == "truth":
            x = c.args[0]
            if x.op in ("inst", "func", "cls", "bound", "mod", "ext"):
                return True
            if x.op in ("tuple", "list"):
                return bool(x.args)
            if x.op == "const":
                return bool(x.args[0])
            if x.op == "phi":
                return self._dec(T("phi", x.args[0], self.truth(x.args[1]), self.truth(x.args[2])), pc)
            ty = self.ty(x)
            if ty and all(self.always_true(k) for k in ty):
                return True
        return None

    def _eqknown(self, c, pc):
        """A comparison with constants of a value the path already fixed to a constant."""
        x, y = c.args[1], c.args[2]
        if x.op == "const" and c.args[0] == "==":
            x, y = y, x
        if c.args[0] == "==":
            ys = (y,)
        else:
            ys = y.args if y.op in ("tuple", "list", "set") else ()
        if c.args[0] == "in" and y.op in ("tuple", "list"):
            if x in y.args:
                return True
            if y.args and all(neg(T("cmp", "==", x, v)) in pc or neg(T("cmp", "==", v, x)) in pc for v in y.args):
                return False
        if not ys or x.op == "const" or any(v.op != "const" for v in ys):
            return None
        for f in pc:
            if f.op == "cmp" and f.args[0] == "==":
                k = f.args[2] if f.args[1] is x else f.args[1] if f.args[2] is x else None
                if k is not None and k.op == "const":
                    return any(type(v.args[0]) is type(k.args[0]) and v.args[0] == k.args[0] or
                               (isinstance(v.args[0], (int, float)) and isinstance(k.args[0], (int, float)) and v.args[0] == k.args[0]) for v in ys)
        return None

    instlike = frozenset({"Path", "Generator", "Random", "Logger", "device", "dtype", "function"})

    def truth(self, t):
        """Condition term for the truthiness of t."""
        if t.op in BOOLOPS:
            return t
        if t.op == "const":
            return const(bool(t.args[0]))
        if t.op in ("tuple", "list"):
            return const(bool(t.args))
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.bool", "m.item", "t.item") and len(t.args[1]) == 1 and not t.args[2]:
            return self.truth(t.args[1][0])
        if t.op == "phi" and (t.args[1].op in BOOLOPS or t.args[1].op == "const") and (t.args[2].op in BOOLOPS or t.args[2].op == "const"):
            c, a, b = t.args
            a, b = self.truth(a), self.truth(b)
            return disj([conj([c, a]), conj([neg(c), b])]) if not (a.op == "const" or b.op == "const") else (
                disj([c, b]) if a is TRUE else conj([neg(c), b]) if a is FALSE else disj([neg(c), a]) if b is TRUE else conj([c, a]))
        if t.op == "phi" and t.args[0].op in BOOLOPS and (t.args[0] is T("truth", t.args[1]) or t.args[0] is t.args[1]):
            return disj([t.args[0], self.truth(t.args[2])])
        if t.op == "phi" and t.args[0].op in BOOLOPS and (t.args[0] is T("truth", t.args[2]) or t.args[0] is t.args[2]):
            return conj([t.args[0], self.truth(t.args[1])])
        ty = self.ty(t)
        if ty and "None" in ty and all(k == "None" or self.always_true(k) for k in ty):
            return neg(self.cmp("is", t, NONE, None))
        if ty and all(self.always_true(k) for k in ty):
            return TRUE
        return T("truth", t)

    def always_true(self, k):
        if k in self.instlike:
            return True
        if k in self.pkgcls:
            cv = self.objs[self.pkgcls[k]]
            return not any(m in c.methods for c in self.mro(cv) for m in ("__len__", "__bool__"))
        return False

    def truth_ref(self, t, st):
        if t.op == "ref":
            o = self.obj(st, t)
            if o is not None:
                if o.kind == "inst":
                    return TRUE
                if o.elems:
                    return TRUE
                if not o.rest and o.depth != -1:
                    return FALSE
                s = o.fields.get("#some")
                if o.kind == "list" and s is not None and s.op == "some" and s.args[1] == o.rest and not self.loopsnow:
                    return s.args[0]
                if t in self.compsome and o.rest == self.compsome[t][1]:
                    return self.compsome[t][0]
                ci = self.comp_fact(t, st)
                if ci is not None:
                    return neg(T("forall", ci[0], neg(ci[1])))
        return self.truth(t)

    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = calls.type_of(self, t)
            self._ty[t] = r
        return r

    def shape(self, t):
        if t in self._shape:
            return self._shape[t]
        self._shape[t] = None
        r = calls.shape_of(self, t)
        self._shape[t] = r
        return r

    # ------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.curnode = s
        self.stack[-1].cur = st
        m = _getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsup(f"statement {type(s).__name__}")
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, st)
        if self.updates and v is not DEAD and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr.endswith("_") and \
                not s.value.func.attr.startswith("_") and (self.updates != "ops" or not s.value.func.attr.startswith(("scatter", "index", "masked"))):
            self.renew(s.value.func.value, self.ev(s.value.func.value, st), None, v, st)
        if v is not DEAD and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("sort", "reverse") and isinstance(s.value.func.value, ast.Name):
            b = self.ev(s.value.func.value, st)
            if isinstance(b, T) and b.op == "call":
                kw = tuple(sorted((k.arg, self.freeze(st, self.ev(k.value, st))) for k in s.value.keywords if k.arg))
                self.setname(s.value.func.value.id, T("call", T("ext", "builtins.sorted" if s.value.func.attr == "sort" else "builtins.reversed"), (b,), kw), st)
        if v is not DEAD and isinstance(s.value, ast.Subscript) and isinstance(v, T) and not is_const(v):
            self.event("lookup", None, (self.freeze(st, v),), {}, None, st)
        return None if v is DEAD else st

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        tmp = {}
        self.stack[-1].fv.mod.bind_import(s, tmp)
        for k, imp in tmp.items():
            v = self.resolve_import(imp)
            self.event("import", imp[1] if imp[0] == "mod" else imp[1] + "." + imp[2], (), {}, v, st)
            self.setname(k, v, st)
        return st

    s_ImportFrom = s_Import

    def s_Global(self, s, st):
        self.stack[-1].globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.stack[-1].nonlocals.update(s.names)
        return st

    def s_FunctionDef(self, s, st):
        fr = self.stack[-1]
        self.nloc += 1
        fv = FuncVal(fr.fv.mod, fr.fv.qual + "." + s.name, s, st)
        fv.defframe = fr
        f = self.mkfunc(fv, self.nloc)
        self.setname(s.name, f, st)
        return st

    def s_ClassDef(self, s, st):
        self.setname(s.name, self.mkclass(ClassVal(self.stack[-1].fv.mod, self.stack[-1].fv.qual + "." + s.name, s)), st)
        return st

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        if v is DEAD:
            return None
        fr = self.stack[-1]
        self.tr.append(Tr("ret", v))
        fr.returns.append((st.pc[len(fr.base):], v, st, self.loopsnow))
        return None

    def s_Raise(self, s, st):
        exc = NONE
        if s.exc is not None:
            exc = self.ev(s.exc, st)
        name = self.excname(exc)
        if s.exc is None:
            name = "<reraise>"
        e = self.event("raise", name, (exc,), {}, None, st)
        self.do_raise(name, st, e)
        return None

    def excname(self, exc):
        x = exc
        if x.op == "call":
            x = x.args[0]
        if x.op == "ext":
            return x.args[0].replace("builtins.", "")
        if x.op == "cls":
            return x.args[0]
        if x.op == "inst":
            return x.args[0]
        if x.op == "ref":
            return "<instance>"
        return "<unknown>"

    def do_raise(self, name, st, e):
        if self.trystack:
            self.trystack[-1].append((name, st, len(self.stack)))
        elif not self.muted:
            self.raises.append((name, st.pc, e))

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is FALSE or self.decide(c, st) is False:
            e = self.event("raise", "AssertionError", (), {}, None, st)
            self.do_raise("AssertionError", st, e)
            return None
        return st.assume(c)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev(t.slice, st)
                self.event("delitem", None, (b, i), {}, None, st)
                o = self.obj(st, b) if b.op == "ref" else None
                if o is not None:
                    o = o.copy()
                    if o.kind == "dict":
                        o.elems = tuple(p for p in o.elems if p[0] is not i)
                    else:
                        o.rest = o.elems + o.rest
                        o.elems = ()
                    self.put(st, b, o)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if v is DEAD:
            return None
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        v = self.ev(s.value, st)
        if v is DEAD:
            return None
        self.assign(s.target, v, st)
        return st

    def s_AugAssign(self, s, st):
        op = calls.BINOPS[type(s.op)]
        self_node = s
        if isinstance(s.target, ast.Name):
            cur = self.getname(s.target.id, st)
            v = self.ev(s.value, st)
            if v is DEAD:
                return None
            self.curnode = self_node
            if cur.op == "ref" and self.obj(st, cur) is not None and op == "+":
                calls.list_method(self, st, cur, self.obj(st, cur), "extend", [v], {})
                return st
            r = self.binop(op, cur, v, st)
            ty = self.ty(cur)
            if "Tensor" in ty or "ndarray" in ty:
                self.event("mut", op + "=", (cur, self.freeze(st, v)), {}, r, st)
            elif "list" in ty:
                self.event("mut", "+=", (cur, self.freeze(st, v)), {}, r, st)
            self.setname(s.target.id, r, st)
            return st
        if isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st)
            i = self.ev_index(s.target.slice, st)
            v = self.ev(s.value, st)
            if v is DEAD:
                return None
            self.curnode = self_node
            o = self.obj(st, b) if b.op == "ref" else None
            if o is not None and o.kind in ("dict", "list"):
                cur = self.getitem(b, i, st)
                self.setitem(b, i, self.binop(op, cur, v, st), st)
            else:
                self.event("setitem", op + "=", (b, i, self.freeze(st, v)), {}, None, st)
                if self.updates and self.updates != "ops":
                    self.renew(s.target.value, b, i, self.binop(op, self.getitem(b, i, st), v, st), st)
            return st
        if isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st)
            cur = self.getattr(b, s.target.attr, st)
            v = self.ev(s.value, st)
            if v is DEAD:
                return None
            if "Tensor" in self.ty(cur):
                self.event("mut", op + "=", (cur, self.freeze(st, v)), {}, None, st)
            self.setattr(b, s.target.attr, self.binop(op, cur, v, st), st)
        return st

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c is DEAD:
            return None
        d = self.decide(c, st)
        if d is True:
            return self.block(s.body, st)
        if d is False:
            return self.block(s.orelse, st)
        return self.branch(c, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def branch(self, c, st, f, g):
        node = Tr("if", c)
        self.tr.append(node)
        save = self.tr
        s1, s2 = st.copy().assume(c), st.copy().assume(neg(c))
        self.tr = node.body
        s1 = f(s1)
        self.tr = node.alt
        s2 = g(s2)
        self.tr = save
        return merge(c, s1, s2)

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)

        def go(i, st):
            if i == len(s.cases):
                return st
            cs = s.cases[i]
            c = self.pattern(cs.pattern, subj, st)
            if cs.guard is not None:
                c = conj([c, self.cond(cs.guard, st)])
            d = self.decide(c, st)
            if d is True:
                return self.block(cs.body, st)
            if d is False:
                return go(i + 1, st)
            return self.branch(c, st, lambda x: self.block(cs.body, x), lambda x: go(i + 1, x))
        return go(0, st)

    def pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return self.cmp("==", subj, self.ev(p.value, st), st)
        if isinstance(p, ast.MatchSingleton):
            return self.cmp("is", subj, const(p.value), st)
        if isinstance(p, ast.MatchOr):
            return disj([self.pattern(q, subj, st) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st)
            if p.name:
                self.setname(p.name, subj, st)
            return c
        return self.unsup("match pattern")

    # loops -----------------------------------------------------------------
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if it is DEAD:
            return None
        items = self.known_items(it, st)
        if items is not None and len(items) <= MAXUNROLL:
            return self.unrolled(s, items, st)
        return self.sym_loop(s, it, st)

    def unrolled(self, s, items, st):
        fr = self.stack[-1]
        ctx = LoopCtx(None)
        fr.loops.append(ctx)
        outs = []
        for v in items:
            if st is None:
                break
            self.assign(s.target, v, st)
            ctx.conts = []
            st = self.block(s.body, st)
            for c in ctx.conts:
                st = self.join(st, c)
        fr.loops.pop()
        if st is not None and s.orelse:
            st = self.block(s.orelse, st)
        for b in ctx.breaks:
            st = self.join(st, b)
        return st

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        eb = [x for x in b.pc if x not in a.pc]
        c = conj(eb) if eb else TRUE
        if c is TRUE:
            ea = [x for x in a.pc if x not in b.pc]
            if ea:
                c = neg(conj(ea))
            else:
                self.nexc += 1
                c = T("sym", f"?{self.nexc}")
        return merge(c, b, a)

    def assigned(self, body):
        out = set()
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                if self.updates:
                    y = x.value if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and self.updates != "ops" else x.func.value if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.endswith("_") and (self.updates != "ops" or not x.func.attr.startswith(("scatter", "index", "masked"))) else None
                    while isinstance(y, ast.Subscript):
                        y = y.value
                    if isinstance(y, ast.Name):
                        out.add(y.id)
        return out

    def elem_of(self, it, lid, st):
        """Abstract element of iterable `it` in loop lid."""
        if it.op == "ref":
            o = self.obj(st, it)
            if o is not None and o.kind in ("list", "set", "deque"):
                vals = o.elems + o.rest
                if len(vals) == 1 and o.kind != "set" and o.depth != -1:
                    return vals[0]
                return T("elem", self.freeze(st, it), lid)
            if o is not None and o.kind == "dict":
                return T("elem", T("gobj", o.label) if o.label else self.freeze(st, it), lid)
        if it.op == "call" and it.args[0].op == "ext":
            n, a = it.args[0].args[0], it.args[1]
            if n == "builtins.enumerate" and a:
                start = a[1] if len(a) > 1 else dict(it.args[2]).get("start", const(0))
                i = T("idx", lid)
                if start is not const(0):
                    i = self.binop("+", i, start, st)
                return T("tuple", i, self.elem_of(a[0], lid, st))
            if n == "builtins.zip":
                return T("tuple", *[self.elem_of(x, lid, st) for x in a])
            if n in ("builtins.sorted", "builtins.list", "builtins.reversed", "builtins.tuple") and a and a[0].op == "ref":
                pass
        if it.op == "comp":
            return it.args[2]
        if it.op == "dictview":
            kind, r = it.args
            o = self.obj(st, r)
            prs = (o.elems + o.rest) if o is not None else ()
            if len(prs) == 1:
                k, v = prs[0]
            else:
                b = self.freeze(st, r)
                k, v = T("elem", T("dkeys", b), lid), T("elem", T("dvals", b), lid)
            return {"items": T("tuple", k, v), "keys": k, "values": v}[kind]
        if it.op == "gen":
            return it.args[1]
        sh = self.shape(it)
        t = T("elem", it, lid)
        return t

    def sym_loop(self, s, it, st):
        is_while = isinstance(s, ast.While)
        self.nloop += 1
        lid = self.nloop
        if not is_while and it.op == "gen":
            pass
        fr = self.stack[-1]
        names = self.assigned(s.body + ([s.target] if not is_while else []))
        if is_while:
            names |= self.assigned([ast.Expr(s.test)])

        def start(base, dirty):
            x = base.copy()
            for n in names:
                if n in base.env:
                    x.env[n] = T("mu", lid, n)
            for r in dirty:
                o = x.heap.get(r)
                if o is None:
                    o = self.gheap.get(r)
                if o is None:
                    continue
                o = o.copy()
                if o.kind == "inst":
                    o.fields = {k: (T("mu", lid, f"{r.args[0]}.{k}") if k in dirty[r] else v) for k, v in o.fields.items()}
                else:
                    add = dirty[r]
                    o.rest = o.rest + tuple(v for v in add if v not in o.rest)
                x.heap[r] = o
            return x

        def once(x):
            ctx = LoopCtx(lid)
            fr.loops.append(ctx)
            saved = self.loopsnow
            self.loopsnow = saved + (lid,)
            dead = False
            c = TRUE
            if is_while:
                c = self.cond(s.test, x)
                if self.decide(c, x) is False:
                    dead = True
                x.assume(c)
            else:
                if it.op == "gen":
                    for g in it.args[2]:
                        x.assume(g)
                self.assign(s.target, self.elem_of(it, lid, x), x)
            out = None if dead else self.block(s.body, x)
            for k in ctx.conts:
                out = self.join(out, k)
            fr.loops.pop()
            self.loopsnow = saved
            return out, ctx, c

        # discovery pass: which heap objects does the body mutate?
        self.muted += 1
        ml, self.mutlog = self.mutlog, []
        nr, ny = len(fr.returns), len(fr.yields)
        tr, self.tr = self.tr, []
        ts = [len(x) for x in self.trystack]
        probe = start(st, {})
        before = dict(probe.heap)
        out, _c, _ = once(probe)
        self.tr = tr
        muts = set(self.mutlog)
        self.mutlog = ml + self.mutlog
        del fr.returns[nr:]
        del fr.yields[ny:]
        for x, k in zip(self.trystack, ts):
            del x[k:]
        self.muted -= 1
        dirty = {}
        for r in muts:
            o0 = before.get(r) or self.gheap.get(r)
            if o0 is None:
                continue
            o1 = out.heap.get(r, o0) if out is not None else o0
            if o0.kind == "inst":
                dirty[r] = {k for k in o1.fields if o1.fields[k] is not o0.fields.get(k)}
            else:
                dirty[r] = [v for v in o1.rest if v not in o0.rest]
        # real pass
        node = Tr("loop", lid)
        self.tr.append(node)
        save = self.tr
        self.tr = node.body
        x = start(st, dirty)
        head = x.copy()
        ntry = [len(z) for z in self.trystack]
        out, ctx, c = once(x)
        self.tr = save
        facts = []
        if out is not None:
            facts = [f for f in out.pc if f not in st.pc]
        always = is_while and c is TRUE
        self.loopinfo[lid] = dict(kind="while" if is_while else "for", iter=it, node=s, mod=fr.fv.mod.rel,
                                  breaks=len(ctx.breaks), cond=c, facts=facts, step={}, init={},
                                  conts=len(ctx.conts), outpc=out.pc if out is not None else None,
                                  basepc=st.pc, breakpcs=[b.pc[len(st.pc):] for b in ctx.breaks])
        res = st.copy() if not (always and not ctx.breaks) else None
        if res is not None:
            cands = ([] if always else ([out] if out is not None else [])) + ctx.breaks
            for n in sorted(names):
                steps = []
                for o in cands:
                    v = o.env.get(n)
                    if v is not None and v not in steps:
                        steps.append(v)
                init = st.env.get(n, UNDEF)
                if out is not None and n in out.env:
                    self.loopinfo[lid]["step"][n] = out.env[n]
                self.loopinfo[lid]["init"][n] = init
                mu = T("mu", lid, n)
                steps2 = [v for v in steps if v is not mu]
                back = out.env.get(n) if out is not None else None
                if not steps2 and back is not None and back is not mu:
                    steps2 = [back]
                    cyc = True
                else:
                    cyc = False
                if not steps2:
                    if init is not UNDEF:
                        res.env[n] = init
                    continue
                inits = () if (always or init is UNDEF) else (init,)
                if not cyc and always and len(steps2) == 1 and not (out is not None and n in out.env and out.env[n] is not mu):
                    res.env[n] = steps2[0]
                else:
                    res.env[n] = T("loopout", lid, n, init, tuple(steps2))
            for r in dirty:
                o = head.heap.get(r)
                fin = None
                for cnd in cands:
                    fin = cnd.heap.get(r)
                if o is None:
                    continue
                o = o.copy()
                if o.kind == "inst":
                    f = dict((self.obj(st, r)).fields)
                    for k in dirty[r]:
                        f[k] = T("loopout", lid, f"{r.args[0]}.{k}", f.get(k, UNDEF), (fin.fields.get(k, UNDEF) if fin else UNDEF,))
                    o.fields = f
                elif fin is not None:
                    o.rest = o.rest + tuple(v for v in fin.rest if v not in o.rest)
                res.heap[r] = o
            for cnd in cands:
                for r, o in cnd.heap.items():
                    if r not in res.heap:
                        res.heap[r] = o
            if facts and not ctx.breaks:
                res.pc = res.pc + (T("forall", lid, conj(facts)),)
            if is_while and not always and not ctx.breaks:
                res.pc = res.pc + (T("exitcond", lid, neg(c)),)
            if s.orelse:
                r2 = self.block(s.orelse, res)
                if ctx.breaks:
                    # break skips the else clause
                    if r2 is None:
                        b = None
                        for k in ctx.breaks:
                            b = self.join(b, k)
                        base = res
                        if b is not None:
                            for k in b.pc:
                                if k not in base.pc:
                                    base.pc = base.pc + (k,)
                        return base
                    return self.join(r2, res)
                res = r2
        return res

    def s_While(self, s, st):
        return self.sym_loop(s, None, st)

    def s_Break(self, s, st):
        ctx = self.stack[-1].loops[-1]
        ctx.breaks.append(st)
        self.tr.append(Tr("break", ctx.lid))
        return None

    def s_Continue(self, s, st):
        ctx = self.stack[-1].loops[-1]
        ctx.conts.append(st)
        self.tr.append(Tr("cont", ctx.lid))
        return None

    # try / with ------------------------------------------------------------
    def s_With(self, s, st):
        def go(i, st):
            if i == len(s.items):
                return self.block(s.body, st)
            item = s.items[i]
            hook = self.cmhook(item, st, lambda x: go(i + 1, x))
            ctx = self.ev(item.context_expr, st)
            if hook is not None:
                self.cmhooks.pop()
                if hook["done"]:
                    if ctx is DEAD or hook["out"] is None:
                        return None
                    return State(hook["out"].env, st.heap, st.pc)
            if ctx is DEAD:
                return None
            if ctx.op == "call" and ctx.args[0].op == "ext" and ctx.args[0].args[0] == "contextlib.suppress":
                names = tuple(self.excname(a) for a in ctx.args[1])
                return self.do_try(st, lambda x: go(i + 1, x), [(names, None, lambda x: x)], None, None)
            node = Tr("with", ctx)
            self.tr.append(node)
            save = self.tr
            self.tr = node.body
            if item.optional_vars is not None:
                v = self.enter(ctx, st)
                self.assign(item.optional_vars, v, st)
            out = go(i + 1, st)
            self.tr = save
            if out is not None:
                self.curnode = s
                self.event("exit", None, (self.freeze(out, ctx),), {}, None, out)
            return out
        return go(0, st)

    def enter(self, ctx, st):
        return T("enter", ctx)

    def cmhook(self, item, st, run):
        """`with f(...)` for a package generator marked contextmanager: its body runs around the block."""
        e = item.context_expr
        if not isinstance(e, ast.Call) or not isinstance(e.func, (ast.Name, ast.Attribute)):
            return None
        x = e.func
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        self.muted += 1
        f = self.ev(e.func, st)
        self.muted -= 1
        fv = self.objs.get(f) if isinstance(f, T) and f.op in ("func", "bound") else None
        if not isinstance(fv, FuncVal) or fv.node is None or "contextmanager" not in self.decos(fv.node):
            return None
        if sum(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fv.node)) != 1:
            return None
        h = dict(node=fv.node, item=item, run=run, env=st.env, depth=len(self.stack), done=False, out=None)
        self.cmhooks.append(h)
        return h

    def cmyield(self, v, st):
        """The yield of the innermost context manager being entered: run the block of its with statement here."""
        h = self.cmhooks[-1]
        h["done"] = True
        save, hooks = self.stack, self.cmhooks
        node = Tr("user")
        self.tr.append(node)
        tr, self.tr = self.tr, node.body
        self.stack, self.cmhooks = self.stack[:h["depth"]], []
        x = State(h["env"], st.heap, st.pc)
        if h["item"].optional_vars is not None:
            self.assign(h["item"].optional_vars, v, x)
        out = h["run"](x)
        self.stack, self.cmhooks, self.tr = save, hooks, tr
        h["out"] = out
        if out is None:
            return DEAD
        st.heap, st.pc = out.heap, out.pc
        return NONE

    def s_Try(self, s, st):
        hs = []
        for h in s.handlers:
            if h.type is None:
                names = ("BaseException",)
            else:
                t = self.ev(h.type, st)
                names = tuple(self.excname(x) for x in (t.args if t.op == "tuple" else (t,)))
            def mk(h):
                def run(x):
                    if h.name:
                        self.nexc += 1
                        self.setname(h.name, T("sym", f"exc{self.nexc}"), x)
                    return self.block(h.body, x)
                return run
            hs.append((names, h, mk(h)))
        return self.do_try(st, lambda x: self.block(s.body, x), hs,
                           (lambda x: self.block(s.orelse, x)) if s.orelse else None,
                           (lambda x: self.block(s.finalbody, x)) if s.finalbody else None)

    def do_try(self, st, body, handlers, orelse, final):
        node = Tr("try")
        self.tr.append(node)
        save = self.tr
        self.nexc += 1
        k = node.a = self.nexc
        pre = st.copy()
        self.trystack.append([])
        self.tr = node.body
        ntr = len(self.events)
        nset = len(self.setlog)
        fr = self.stack[-1]
        nret = len(fr.returns)
        lastst = [None]
        b = body(st)
        caught = self.trystack.pop()
        sets = {}
        for fr0, n, ne in self.setlog[nset:]:
            if fr0 is fr:
                sets.setdefault(n, []).append(ne)
        nend = len(self.events)
        if b is not None and orelse is not None:
            t2 = []
            node.alt = t2
            self.tr = t2
            b = orelse(b)
        out = b
        here = len(self.stack)
        caught = [(n, s0 if dp == here else State(st.env, s0.heap, s0.pc)) for n, s0, dp in caught]
        post = b if b is not None else (caught[-1][1] if caught else (fr.returns[-1][2] if len(fr.returns) > nret else st))
        escaped = list(caught)
        nbody = len(fr.returns)
        for names, hn, run in handlers:
            x = pre.copy()
            for n, v in (post.env if post is not None else {}).items():
                if len(sets.get(n, ())) == 1 and sets[n][0] == nend:
                    continue        # set after the last operation that can fail: an exception finds it unset
                if n in pre.env and pre.env[n] is not v:
                    x.env[n] = T("maybe", k, pre.env[n], v)
                elif n not in pre.env:
                    x.env[n] = T("maybe", k, UNDEF, v)
            if post is not None:
                for r, o in post.heap.items():
                    if r not in x.heap:
                        x.heap[r] = o
                    elif not x.heap[r].same(o):
                        x.heap[r] = merge_obj(T("sym", f"exc?{k}"), o, x.heap[r])
            ec = T("excd", k, names)
            x.assume(ec)
            tb = []
            node.handlers.append((names, tb))
            self.tr = tb
            nh = len(fr.returns)
            hout = run(x)
            if hout is not None or len(fr.returns) > nh:     # a return inside the body means that this handler did not run
                for i in range(nret, nbody):
                    suf, v, s0, lp = fr.returns[i]
                    s0 = s0.copy()
                    s0.assume(neg(ec))
                    fr.returns[i] = (suf + (neg(ec),), v, s0, lp)
            escaped = [(n, s0) for n, s0 in escaped if not self.catches(names, n)]
            if out is None:
                out = hout
            elif hout is not None:
                out = merge(ec, hout, out)
        for n, s0 in escaped:
            self.do_raise(n, s0, None) if not self.muted else None
        if final is not None:
            self.tr = node.final
            if out is not None:
                if not self.muted:
                    self.xfinal(node, k, pre, post, final)
                out = final(out)
            else:
                x = pre.copy()
                if post is not None:
                    for n, v in post.env.items():
                        x.env[n] = v if n not in pre.env or pre.env[n] is v else T("maybe", k, pre.env[n], v)
                    for r, o in post.heap.items():
                        x.heap.setdefault(r, o)
                fin = final(x)
                if fin is None:
                    out = None
        self.tr = save
        return out

    def xfinal(self, node, k, pre, post, final):
        """The finally block as it runs after an exception: variables set in the body may be unset."""
        x = pre.copy()
        for n, v in post.env.items():
            if n not in pre.env or pre.env[n] is not v:
                x.env[n] = T("maybe", k, pre.env.get(n, UNDEF), v)
        if all(pre.env.get(n) is v for n, v in x.env.items()):
            return
        x.heap = dict(post.heap)
        fr = self.stack[-1]
        keep = (self.events, self.raises, self.inlinecalls, fr.returns, self.tr, self.trystack)
        self.events, self.raises, self.inlinecalls, fr.returns, self.trystack = list(self.events), [], [], [], [[]]
        node.xfinal = self.tr = []
        final(x)
        self.events, self.raises, self.inlinecalls, fr.returns, self.tr, self.trystack = keep

    HIER = {"ValueError": {"Exception", "BaseException"}, "TypeError": {"Exception", "BaseException"},
            "FileNotFoundError": {"OSError", "IOError", "Exception", "BaseException"},
            "FileExistsError": {"OSError", "IOError", "Exception", "BaseException"},
            "IOError": {"OSError", "Exception", "BaseException"}, "OSError": {"IOError", "Exception", "BaseException"}}

    def catches(self, names, n):
        for m in names:
            if m == n or m in ("Exception", "BaseException") or m in self.HIER.get(n, ()):
                return True
        return False

    # names -------------------------------------------------------------------
    def setname(self, name, v, st):
        fr = self.stack[-1]
        if name in fr.globals:
            self.event("gwrite", f"{fr.fv.mod.name}.{name}", (self.freeze(st, v),), {}, None, st)
            return
        st.env[name] = v
        if self.trystack:
            self.setlog.append((fr, name, len(self.events)))

    def getname(self, name, st):
        fr = self.stack[-1]
        if name in st.env and name not in fr.globals:
            v = st.env[name]
            if v is not UNDEF:
                return v
        fv = fr.fv
        while fv is not None and fv.env is not None:
            df = fv.defframe
            for src in ((df.cur.env if df is not None and df in self.stack and df.cur is not None else {}), fv.env.env):
                v = src.get(name, UNDEF)
                if v is not UNDEF:
                    return v
            fv = df.fv if df is not None else None
        r = self.resolve_global(fr.fv.mod, name)
        if r is not None:
            return r
        return T("ext", "builtins." + name)

    # assignment ----------------------------------------------------------------
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.known_items(v, st)
            if star:
                if items is not None and len(items) >= len(t.elts) - 1:
                    i = star[0]
                    k = len(items) - (len(t.elts) - 1)
                    for j in range(i):
                        self.assign(t.elts[j], items[j], st)
                    self.assign(t.elts[i].value, self.new(st, Obj("list", elems=items[i:i + k])), st)
                    for j in range(i + 1, len(t.elts)):
                        self.assign(t.elts[j], items[j + k - 1], st)
                else:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.unsup("starred unpack"), st)
                return
            for i, e in enumerate(t.elts):
                if items is not None and i < len(items):
                    self.assign(e, items[i], st)
                else:
                    self.assign(e, self.getitem(v, const(i), st), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.setitem(b, i, v, st)
            if self.updates != "ops":
                self.renew(t.value, b, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def renew(self, node, b, i, v, st):
        """New version of the variable or attribute whose tensor was stored into."""
        if not self.updates or b.op == "ref" or not ({"Tensor", "ndarray"} & set(self.ty(b))):
            return
        u = T("upd", self.freeze(st, b), self.freeze(st, i), self.freeze(st, v)) if i is not None else v
        if isinstance(node, ast.Name):
            self.setname(node.id, u, st)
        elif isinstance(node, ast.Attribute):
            r = self.ev(node.value, st)
            o = self.obj(st, r) if r.op == "ref" else None
            if o is not None:
                o = o.copy()
                o.fields[node.attr] = u
                self.put(st, r, o)
        elif isinstance(node, ast.Subscript) and i is not None:
            b2 = self.ev(node.value, st)
            self.renew(node.value, b2, self.ev_index(node.slice, st), u, st)

    def setattr(self, b, name, v, st):
        self.event("setattr", name, (self.freeze(st, b) if b.op != "ref" else b, self.freeze(st, v)), {}, None, st, raw=b)
        if b.op == "phi":
            for x in b.args[1:]:
                if x.op == "ref":
                    self.weak_set(x, name, v, b.args[0], st)
            return
        if b.op == "ref":
            o = self.obj(st, b)
            if o is not None:
                o = o.copy()
                o.fields[name] = v
                self.put(st, b, o)

    def weak_set(self, r, name, v, c, st):
        o = self.obj(st, r)
        if o is not None:
            o = o.copy()
            o.fields[name] = phi(c, v, o.fields.get(name, UNDEF))
            self.put(st, r, o)

    def setitem(self, b, i, v, st):
        o = self.obj(st, b) if b.op == "ref" else None
        self.event("setitem", "=", (b if o is not None else self.freeze(st, b), self.freeze(st, i), self.freeze(st, v)), {}, None, st, raw=v,
                   extra=(o.label if o is not None else None))
        if o is None:
            return
        o = o.copy()
        if o.kind == "dict":
            if (o.depth < len(self.loopsnow) and o.depth != -1) or o.depth == -1:
                if (i, v) not in o.rest:
                    hit = [j for j, (k, _) in enumerate(o.elems) if k is i]
                    if hit and not self.loopsnow[o.depth:] :
                        o.elems = tuple((k, v if k is i else w) for k, w in o.elems)
                    else:
                        o.rest = o.rest + ((i, v),)
            else:
                hit = False
                ne = []
                for k, w in o.elems:
                    if k is i:
                        ne.append((k, v))
                        hit = True
                    else:
                        ne.append((k, w))
                if not hit:
                    ne.append((i, v))
                o.elems = tuple(ne)
        elif o.kind == "list":
            if i.op == "const" and isinstance(i.args[0], int) and not o.rest and -len(o.elems) <= i.args[0] < len(o.elems) and o.depth >= len(self.loopsnow):
                e = list(o.elems)
                e[i.args[0]] = v
                o.elems = tuple(e)
            else:
                o.rest = o.rest + o.elems + ((v,) if v not in o.rest else ())
                o.elems = ()
        self.put(st, b, o)

    # expressions live in vf.calls / expr mixin ---------------------------------
    from .expr import (ev, ev_index, cond, binop, cmp, getattr, getitem, known_items, call, apply, inline,
                       instantiate, bindargs, run_dataclass_init, comprehension, comp_fact, cls_of, method, all_fields)
    from .expr import member as _member, tensorish as _tensorish

    def objs_cls(self, t, st):
        if t.op == "ref":
            o = self.obj(st, t)
            return o.cls if o is not None and o.kind == "inst" else None
        return self.cls_of(t, st)

    # entry -----------------------------------------------------------------------
    def run(self, fT, args=(), kw=None, st=None, pre=None):
        """Analyse one entry point; missing parameters become symbols named after them."""
        if isinstance(fT, str):
            fT = self.func(fT)
        fv = self.objs[fT]
        st = st or State({}, {}, ())
        kw = dict(kw or {})
        node = fv.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        bound = {}
        skip = 1 if fT.op == "bound" else 0
        for n, v in zip(names[skip:], args):
            bound[n] = v
        if fT.op == "func" and fv.kind in ("method", "prop") and fv.owner is not None and names and names[0] not in bound and names[0] not in kw:
            ow = fv.owner
            cT = self.mkclass(ow)
            if fv.node.name in ("__init__", "__new__"):
                self.nloc += 1
                ref = T("ref", self.nloc)
                st.heap[ref] = Obj("inst", ow)
                kw[names[0]] = ref
            else:
                s = T("sym", names[0])
                self.symty.setdefault(s, frozenset({ow.name}))
                kw[names[0]] = s
        for x in (a.posonlyargs + a.args)[skip:] + a.kwonlyargs:
            if x.arg in bound or x.arg in kw:
                continue
            s = T("sym", x.arg)
            if s not in self.symty:
                self.symty[s] = calls.ann_tags(x.annotation) if self.trust else frozenset()
            kw[x.arg] = s
        if pre:
            for c in pre:
                st.assume(c)
        dummy = FuncVal(fv.mod, "<entry>", None)
        self.stack = [Frame(dummy, st.pc)]
        self.events, self.raises = [], []
        self.root = []
        self.tr = self.root
        self.curnode = node
        npos = ([fT.args[1]] if fT.op == 'bound' else []) + list(args)
        ret, st2 = self.inline(fT, fv, npos, kw, st, keepstate=True)
        self.stack = []
        return Result(ret, st2, self.events, self.root, self.raises, self)


DEAD = T("dead")
