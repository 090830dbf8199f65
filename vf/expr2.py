"""Attributes, items, calls, inlining."""
from __future__ import annotations
import ast
from .terms import *
from .state import *
from . import calls
from .expr import _absorb, _dead


def cls_of(self, t, st):
    """Package class of an opaque typed term, or None."""
    ty = self.ty(t)
    cands = [k for k in ty if k in self.pkgcls]
    if len(ty) == 1 and len(cands) == 1:
        return self.objs[self.pkgcls[cands[0]]]
    if st is not None and cands:
        for c in st.pc:
            if c.op == "isinst" and c.args[0] is t:
                ok = [k for k in cands if k in c.args[1]]
                if len(ok) == 1:
                    return self.objs[self.pkgcls[ok[0]]]
        neg_ = set()
        for c in st.pc:
            if c.op == "not" and c.args[0].op == "isinst" and c.args[0].args[0] is t:
                neg_.update(c.args[0].args[1])
        rest = [k for k in ty if k not in neg_ and k != "None"]
        if len(rest) == 1 and rest[0] in self.pkgcls:
            return self.objs[self.pkgcls[rest[0]]]
        if len(cands) == 1 and all(k in ("None", cands[0]) for k in ty):
            return self.objs[self.pkgcls[cands[0]]]
    return None


def getattr_(self, b, name, st):
    if b.op == "phi":
        c, x, y = b.args
        if x is NONE or x is UNDEF:
            return self.getattr(y, name, st)
        if y is NONE or y is UNDEF:
            return self.getattr(x, name, st)
        d = self.decide(c, st)
        if d is not None:
            return self.getattr(x if d else y, name, st)
        return phi(c, self.getattr(x, name, st), self.getattr(y, name, st))
    if b.op == "ref":
        o = self.obj(st, b)
        if o is not None and o.kind == "inst":
            if name in o.fields:
                return o.fields[name]
            if name == "__class__":
                return self.mkclass(o.cls)
            if name == "__dict__":
                return self.new(st, Obj("dict", elems=[(const(k), v) for k, v in o.fields.items()]))
            a = self.cls_attr(o.cls, name, self.mkclass(o.cls))
            if a is not None:
                return self._member(a, b, st)
            return T("attr", self.freeze(st, b), name)
        return T("attr", self.freeze(st, b), name)
    if b.op == "inst":
        for k, v in b.args[1]:
            if k == name:
                return v
        cv = next((self.objs[t] for n, t in self.pkgcls.items() if self.objs[t].full == b.args[0]), None)
        if cv is not None:
            a = self.cls_attr(cv, name, self.mkclass(cv))
            if a is not None:
                return self._member(a, b, st)
        return T("attr", b, name)
    if b.op == "mod":
        r = self.resolve_global(self.objs[b], name)
        if r is None:
            sub = f"{b.args[0]}.{name}"
            r = self.mkmod(sub) if sub in self.P.modules else T("ext", sub)
        return r
    if b.op == "cls":
        cv = self.objs[b]
        a = self.cls_attr(cv, name, b)
        if a is None:
            if name == "__name__":
                return const(cv.name)
            return T("attr", b, name)
        return a
    if b.op == "ext":
        return T("ext", calls.canon_name(f"{b.args[0]}.{name}"))
    if b.op == "enter":
        pass
    cv = self.cls_of(b, st)
    if cv is not None:
        a = self.cls_attr(cv, name, self.mkclass(cv))
        if a is not None and a.op in ("func", "bound"):
            return self._member(a, b, st)
    return calls.attr(self, b, name, st)


def member(self, a, b, st):
    if a.op == "func":
        fv = self.objs[a]
        if fv.kind == "prop":
            r, s2 = self.inline(a, fv, [b], {}, st)
            if s2 is None:
                return _dead()
            _absorb2(st, s2)
            return r
        if fv.kind == "method":
            return self.bind(a, b)
    return a


def _absorb2(st, s2):
    st.heap, st.pc = s2.heap, s2.pc


def known_items(self, t, st):
    if t.op in ("tuple", "list"):
        return list(t.args)
    if t.op == "const" and isinstance(t.args[0], (tuple, list)):
        return [const(x) for x in t.args[0]]
    if t.op == "ref":
        o = self.obj(st, t)
        if o is None:
            return None
        if o.kind in ("list", "set", "deque") and not o.rest:
            return list(o.elems)
        if o.kind == "dict" and not o.rest:
            return [k for k, _ in o.elems]
        if o.kind == "inst" and o.cls is not None and "NamedTuple" in [ast.unparse(b).split(".")[-1] for b in o.cls.node.bases]:
            return [o.fields.get(n, UNDEF) for n, _ in o.cls.fields]
        return None
    if t.op == "dict":
        return [p.args[0] for p in t.args]
    if t.op == "dictview":
        o = self.obj(st, t.args[1])
        if o is not None and not o.rest:
            k = t.args[0]
            return [T("tuple", a, b) if k == "items" else a if k == "keys" else b for a, b in o.elems]
        return None
    if t.op == "call" and t.args[0].op == "ext":
        n, a, kw = t.args[0].args[0], t.args[1], dict(t.args[2])
        if n == "builtins.range" and all(x.op == "const" for x in a):
            r = range(*[x.args[0] for x in a])
            if len(r) <= 64:
                return [const(i) for i in r]
        if n == "builtins.enumerate" and a:
            its = self.known_items(a[0], st)
            if its is not None:
                s0 = a[1] if len(a) > 1 else kw.get("start", const(0))
                if s0.op == "const":
                    return [T("tuple", const(i + s0.args[0]), x) for i, x in enumerate(its)]
        if n == "builtins.zip" and a:
            ll = [self.known_items(x, st) for x in a]
            if all(x is not None for x in ll):
                return [T("tuple", *z) for z in zip(*ll)]
            if any(x is not None for x in ll):
                k = min(len(x) for x in ll if x is not None)
                return [T("tuple", *[(l[i] if l is not None else self.getitem(x, const(i), st)) for l, x in zip(ll, a)]) for i in range(k)] if k <= 8 else None
        if n in ("builtins.tuple", "builtins.list", "builtins.reversed") and len(a) == 1:
            its = self.known_items(a[0], st)
            if its is not None:
                return its[::-1] if n.endswith("reversed") else its
    if t.op == "phi":
        a, b = self.known_items(t.args[1], st), self.known_items(t.args[2], st)
        if a is not None and b is not None and len(a) == len(b):
            return [phi(t.args[0], x, y) for x, y in zip(a, b)]
        return None
    sh = self.shape(t)
    if sh and sh[0].op == "const" and isinstance(sh[0].args[0], int) and sh[0].args[0] <= 8 and "Tensor" in self.ty(t):
        return [self.getitem(t, const(i), st) for i in range(sh[0].args[0])]
    return None


def getitem(self, b, i, st):
    if b.op == "phi":
        c, x, y = b.args
        if x is NONE or x is UNDEF:
            return self.getitem(y, i, st)
        if y is NONE or y is UNDEF:
            return self.getitem(x, i, st)
        if any(z.op in ("ref", "tuple", "list", "phi") for z in (x, y)):
            return phi(c, self.getitem(x, i, st), self.getitem(y, i, st))
    o = self.obj(st, b) if b.op == "ref" else None
    if o is not None and o.kind == "dict":
        for k, v in o.elems:
            if k is i:
                return v if not any(k2 is i for k2, _ in o.rest) else T("item", self.freeze(st, b), i)
        if i.op != "const" or o.rest:
            vals = [v for k, v in o.rest if k is i]
            if len(vals) == 1 and not o.elems and o.depth != -1:
                return vals[0]
        return T("item", self.freeze(st, b), self.freeze(st, i))
    if b.op == "const" and isinstance(b.args[0], str):
        try:
            if i.op == "slice" and all(x.op == "const" for x in i.args):
                return const(b.args[0][slice(*[x.args[0] for x in i.args])])
            if i.op == "const" and isinstance(i.args[0], int):
                return const(b.args[0][i.args[0]])
        except (IndexError, TypeError, ValueError):
            pass
    items = None
    if b.op in ("tuple", "list", "ref"):
        items = self.known_items(b, st) if (o is None or o.kind in ("list", "deque", "inst")) else None
    if items is not None:
        if i.op == "const" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
            if -len(items) <= i.args[0] < len(items):
                return items[i.args[0]]
        if i.op == "slice" and all(x.op == "const" for x in i.args):
            s = slice(*[x.args[0] for x in i.args])
            return T("tuple", *items[s]) if b.op == "tuple" else self.new(st, Obj("list", elems=items[s]))
    if o is not None and o.kind == "list" and o.elems and i.op == "const" and isinstance(i.args[0], int) and 0 <= i.args[0] < len(o.elems):
        return o.elems[i.args[0]]
    if o is not None and o.kind == "list" and len(o.rest) == 1 and not o.elems and i.op != "slice":
        # summary element selected by index
        return T("pick", o.rest[0], self.freeze(st, i))
    if b.op == "dict":
        for p in b.args:
            if p.args[0] is i:
                return p.args[1]
    return calls.item(self, self.freeze(st, b), self.freeze(st, i), st)


def comprehension(self, e, st):
    kind = {ast.ListComp: "list", ast.GeneratorExp: "list", ast.SetComp: "set", ast.DictComp: "dict"}[type(e)]
    ref = self.new(st, Obj(kind))
    self.obj(st, ref).label = None
    saved_env = dict(st.env)
    last = [None]
    some = []

    def add(x):
        if kind == "dict":
            k, v = self.ev(e.key, x), self.ev(e.value, x)
            val = (k, v)
        else:
            val = self.ev(e.elt, x)
        if val is _dead():
            return
        o = self.obj(x, ref).copy()
        if x is st or len(self.loopsnow) <= o.depth:
            if kind == "dict":
                o.elems = tuple(p for p in o.elems if p[0] is not val[0]) + (val,)
            else:
                o.elems = o.elems + (val,)
        else:
            if val not in o.rest:
                o.rest = o.rest + (val,)
        x.heap[ref] = o
        self.event("append", "comp", (ref, self.freeze(x, val if kind != "dict" else T("tuple", *val))), {}, None, x, raw=val)

    def go(i, x, symbolic):
        if i == len(e.generators):
            add(x)
            return
        g = e.generators[i]
        it = self.ev(g.iter, x)
        if it is _dead():
            return
        items = self.known_items(it, x)
        if items is not None and len(items) <= 24:
            for v in items:
                self.assign(g.target, v, x)
                cs = [self.cond(c, x) for c in g.ifs]
                c = conj(cs)
                some.append(c)
                d = self.decide(c, x)
                if d is False:
                    continue
                if d is True:
                    go(i + 1, x, symbolic)
                else:
                    y = x.copy().assume(c)
                    o = self.obj(y, ref).copy()
                    keep = (o.elems, o.rest)
                    go(i + 1, y, True)
                    o2 = self.obj(y, ref).copy()
                    new = [z for z in o2.elems if z not in keep[0]] + [z for z in o2.rest if z not in keep[1]]
                    o2.elems, o2.rest = keep[0], keep[1] + tuple(new)
                    x.heap.update(y.heap)
                    x.heap[ref] = o2
            return
        self.nloop += 1
        lid = self.nloop
        fr = self.stack[-1]
        self.loopinfo[lid] = dict(kind="comp", iter=it, node=e, mod=fr.fv.mod.rel, breaks=0, cond=TRUE, facts=[], step={},
                                  init={}, conts=0, outpc=None, basepc=x.pc, breakpcs=[])
        saved, self.loopsnow = self.loopsnow, self.loopsnow + (lid,)
        node = Tr("loop", lid)
        self.tr.append(node)
        trs, self.tr = self.tr, node.body
        y = x.copy()
        self.assign(g.target, self.elem_of(it, lid, y), y)
        cs = []
        for c in g.ifs:
            cc = self.cond(c, y)
            cs.append(cc)
            y.assume(cc)
        self.loopinfo[lid]["filter"] = conj(cs)
        last[0] = lid
        go(i + 1, y, True)
        self.tr = trs
        self.loopsnow = saved
        for r, o in y.heap.items():
            x.heap[r] = o
    go(0, st, False)
    st.env.clear()
    st.env.update(saved_env)
    o = self.obj(st, ref)
    if len(e.generators) == 1 and kind in ("list", "set") and not o.elems and len(o.rest) == 1 and last[0] is not None:
        self.compinfo[ref] = (last[0], self.loopinfo[last[0]]["filter"], o.rest[0])
    elif len(e.generators) == 1 and last[0] is None and some and o.rest and not o.elems:
        self.compsome[ref] = (disj(some), o.rest)
    return ref


def comp_fact(self, ref, st):
    """(loop id, filter, value) of an unmodified one-generator comprehension object."""
    ci = self.compinfo.get(ref)
    o = self.obj(st, ref)
    if ci is None or o is None or o.elems or o.rest != (ci[2],):
        return None
    return ci


def call(self, e, st):
    f = e.func
    base = None
    D = _dead()
    if isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return _super_call(self, e, f, st)
        base = self.ev(f.value, st)
        if base is D:
            return D
        fn = None
    else:
        fn = self.ev(f, st)
        if fn is D:
            return D
    args, kw = [], {}
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = self.ev(a.value, st)
            items = self.known_items(v, st)
            if items is not None:
                args.extend(items)
            else:
                args.append(T("star", self.freeze(st, v)))
        else:
            v = self.ev(a, st)
            if v is D:
                return D
            args.append(v)
    for k in e.keywords:
        v = self.ev(k.value, st)
        if v is D:
            return D
        if k.arg is None:
            o = self.obj(st, v) if v.op == "ref" else None
            if o is not None and o.kind == "dict" and all(x.op == "const" for x, _ in o.elems):
                for x, y in o.elems:
                    kw[x.args[0]] = y
                if o.rest:
                    kw["**"] = self.freeze(st, v)
            elif v.op == "dict" and all(p.args[0].op == "const" for p in v.args):
                for p in v.args:
                    kw[p.args[0].args[0]] = p.args[1]
            else:
                kw["**"] = self.freeze(st, v)
        else:
            kw[k.arg] = v
    self.curnode = e
    if base is not None:
        return self.method(base, f.attr, args, kw, st)
    return self.apply(fn, args, kw, st)


def _super_call(self, e, f, st):
    fr = self.stack[-1]
    args = [self.ev(a, st) for a in e.args]
    kw = {k.arg: self.ev(k.value, st) for k in e.keywords if k.arg}
    owner = fr.fv.owner
    selfname = fr.fv.node.args.args[0].arg if fr.fv.node.args.args else None
    if owner is None or selfname is None:
        return self.unsup("super()")
    me = st.env.get(selfname)
    for c in self.mro(owner)[1:]:
        if f.attr in c.methods:
            from .interp import FuncVal
            fT = self.mkfunc(FuncVal(c.mod, f"{c.qual}.{f.attr}", c.methods[f.attr], None, c, "method"))
            return self.apply(self.bind(fT, me), args, kw, st)
    return calls.ext_call(self, f"super.{f.attr}", args, kw, st)


def method(self, b, name, args, kw, st):
    if b.op == "phi":
        c, x, y = b.args
        if x is NONE or x is UNDEF:
            return self.method(y, name, args, kw, st)
        if y is NONE or y is UNDEF:
            return self.method(x, name, args, kw, st)
        d = self.decide(c, st)
        if d is not None:
            return self.method(x if d else y, name, args, kw, st)
        if any(z.op in ("ref", "func", "bound", "cls", "mod", "ext", "inst") or self.cls_of(z, st) is not None for z in (x, y)) or (
                any(z.op == "phi" for z in (x, y)) and name not in calls.TENSOR_METHODS):
            return _split(self, c, st, lambda s: self.method(x, name, args, kw, s), lambda s: self.method(y, name, args, kw, s))
    if b.op == "ref":
        o = self.obj(st, b)
        if o is not None and o.kind in ("list", "dict", "set", "deque"):
            return calls.list_method(self, st, b, o, name, args, kw)
        if o is not None and o.kind == "inst":
            f = self.getattr(b, name, st)
            return self.apply(f, args, kw, st)
    if b.op in ("mod", "cls", "ext", "inst", "tuple", "list", "dict"):
        if b.op in ("tuple", "list", "dict"):
            return calls.method_call(self, b, name, args, kw, st)
        return self.apply(self.getattr(b, name, st), args, kw, st)
    cv = self.cls_of(b, st)
    if cv is not None:
        a = self.cls_attr(cv, name, self.mkclass(cv))
        if a is not None and a.op in ("func", "bound") and not abstract(self.find_method(cv, name)[1]):
            return self.apply(self._member(a, b, st), args, kw, st)
    if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == "builtins.super":
        return calls.ext_call(self, f"super.{name}", args, kw, st)
    return calls.method_call(self, b, name, args, kw, st)


def abstract(n):
    """A method meant to be overridden: its body only raises NotImplementedError, or is empty."""
    if n is None:
        return False
    body = [x for x in n.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return not body or len(body) == 1 and (isinstance(body[0], ast.Raise) and "NotImplementedError" in ast.dump(body[0]) or isinstance(body[0], ast.Pass))


def _split(self, c, st, f, g):
    box = {}

    def side(k, x, h):
        v = h(x)
        box[k] = v
        return None if v is _dead() else x
    new = self.branch(c, st, lambda x: side(0, x, f), lambda x: side(1, x, g))
    if new is None:
        return _dead()
    _absorb(st, new)
    if box[0] is _dead():
        return box[1]
    if box[1] is _dead():
        return box[0]
    return phi(c, box[0], box[1])


def apply(self, f, args, kw, st):
    if f.op == "phi":
        c, x, y = f.args
        if x is NONE:
            return self.apply(y, args, kw, st)
        if y is NONE:
            return self.apply(x, args, kw, st)
        d = self.decide(c, st)
        if d is not None:
            return self.apply(x if d else y, args, kw, st)
        return _split(self, c, st, lambda s: self.apply(x, args, kw, s), lambda s: self.apply(y, args, kw, s))
    if f.op in ("func", "bound"):
        fv = self.objs[f]
        a = list(args)
        if f.op == "bound":
            a = [f.args[1]] + a
        rw = self.rewrite.get(fv.full)
        if rw is not None:
            r = rw(self, a, kw, st)
            if r is not None:
                return r
        depth = sum(1 for x in self.stack if x.fv.full == fv.full and x.fv.node is fv.node)
        if depth >= self.recur or len(self.stack) > 24 or not self.mayinline(fv) or isinstance(fv.node, ast.AsyncFunctionDef):
            t = T("call", T("pkg", fv.full), tuple(self.freeze(st, x) for x in a), tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items())))
            self.event("call", fv.full, [self.freeze(st, x) for x in a], {k: self.freeze(st, v) for k, v in kw.items()}, t, st, raw=(a, kw))
            return t
        r, s2 = self.inline(f, fv, a, kw, st)
        if s2 is None:
            return _dead()
        _absorb2(st, s2)
        return r
    if f.op == "cls":
        return self.instantiate(f, args, kw, st)
    if f.op == "ext":
        rw = self.rewrite.get("x." + f.args[0])
        if rw is not None:
            r = rw(self, list(args), kw, st)
            if r is not None:
                return r
        return calls.ext_call(self, f.args[0], args, kw, st)
    if f.op == "partial":
        return self.apply(f.args[0], list(f.args[1]) + list(args), {**dict(f.args[2]), **kw}, st)
    if f.op == "ref":
        o = self.obj(st, f)
        if o is not None and o.kind == "inst":
            m = self.cls_attr(o.cls, "__call__", self.mkclass(o.cls))
            if m is not None:
                return self.apply(self._member(m, f, st), args, kw, st)
    cv = self.cls_of(f, st)
    if cv is not None:
        m = self.cls_attr(cv, "__call__", self.mkclass(cv))
        if m is not None:
            return self.apply(self._member(m, f, st), args, kw, st)
    if f.op == "attr":
        return calls.method_call(self, f.args[0], f.args[1], args, kw, st)
    fa = [self.freeze(st, x) for x in args]
    fk = {k: self.freeze(st, v) for k, v in kw.items()}
    t = T("call", self.freeze(st, f), tuple(fa), tuple(sorted(fk.items())))
    self.event("call", show(f), fa, fk, t, st, raw=(args, kw), extra=f)
    return t


def bindargs(self, fv, args, kw, st):
    """Parameter environment, or None when the call cannot bind."""
    a = fv.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    kw = dict(kw)
    dstar = kw.pop("**", None)
    i = 0
    extra = []
    for x in args:
        if x.op == "star":
            k = 0
            while i < len(pos):
                if pos[i] in kw:
                    break
                env[pos[i]] = T("item", x.args[0], const(k))
                i += 1
                k += 1
            if a.vararg:
                extra.append(x)
            continue
        if i < len(pos):
            env[pos[i]] = x
            i += 1
        else:
            extra.append(x)
    if a.vararg:
        if any(x.op == "star" for x in extra):
            src = [x for x in extra if x.op == "star"]
            env[a.vararg.arg] = src[0].args[0] if len(extra) == 1 else self.new(st, Obj("list", rest=[T("elem", s.args[0], 0) for s in src] + [x for x in extra if x.op != "star"]))
        else:
            env[a.vararg.arg] = T("tuple", *extra)
    elif extra:
        return None
    rest = {}
    for k, v in kw.items():
        if k in pos or k in [x.arg for x in a.kwonlyargs]:
            if k in env:
                return None
            env[k] = v
        else:
            rest[k] = v
    if rest and not a.kwarg:
        return None
    if a.kwarg:
        o = Obj("dict", elems=[(const(k), v) for k, v in rest.items()])
        if dstar is not None:
            if not rest:
                env[a.kwarg.arg] = dstar
            else:
                o.rest = ((T("elem", T("dkeys", dstar), 0), T("elem", T("dvals", dstar), 0)),)
                env[a.kwarg.arg] = self.new(st, o)
        else:
            env[a.kwarg.arg] = self.new(st, o)
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n in pos + [x.arg for x in a.kwonlyargs]:
        if n in env:
            continue
        dv = _default(self, fv, defaults[n], n) if n in defaults else None
        if dstar is not None:
            s = T("kwget", dstar, const(n))
            env[n] = phi(T("haskey", dstar, const(n)), s, dv) if dv is not None else s
        elif dv is not None:
            env[n] = dv
        else:
            return None
    return env


def _default(self, fv, node, name):
    if isinstance(node, ast.Constant):
        return const(node.value)
    key = ("default", fv.full, name, id(node))
    if key not in self.gcache:
        from .interp import Frame, FuncVal
        d = FuncVal(fv.mod, fv.qual + ".<default>", None, fv.env)
        d.defframe = getattr(fv, "defframe", None)
        st = State({}, {}, ())
        save = (self.stack, self.tr, self.loopsnow)
        self.stack, self.tr, self.loopsnow = [Frame(d, ())], [], ()
        self.muted += 1
        v = self.ev(node, st)
        self.muted -= 1
        self.stack, self.tr, self.loopsnow = save
        for l, o in st.heap.items():
            o = o.copy()
            o.label, o.depth = f"default argument {name} of {fv.full}", -1
            self.gheap[l] = o
        self.gcache[key] = v
    return self.gcache[key]


def inline(self, fT, fv, args, kw, st, keepstate=True):
    from .interp import Frame
    if len(self.stack) > 200:
        return self.unsup("depth"), st
    callnode, saveloops = self.curnode, self.loopsnow
    env = self.bindargs(fv, args, kw, st)
    if env is None:
        self.event("badcall", fv.full, [self.freeze(st, x) for x in args], {k: self.freeze(st, v) for k, v in kw.items()}, None, st)
        return self.unsup(f"call to {fv.full} does not bind"), st
    ann = {x.arg: x.annotation for x in fv.node.args.posonlyargs + fv.node.args.args + fv.node.args.kwonlyargs}
    fr = Frame(fv, st.pc)
    self.inlined.add(fv.full)
    s = State(env, dict(st.heap), st.pc)
    rec = dict(full=fv.full, env=dict(env), st=st, pc=st.pc, ret=None, stack=tuple(f.fv.full for f in self.stack), loops=self.loopsnow)
    self.inlinecalls.append(rec)
    self.stack.append(fr)
    node = Tr("call", fv.full)
    self.tr.append(node)
    save, self.tr = self.tr, node.body
    savetry = None
    is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(fv.node))
    ev0 = len(self.events)
    out = self.block(fv.node.body, s)
    if out is not None:
        fr.returns.append((out.pc[len(fr.base):], NONE, out, self.loopsnow))
    self.stack.pop()
    self.tr = save
    self.curnode = callnode
    self.loopsnow = saveloops
    if is_gen:
        rets = fr.returns
        base = rets[-1][2] if rets else None
        if base is None:
            return _dead(), None
        o = Obj("list")
        for pc, v, loops in fr.yields:
            if loops == saveloops and pc == fr.base:
                o.elems = o.elems + (v,)
            elif v not in o.rest:
                o.rest = o.rest + (v,)
        o.label = None
        r = self.new(base, o)
        self.lazy[r] = (ev0, len(self.events))
        return r, base
    if not fr.returns:
        return _dead(), None
    rets = []
    for suffix, v, s_, loops in fr.returns:
        inner = loops[len(saveloops):]
        suf = tuple(s_.pc[i] for i in range(len(s_.pc)) if s_.pc[i] not in fr.base)
        if inner:
            suf = (T("exists", inner[-1], conj(suf)),) if suf else (T("nonempty", inner[-1]),)
        rets.append((suf, v, s_))
    v, s2 = _combine(rets)
    rec["ret"] = self.freeze(s2, v) if s2 is not None else v
    return v, s2


def _own_nodes(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(c)


def _combine(rets):
    """Decision tree over path conditions of the return sites."""
    if len(rets) == 1:
        return rets[0][1], rets[0][2]
    for c0 in [c for r in rets for c in r[0]]:
        c = c0.args[0] if c0.op == "not" else c0
        n = neg(c)
        pos = [r for r in rets if c in r[0]]
        ng = [r for r in rets if n in r[0]]
        if len(pos) == len(rets) or len(ng) == len(rets):
            return _combine([(tuple(x for x in r[0] if x is not c and x is not n), r[1], r[2]) for r in rets])
        if pos and ng and len(pos) + len(ng) == len(rets):
            strip = lambda rs: [(tuple(x for x in r[0] if x is not c and x is not n), r[1], r[2]) for r in rs]
            v1, s1 = _combine(strip(pos))
            v2, s2 = _combine(strip(ng))
            return phi(c, v1, v2), merge(c, s1, s2)
    # no common split: fold in program order
    v, s = rets[-1][1], rets[-1][2]
    for suf, v1, s1 in reversed(rets[:-1]):
        c = conj(suf)
        v, s = phi(c, v1, v), merge(c, s1, s)
    return v, s


def instantiate(self, cT, args, kw, st):
    cv = self.objs[cT]
    c, init = self.find_method(cv, "__init__")
    basenames = [ast.unparse(b).split(".")[-1] for x in self.mro(cv) for b in x.node.bases]
    o = Obj("inst", cls=cv)
    if init is not None:
        ref = self.new(st, o)
        from .interp import FuncVal
        fT = self.mkfunc(FuncVal(c.mod, f"{c.qual}.__init__", init, None, c, "method"))
        r = self.apply(self.bind(fT, ref), args, kw, st)
        if r is _dead():
            return r
        self.event("new", cv.full, [self.freeze(st, x) for x in args], {k: self.freeze(st, v) for k, v in kw.items()}, ref, st, raw=(args, kw))
        return ref
    if any(x.is_dataclass for x in self.mro(cv)) or "NamedTuple" in basenames:
        return self.run_dataclass_init(cv, args, kw, st)
    if any(b.endswith("Error") or b.endswith("Exception") or b.endswith("Warning") for b in basenames):
        return T("call", T("cls", cv.full), tuple(self.freeze(st, x) for x in args), ())
    if "TypedDict" in basenames:
        return self.new(st, Obj("dict", elems=[(const(k), v) for k, v in kw.items()]))
    if "Enum" in basenames:
        return T("call", T("cls", cv.full), tuple(self.freeze(st, x) for x in args), ())
    ref = self.new(st, o)
    for i, a in enumerate(args):
        o.fields[f"arg{i}"] = a
    for k, a in kw.items():
        o.fields[k] = a
    return ref


def all_fields(self, cv):
    out = []
    for c in reversed(self.mro(cv)):
        for n, d in c.fields:
            if "ClassVar" in ast.unparse(c.ann[n]):
                continue
            out = [x for x in out if x[0] != n] + [(n, d, c)]
    return out


def run_dataclass_init(self, cv, args, kw, st, base=None):
    fields = self.all_fields(cv)
    names = [n for n, _, _ in fields]
    kw = dict(kw)
    dstar = kw.pop("**", None)
    vals = {}
    for n, v in zip(names, args):
        vals[n] = v
    if len(args) > len(names) or any(k not in names for k in kw):
        self.event("badcall", cv.full, [self.freeze(st, x) for x in args], {k: self.freeze(st, v) for k, v in kw.items()}, None, st)
        return self.unsup(f"call to {cv.full} does not bind")
    vals.update(kw)
    o = Obj("inst", cls=cv)
    for n, d, c in fields:
        if n in vals:
            v = vals[n]
        else:
            if base is not None:
                v = self.getattr(base, n, st)
            elif d is None:
                v = None
            elif isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                v = None
                for k in d.keywords:
                    if k.arg == "default":
                        v = _default(self, _fake(self, c), k.value, n)
                    elif k.arg == "default_factory":
                        from .interp import Frame
                        self.stack.append(Frame(_fake(self, c), st.pc))
                        f = self.ev(k.value, st)
                        v = self.apply(f, [], {}, st)
                        self.stack.pop()
            else:
                v = _default(self, _fake(self, c), d, n)
            if dstar is not None:
                s = T("kwget", dstar, const(n))
                v = s if v is None else phi(T("haskey", dstar, const(n)), s, v)
            if v is None:
                self.event("badcall", cv.full, (), {}, None, st)
                v = self.unsup(f"missing field {n} of {cv.full}")
        o.fields[n] = v
    ref = self.new(st, o)
    c, post = self.find_method(cv, "__post_init__")
    if post is not None:
        from .interp import FuncVal
        fT = self.mkfunc(FuncVal(c.mod, f"{c.qual}.__post_init__", post, None, c, "method"))
        r = self.apply(self.bind(fT, ref), [], {}, st)
        if r is _dead():
            return r
    self.event("new", cv.full, [], {k: self.freeze(st, v) for k, v in o.fields.items()}, ref, st,
               extra={k: v for k, v in self.obj(st, ref).fields.items()})
    return ref


def _fake(self, c):
    from .interp import FuncVal
    return FuncVal(c.mod, c.qual + ".<field>", None)
