"""Expression evaluation for the abstract interpreter (methods mixed into Interp)."""
from __future__ import annotations
import ast
_getattr = getattr
from .terms import *
from .state import *
from . import calls


def _dead():
    from .interp import DEAD
    return DEAD


def ev(self, e, st):
    m = _EV.get(type(e))
    if m is None:
        return self.unsup(f"expression {type(e).__name__}")
    return m(self, e, st)


def _const(self, e, st):
    return const(e.value)


def _name(self, e, st):
    return self.getname(e.id, st)


def _elts(self, elts, st):
    """Evaluate display elements; returns (known, rest-or-None)."""
    out, rest = [], []
    for x in elts:
        if isinstance(x, ast.Starred):
            v = self.ev(x.value, st)
            items = self.known_items(v, st)
            if items is not None:
                (rest if rest else out).extend(items)
            else:
                o = self.obj(st, v) if v.op == "ref" else None
                rest.append(o.rest[0] if o is not None and len(o.rest) == 1 and not o.elems else T("elem", self.freeze(st, v), 0))
        else:
            v = self.ev(x, st)
            (rest if rest else out).append(v)
    return out, rest


def _tuple(self, e, st):
    out, rest = _elts(self, e.elts, st)
    if _dead() in out:
        return _dead()
    if rest:
        return self.new(st, Obj("list", elems=out, rest=rest))
    return T("tuple", *out)


def _list(self, e, st):
    out, rest = _elts(self, e.elts, st)
    if _dead() in out:
        return _dead()
    return self.new(st, Obj("list", elems=out, rest=rest))


def _set(self, e, st):
    out, rest = _elts(self, e.elts, st)
    return self.new(st, Obj("set", elems=out, rest=rest))


def _dict(self, e, st):
    elems, rest = [], []
    for k, v in zip(e.keys, e.values):
        if k is None:
            x = self.ev(v, st)
            o = self.obj(st, x) if x.op == "ref" else None
            if o is not None and o.kind == "dict":
                for kk, vv in o.elems:
                    elems = [p for p in elems if p[0] is not kk] + [(kk, vv)]
                rest += [p for p in o.rest if p not in rest]
            elif x.op == "dict":
                for p in x.args:
                    elems = [q for q in elems if q[0] is not p.args[0]] + [(p.args[0], p.args[1])]
            else:
                rest.append((T("elem", T("dkeys", self.freeze(st, x)), 0), T("elem", T("dvals", self.freeze(st, x)), 0)))
        else:
            kk, vv = self.ev(k, st), self.ev(v, st)
            elems = [p for p in elems if p[0] is not kk] + [(kk, vv)]
    return self.new(st, Obj("dict", elems=elems, rest=rest))


def _attr(self, e, st):
    b = self.ev(e.value, st)
    if b is _dead():
        return b
    self.curnode = e
    return self.getattr(b, e.attr, st)


def _subscript(self, e, st):
    b = self.ev(e.value, st)
    i = self.ev_index(e.slice, st)
    if b is _dead() or i is _dead():
        return _dead()
    self.curnode = e
    return self.getitem(b, i, st)


def ev_index(self, e, st):
    if isinstance(e, ast.Slice):
        return T("slice", *[NONE if x is None else self.ev(x, st) for x in (e.lower, e.upper, e.step)])
    if isinstance(e, ast.Tuple):
        return T("tuple", *[self.ev_index(x, st) for x in e.elts])
    return self.ev(e, st)


def _binop(self, e, st):
    a = self.ev(e.left, st)
    b = self.ev(e.right, st)
    if a is _dead() or b is _dead():
        return _dead()
    self.curnode = e
    return self.binop(calls.BINOPS[type(e.op)], a, b, st)


def _unop(self, e, st):
    if isinstance(e.op, ast.Not):
        return self.cond(e, st)
    v = self.ev(e.operand, st)
    if v is _dead():
        return v
    if isinstance(e.op, ast.USub):
        if v.op == "const" and isinstance(v.args[0], (int, float)):
            return const(-v.args[0])
        return T("un", "-", v)
    if isinstance(e.op, ast.UAdd):
        return v
    return T("un", "~", v) if v.op not in ("cmp", "not", "and", "or") else neg(v)


def _absorb(st, new):
    st.env, st.heap, st.pc = new.env, new.heap, new.pc


def _boolop(self, e, st):
    is_or = isinstance(e.op, ast.Or)
    v = self.ev(e.values[0], st)
    for nxt in e.values[1:]:
        if v is _dead():
            return v
        c = self.truth_ref(v, st)
        d = self.decide(c, st)
        if d is not None:
            if d == is_or:
                return v
            v = self.ev(nxt, st)
            continue
        box = {}

        def other(x, nxt=nxt):
            box["v"] = self.ev(nxt, x)
            return None if box["v"] is _dead() else x
        if is_or:
            new = self.branch(c, st, lambda x: x, other)
            w = box["v"]
            v = v if w is _dead() else _bphi(c, v, w)
        else:
            new = self.branch(c, st, other, lambda x: x)
            w = box["v"]
            v = v if w is _dead() else _bphi(c, w, v)
        _absorb(st, new)
    return v


def _bphi(c, a, b):
    """phi, folded to a boolean formula when both sides are conditions."""
    if (a.op in BOOLOPS or a in (TRUE, FALSE)) and (b.op in BOOLOPS or b in (TRUE, FALSE)):
        if a is c:
            return disj([c, b])
        if b is c:
            return conj([c, a])
    return phi(c, a, b)


def cond(self, e, st):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        c = self.cond(e.operand, st)
        return c if c is _dead() else neg(c)
    if isinstance(e, ast.BoolOp):
        is_or = isinstance(e.op, ast.Or)
        cs = []
        cur = st
        for i, x in enumerate(e.values):
            if cs:
                so_far = disj(cs) if is_or else conj(cs)
                d = self.decide(so_far, st)
                if d is not None and d == is_or:
                    return so_far
                probe = st.copy().assume(neg(so_far) if is_or else so_far)
                c = self.cond(x, probe)
                # heap effects of the operand are kept; facts learned inside it are not
                for r, o in probe.heap.items():
                    if r not in st.heap:
                        st.heap[r] = o
                for n, v in probe.env.items():
                    if n not in st.env:
                        st.env[n] = v
            else:
                c = self.cond(x, st)
            if c is _dead():
                return c
            d = self.decide(c, st)
            if d is not None:
                c = const(d)
            cs.append(c)
        return disj(cs) if is_or else conj(cs)
    v = self.ev(e, st)
    if v is _dead():
        return v
    return self.truth_ref(v, st)


_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}


def _compare(self, e, st):
    left = self.ev(e.left, st)
    cs = []
    for op, r in zip(e.ops, e.comparators):
        right = self.ev(r, st)
        if left is _dead() or right is _dead():
            return _dead()
        self.curnode = e
        cs.append(self.cmp(_CMP[type(op)], left, right, st))
        left = right
    return conj(cs) if len(cs) > 1 else cs[0]


def cmp(self, op, a, b, st):
    a0, b0 = a, b
    if op == "!=":
        return neg(self.cmp("==", a, b, st)) if not self._tensorish(a, b) else T("cmp", "!=", self.freeze(st, a), self.freeze(st, b))
    if op == "isnot":
        return neg(self.cmp("is", a, b, st))
    if op == "notin":
        return neg(self.cmp("in", a, b, st))
    if op in (">", ">="):
        return self.cmp("<" if op == ">" else "<=", b, a, st)
    if op == "in":
        items = self.known_items(b, st)
        o = self.obj(st, b) if b.op == "ref" else None
        if o is not None and o.kind == "dict":
            items = [k for k, _ in o.elems] if not o.rest else None
        elif b.op == "dict":
            items = [p.args[0] for p in b.args]
        elif b.op == "set":
            items = list(b.args)
        elif items is None and b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in ("builtins.frozenset", "builtins.set", "builtins.sorted", "builtins.tuple", "builtins.list", "builtins.reversed") and len(b.args[1]) == 1 and not b.args[2]:
            x = b.args[1][0]
            items = list(x.args) if x.op == "set" else [p.args[0] for p in x.args] if x.op == "dict" else self.known_items(x, st)
        if items is not None and len(items) <= 16 and all(x.op == "const" for x in items):
            return disj([self.cmp("==", a, x, st) for x in items])
        if items and len(items) <= 16:
            fa, fi = self.freeze(st, a), [self.freeze(st, x) for x in items]
            if fa.op == "tuple" and all(x.op == "tuple" for x in fi):
                return disj([self.cmp("==", fa, x, st) for x in fi])
    a, b = self.freeze(st, a), self.freeze(st, b)
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if op == "==":
                return const(x == y)
            if op == "<":
                return const(x < y)
            if op == "<=":
                return const(x <= y)
            if op == "is":
                return const(x is y or (type(x) is type(y) and x == y))
            if op == "in":
                return const(x in y)
        except TypeError:
            pass
    if op == "is" and a is NONE and b is not NONE:
        a, b = b, a
    if op == "==" and a.op == b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return conj([self.cmp("==", x, y, st) for x, y in zip(a.args, b.args)])
    if op == "==":
        if a.op == "const" and b.op != "const":
            a, b = b, a
        elif a.op != "const" and b.op != "const" and b.id < a.id:
            a, b = b, a
        if a is b and not self._tensorish(a, b):
            return TRUE
        if a.op == "phi" and b.op == "const" and all(x.op == "const" for x in a.args[1:]):
            x, y = (const(z.args[0] == b.args[0]) for z in a.args[1:])
            c = a.args[0]
            return x if x is y else (c if x is TRUE else neg(c))
    if op == "is" and b is NONE:
        d = self._dec(T("cmp", "is", a, NONE), st.pc if st is not None else ())
        if d is not None:
            return const(d)
        if a.op == "phi" and (a.args[1] is NONE or a.args[2] is NONE):
            c = a.args[0]
            da = self._dec(T("cmp", "is", a.args[1], NONE), ())
            db = self._dec(T("cmp", "is", a.args[2], NONE), ())
            if da is True and db is False:
                return c
            if da is False and db is True:
                return neg(c)
    return T("cmp", op, a, b)


def binop(self, op, a, b, st):
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
                 "%": lambda: x % y, "**": lambda: x ** y, "<<": lambda: x << y, ">>": lambda: x >> y,
                 "|": lambda: x | y, "&": lambda: x & y, "^": lambda: x ^ y}[op]()
            if not (isinstance(r, (str, bytes, int)) and not isinstance(r, bool) and len(str(r)) > 4000):
                return const(r)
        except Exception:
            pass
    if op == "+" or op == "*":
        ia, ib = (self.known_items(z, st) if z.op in ("ref", "tuple", "list") else None for z in (a, b))
        if op == "+" and ia is not None and ib is not None:
            if a.op == "tuple":
                return T("tuple", *ia, *ib)
            return self.new(st, Obj("list", elems=list(ia) + list(ib)))
        if op == "*":
            for its, n, src in ((ia, b, a), (ib, a, b)):
                if its is not None and n.op == "const" and isinstance(n.args[0], int) and n.args[0] * len(its) <= 64:
                    if src.op == "tuple":
                        return T("tuple", *(list(its) * n.args[0]))
                    return self.new(st, Obj("list", elems=list(its) * n.args[0]))
                if its is not None and src.op == "ref" and its:
                    return T("call", T("ext", "listrep"), (T("list", *[self.freeze(st, x) for x in its]), self.freeze(st, n)), ())
        oa = self.obj(st, a) if a.op == "ref" else None
        ob = self.obj(st, b) if b.op == "ref" else None
        if op == "+" and (oa is not None or ob is not None):
            def parts(z, o):
                if o is not None:
                    return o.elems, o.rest
                its = self.known_items(z, st)
                return (its, ()) if its is not None else ((), (T("elem", z, 0),))
            ea, ra = parts(a, oa)
            eb, rb = parts(b, ob)
            if ra:
                return self.new(st, Obj("list", elems=ea, rest=tuple(ra) + tuple(eb) + tuple(rb)))
            return self.new(st, Obj("list", elems=tuple(ea) + tuple(eb), rest=rb))
    if op == "|":
        oa = self.obj(st, a) if a.op == "ref" else None
        ob = self.obj(st, b) if b.op == "ref" else None
        if oa is not None and ob is not None and oa.kind == ob.kind == "dict":
            ks = [k for k, _ in ob.elems]
            return self.new(st, Obj("dict", elems=tuple(p for p in oa.elems if p[0] not in ks) + ob.elems, rest=oa.rest + ob.rest))
        if oa is not None and ob is not None and oa.kind == ob.kind == "set":
            return self.new(st, Obj("set", elems=oa.elems + tuple(x for x in ob.elems if x not in oa.elems), rest=oa.rest + ob.rest))
    a, b = self.freeze(st, a), self.freeze(st, b)
    if op in ("&", "|") and (a.op in BOOLOPS and b.op in BOOLOPS) and not self._tensorish(a, b):
        return conj([a, b]) if op == "&" else disj([a, b])
    return T("bin", op, a, b)


def tensorish(self, *ts):
    for t in ts:
        if any(k in ("Tensor", "ndarray") for k in self.ty(t)):
            return True
    return False


def _ifexp(self, e, st):
    c = self.cond(e.test, st)
    if c is _dead():
        return c
    d = self.decide(c, st)
    if d is not None:
        return self.ev(e.body if d else e.orelse, st)
    box = {}

    def side(k, x, node):
        v = self.ev(node, x)
        box[k] = v
        return None if v is _dead() else x
    new = self.branch(c, st, lambda x: side(0, x, e.body), lambda x: side(1, x, e.orelse))
    if new is None:
        return _dead()
    _absorb(st, new)
    if box[0] is _dead():
        return box[1]
    if box[1] is _dead():
        return box[0]
    return phi(c, box[0], box[1])


def _lambda(self, e, st):
    from .interp import FuncVal
    fr = self.stack[-1]
    self.nloc += 1
    node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)],
                           decorator_list=[], returns=None, type_params=[])
    ast.copy_location(node, e)
    fv = FuncVal(fr.fv.mod, fr.fv.qual + ".<lambda>", node, st)
    fv.defframe = fr
    return self.mkfunc(fv, self.nloc)


def _joined(self, e, st):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(const(v.value))
        else:
            x = self.freeze(st, self.ev(v.value, st))
            spec = "" if v.format_spec is None else "".join(
                p.value if isinstance(p, ast.Constant) else "{}" for p in v.format_spec.values)
            if x.op == "const" and not spec and v.conversion == -1:
                parts.append(const(str(x.args[0])))
            else:
                parts.append(T("fmt", x, spec, v.conversion))
    if all(p.op == "const" for p in parts):
        return const("".join(p.args[0] for p in parts))
    return T("fstr", *parts)


def _named(self, e, st):
    v = self.ev(e.value, st)
    if v is not _dead():
        self.assign(e.target, v, st)
    return v


def _yield(self, e, st):
    v = NONE if e.value is None else self.ev(e.value, st)
    self.event("yield", None, (self.freeze(st, v),), {}, None, st)
    self.stack[-1].yields.append((st.pc, v, self.loopsnow))
    if self.cmhooks and self.cmhooks[-1]["node"] is self.stack[-1].fv.node and not self.cmhooks[-1]["done"] and len(self.stack) == self.cmhooks[-1]["depth"] + 1:
        return self.cmyield(v, st)
    return NONE


def _yieldfrom(self, e, st):
    v = self.ev(e.value, st)
    its = self.known_items(v, st)
    for x in (its if its is not None else [T("elem", self.freeze(st, v), 0)]):
        self.stack[-1].yields.append((st.pc, x, self.loopsnow))
    return NONE


def _starred(self, e, st):
    return T("star", self.ev(e.value, st))


def _comp(self, e, st):
    return self.comprehension(e, st)


def _slice(self, e, st):
    return self.ev_index(e, st)


_EV = {}

from .expr2 import (cls_of, getattr_ as getattr, member, known_items, getitem, comprehension, comp_fact, call, method, apply,  # noqa
                    bindargs, inline, instantiate, all_fields, run_dataclass_init)


def _call(self, e, st):
    return self.call(e, st)


_EV.update({ast.Constant: _const, ast.Name: _name, ast.Tuple: _tuple, ast.List: _list, ast.Set: _set, ast.Dict: _dict,
            ast.Attribute: _attr, ast.Subscript: _subscript, ast.BinOp: _binop, ast.UnaryOp: _unop, ast.BoolOp: _boolop,
            ast.Compare: _compare, ast.IfExp: _ifexp, ast.Lambda: _lambda, ast.JoinedStr: _joined, ast.NamedExpr: _named,
            ast.Yield: _yield, ast.YieldFrom: _yieldfrom, ast.Starred: _starred, ast.ListComp: _comp, ast.SetComp: _comp,
            ast.DictComp: _comp, ast.GeneratorExp: _comp, ast.Call: _call, ast.Slice: _slice})
