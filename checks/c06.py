"""C06: ownership (alias) analysis: no in-place operation, item or attribute store reachable from a public entry point has a target that may be an object of the caller (views, conversions that share memory, elements and fields followed)."""
import ast
import os
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken, PKG

VIEW = {"to", "as_tensor", "asarray", "reshape", "view", "view_as", "unsqueeze", "squeeze", "transpose", "permute", "expand", "expand_as", "flatten", "unflatten", "contiguous", "detach", "movedim", "moveaxis", "narrow", "select", "diagonal", "float", "double", "half", "long", "int",
        "cpu", "cuda", "numpy", "type", "type_as", "split", "chunk", "unbind", "broadcast_to", "as_strided", "real", "imag", "t", "swapaxes", "swapdims", "ravel", "positive", "unfold", "from_numpy", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_tensors", "requires_grad_", "asanyarray",
        "ascontiguousarray", "array_split", "vsplit", "hsplit", "tensor_split", "resolve_conj", "view_as_real", "view_as_complex", "adjoint", "squeeze_", "unsqueeze_", "get", "setdefault", "values", "items", "bfloat16", "frombuffer", "hstack_views", "item_view", "expand_dims"}
SHALLOW = {"builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.dict", "builtins.frozenset", "copy.copy", "m.copy", "builtins.reversed", "builtins.iter", "builtins.enumerate", "builtins.zip", "itertools.chain", "collections.deque", "builtins.filter",
           "collections.OrderedDict", "dataclasses.replace", "m.values", "m.items", "builtins.map", "builtins.vars"}
INPLACE = {"random.shuffle", "m.shuffle", "numpy.random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop", "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "bisect.insort", "m.fill", "m.itemset", "m.resize", "m.byteswap", "m.setflags", "m.partition",
           "operator.setitem", "operator.iadd", "operator.imul", "operator.isub"}
TARGETARG = {"m.shuffle": 1}
CONTAINER = {"append", "extend", "insert", "add", "update", "remove", "discard", "pop", "clear", "setdefault", "sort", "reverse", "popitem", "appendleft", "popleft", "+="}
WORDS = ("list", "dict", "mapping", "sequence", "set", "iterable", "collection", "deque", "tensor", "array", "any")


class Alias:
    def __init__(self, I, pc, params):
        self.I, self.params = I, params
        self.known = {}
        for f in pc:
            self.learn(f)
        self.seen = set()
        self.shaky = False

    def learn(self, f):
        if not isinstance(f, T):
            return
        if f.op == "and":
            for x in f.args:
                self.learn(x)
        elif f.op == "not":
            self.known[f.args[0]] = False
            if f.args[0].op == "or":
                for x in f.args[0].args:
                    self.learn(neg(x))
        else:
            self.known[f] = True

    def value(self, a):
        return self.known.get(a)

    def roots(self, t, inside=False):
        """Parameters whose object (or part of it) t may be; inside: whose contents t may hold."""
        if not isinstance(t, T) or (t, inside) in self.seen:
            return set()
        self.seen.add((t, inside))
        o, a = t.op, t.args
        if o == "sym":
            return {a[0]} if a[0] in self.params else set()
        if o == "attr":
            return set() if a[1] in ("shape", "ndim", "dtype", "device", "size", "itemsize", "nbytes", "name", "stem", "suffix", "parent") else self.roots(a[0], True)
        if o in ("item", "elem", "pick", "dvals", "dkv", "enter", "star", "idx"):
            if o == "item" and self.I is not None and self.gathers(a[0], a[1]):
                return set()
            return self.roots(a[0], True)
        if o == "phi":
            v = beval(a[0], self.value)
            if v is not None:
                return self.roots(a[1 if v else 2], inside)
            if any(self.layout(x) for x in atoms(a[0])):
                self.shaky = True
            return self.roots(a[1], inside) | self.roots(a[2], inside)
        if o == "or" or o == "and":
            return set().union(*[self.roots(x, inside) for x in a])
        if o == "mu":
            li = self.I.loopinfo.get(a[0], {})
            return self.roots(li.get("init", {}).get(a[1]), inside) | self.roots(li.get("step", {}).get(a[1]), inside)
        if o == "loopout":
            return self.roots(a[2], inside) | set().union(set(), *[self.roots(x, inside) for x in a[3]])
        if o == "maybe":
            return self.roots(a[1], inside) | self.roots(a[2], inside)
        if o == "upd":
            return self.roots(a[0], inside)
        if o in ("tuple", "list", "set", "dict", "listof", "dictof", "inst") and inside:
            out = set()
            for x in a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, T):
                            out |= self.roots(z, z.op in ("tuple", "list", "dict", "set"))
            return out
        if o == "call":
            n = callname(t)
            if n is None:
                return set()
            if n in SHALLOW:
                return set().union(set(), *[self.roots(x, True) for x in cargs(t)]) if inside else set()
            short = n.split(".")[-1]
            if short in VIEW and n.startswith(("t.", "torch.", "numpy.", "np.", "m.")) and not (short in ("int", "long") and n.startswith("builtins")):
                k = ckw(t)
                if k.get("copy") is TRUE or short == "numpy" and k.get("force") is TRUE:
                    return set()
                return self.roots(cargs(t)[0], True) if cargs(t) else set()
            if n in ("typing.cast", "functools.reduce", "builtins.max", "builtins.min", "builtins.next", "builtins.getattr"):
                return set().union(set(), *[self.roots(x, True) for x in cargs(t)])
        return set()

    def layout(self, x):
        """A test of the very dtype, device or layout that decides whether a conversion copies."""
        if x.op == "cmp":
            return x.args[2] is not NONE and any(isinstance(y, T) and (y.op == "attr" and y.args[1] in ("dtype", "device", "type")) for y in x.args[1:])
        return callname(x.args[0]) in ("t.is_contiguous",) if x.op == "truth" else False

    def gathers(self, b, i):
        """Indexing by a tensor, mask or list copies."""
        for x in (i.args if i.op == "tuple" else (i,)):
            if x.op in ("list", "listof") or {"Tensor", "ndarray"} & set(self.I.ty(x)) or x.op == "call" and callname(x) not in ("builtins.slice", "builtins.int", "builtins.len") and "Tensor" in self.I.ty(x):
                return True
        return False


def annotation(node, p):
    for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
        if a.arg == p:
            return ast.unparse(a.annotation).lower() if a.annotation is not None else ""
    return ""


def targets(e):
    """Objects the event writes to."""
    fn = e.fn or ""
    if e.kind == "setitem" or e.kind == "delitem":
        return [("item store", e.args[0])]
    if e.kind == "setattr":
        return [("attribute store", e.args[0])]
    if e.kind == "append":
        return [("append", e.args[0])] if fn != "comp" else []
    if e.kind == "mut":
        return [(fn, e.args[0])]
    if e.kind == "call":
        out = []
        if fn in INPLACE and e.args:
            i = 1 if fn in ("m.shuffle",) and len(e.args) > 1 else 0
            out.append((fn, e.args[i]))
        if e.kw.get("inplace") is TRUE and e.args:
            out.append((fn + "(inplace=True)", e.args[0]))
        for k in ("out", "overwrite_x", "overwrite_input"):
            v = e.kw.get(k)
            if v is not None and v is not NONE and k == "out":
                out.append((fn + "(out=)", v))
            elif v is TRUE:
                out.append((f"{fn}({k}=True)", e.args[0] if e.args else v))
        return out
    return []


def container(I, t, node, roots):
    ty = set(I.ty(t))
    if ty & {"Tensor", "ndarray"}:
        return True
    if {x for x in ty if any(w in str(x).lower() for w in WORDS)}:
        return True
    if t.op == "sym":
        s = annotation(node, t.args[0])
        return any(w in s for w in WORDS) if s else None
    return None if not ty else False


def entries(P):
    pub = public_names(P)
    for full, m, node, owner in all_functions(P):
        nm = node.name
        if owner is not None:
            if owner.name in pub and (not nm.startswith("_") or nm in ("__init__", "__post_init__", "__getitem__", "__call__", "__iter__")):
                yield full, m, node, owner
        elif nm in pub or not nm.startswith("_"):
            yield full, m, node, owner


def check(c):
    n = 0
    for full, m, node, owner in entries(c.P):
        params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs] + [x.arg for x in (node.args.vararg, node.args.kwarg) if x is not None]
        with c.rule("C06.owned", full):
            r = c.run(full)
            n += 1
            bad, unsure, cnt = {}, {}, 0
            kwname = node.args.kwarg.arg if node.args.kwarg else None
            for e in r.events:
                for what, t in targets(e):
                    cnt += 1
                    if not isinstance(t, T):
                        continue
                    A = Alias(r.I, e.pc, set(params) - {kwname})
                    rs = A.roots(t)
                    if not rs:
                        continue
                    ok = container(r.I, t, node, rs)
                    if e.kind == "setattr":
                        ok = True
                    if "self" in rs or "cls" in rs:
                        rest = rs - {"self", "cls"}
                        if not rest:
                            tens = bool(set(r.I.ty(t)) & {"Tensor", "ndarray"})
                            if e.kind == "setattr" or not tens and node.name != "__post_init__":
                                continue
                            if node.name == "__post_init__" and not tens and t.op == "sym":
                                continue
                    key = (site(e), what, tuple(sorted(rs)))
                    if what in CONTAINER and ok is not True or A.shaky or ok is False:
                        unsure[key] = e
                    else:
                        bad[key] = e
            for (s, what, rs), e in bad.items():
                c.ob("C06.owned", f"{full} <- {s}", False, f"{what} writes into {', '.join(rs)}, which belongs to the caller")
            for (s, what, rs), e in unsure.items():
                if (s, what, rs) not in bad:
                    c.ob("C06.owned", f"{full} <- {s}", None, f"{what} may write into {', '.join(rs)}")
            if not bad and not unsure:
                c.ob("C06.owned", full, True, f"{cnt} writes, none reaches a parameter")
            if os.environ.get("VF_DEBUG"):
                print(full, cnt, len(bad), len(unsure))
    if n < 30:
        raise AnalysisBroken("public entry points vanished")
