"""C07: effect and dependence analysis of every value kept between calls (module tables, globals, class attributes, mutable defaults, memoised functions, object attributes): stores must be determined by their lookup key, kept tensors are never written, no unkeyed state flows into a result."""
import ast
import os
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken, PKG
from .c17 import captured
from .c06 import Alias, targets, entries

SCOPE = tuple(f"{PKG}.{m}" for m in ("sim", "signal", "geometry", "util", "models", "config"))
AMBIENT = {"torch.get_default_dtype", "torch.get_default_device", "os.getenv", "time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "os.getpid", "builtins.id", "torch.get_num_threads", "torch.is_grad_enabled", "random.random", "torch.rand", "torch.randn",
           "torch.initial_seed", "threading.get_ident", "torch.cuda.current_device"}
SETTERS = {"torch.set_default_dtype", "torch.set_default_device", "torch.set_default_tensor_type", "torch.set_num_threads", "torch.set_num_interop_threads", "torch.set_grad_enabled", "torch.use_deterministic_algorithms", "torch.set_float32_matmul_precision", "torch.set_flush_denormal",
           "torch.manual_seed", "torch.seed", "torch.set_rng_state", "torch.cuda.set_device", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "numpy.random.seed", "random.seed", "numpy.seterr", "numpy.setbufsize", "os.putenv", "os.chdir", "os.umask", "locale.setlocale",
           "sys.setrecursionlimit", "torch.backends.cuda.enable_flash_sdp", "warnings.simplefilter", "warnings.filterwarnings", "numpy.set_printoptions", "torch.set_printoptions"}
COMPILE = {"torch.compile", "torch.jit.script", "torch.jit.trace", "functools.partial"}
READS = {"m.get", "m.setdefault", "m.pop", "m.__getitem__"}
MEMO = {"lru_cache", "cache", "cached_property", "memoize"}


def label(I, st, t):
    """Name of the module-level (or class-level, or default-argument) object t is."""
    if t.op == "gobj":
        return t.args[0]
    if t.op == "ref":
        o = I.gheap.get(t)
        return o.label if o is not None and o.label else None
    return None


def flatten(key):
    if isinstance(key, T) and key.op in ("tuple", "list"):
        return [y for x in key.args for y in flatten(x)]
    return [key]


def undict(p):
    """The dictionary an items() view shows, branch by branch; None if some branch is no such view."""
    if p.op == "phi":
        a, b = undict(p.args[1]), undict(p.args[2])
        return None if a is None or b is None else phi(p.args[0], a, b)
    if p.op == "dkv":
        return p.args[0]
    if p.op == "dictview" and p.args[0] == "items":
        return p.args[1]
    return None


class Keyed:
    """Which parts of a value are not determined by a key."""

    def __init__(self, I, key):
        self.I = I
        self.flat = set(flatten(key)) | {key}
        add = True
        while add:
            add = False
            for p in list(self.flat):
                n = callname(p)
                new = []
                if n in ("builtins.str", "builtins.repr", "builtins.tuple", "t.tolist", "dataclasses.astuple", "dataclasses.asdict", "builtins.bytes", "m.tobytes", "builtins.float", "builtins.frozenset", "m.items", "builtins.sorted", "torch.device", "t.item") and cargs(p):
                    new = [cargs(p)[0]]
                    if n in ("t.tolist", "m.tobytes"):
                        x = cargs(p)[0]
                        new += [T("attr", x, "shape")]
                elif n in ("builtins.int", "builtins.bool") and cargs(p) and set(I.ty(cargs(p)[0])) and set(I.ty(cargs(p)[0])) <= {"int", "bool"}:
                    new = [cargs(p)[0]]
                elif p.op == "fstr" or p.op == "fmt":
                    new = [x for x in p.args if isinstance(x, T)]
                elif p.op == "dkv":
                    new = [p.args[0]]
                elif p.op == "bin" and p.args[0] in ("+", "-", "*"):
                    a, b = p.args[1:]
                    new = [y for x, y in ((a, b), (b, a)) if x in self.flat or x.op == "const" and x.args[0]]
                elif p.op == "phi":
                    m = undict(p)
                    new = [] if m is p or m is None else [m]
                for x in new:
                    if x not in self.flat:
                        self.flat.add(x)
                        add = True
        for p in list(self.flat):
            if p.op == "attr" and p.args[1] == "type" and T("attr", p.args[0], "index") in self.flat:
                self.flat.add(p.args[0])
        self.shaped = {r for p in self.flat for r in self.sized(p)}
        self.memo = {}

    def sized(self, p):
        n = callname(p)
        if n in ("t.numel", "builtins.len", "t.dim", "t.size") and cargs(p):
            return [cargs(p)[0]]
        if p.op == "attr" and p.args[1] in ("shape", "ndim"):
            return [p.args[0]]
        if p.op == "item":
            return self.sized(p.args[0])
        return []

    def free(self, t):
        """Set of leaves the key does not determine; None inside marks an unknown part."""
        if not isinstance(t, T):
            return frozenset()
        r = self.memo.get(t)
        if r is not None:
            return r
        self.memo[t] = frozenset()
        self.memo[t] = r = self._free(t)
        return r

    def _free(self, t):
        if t in self.flat:
            return frozenset()
        o, a = t.op, t.args
        if o in ("const", "ext", "func", "cls", "mod", "gobj", "undef"):
            return frozenset()
        if o == "sym":
            return frozenset({t})
        if o == "gvar":
            return frozenset({t})
        if o == "attr":
            if a[1] in ("shape", "ndim") and a[0] in self.shaped:
                return frozenset({None})
            sub = self.free(a[0])
            return frozenset({t}) if a[0].op == "sym" and sub else sub
        if o == "idx":
            return frozenset()
        if o == "mu":
            li = self.I.loopinfo.get(a[0], {})
            return self.free(li.get("init", {}).get(a[1])) | self.free(li.get("step", {}).get(a[1]))
        if o in ("ref", "unknown", "dead", "cyclic"):
            return frozenset({None})
        u = uncache(t)
        if u is not None:
            return self.free(u)
        n = callname(t)
        if n in AMBIENT:
            return frozenset({t})
        if n in READS and cargs(t) and cargs(t)[0].op == "gobj":
            return self.free(cargs(t)[1]) if len(cargs(t)) > 1 else frozenset()
        if n in ("t.numel", "builtins.len") and cargs(t) and cargs(t)[0] in self.shaped:
            return frozenset({None})
        if n and n.split(".")[-1] in ("zeros_like", "ones_like", "empty_like", "full_like"):
            x = cargs(t)[0]
            parts = {T("attr", x, "shape"), T("attr", x, "dtype"), T("attr", x, "device")}
            if parts <= self.flat:
                return frozenset().union(*[self.free(y) for y in cargs(t)[1:]])
        out = frozenset()
        for x in a:
            for y in (x if isinstance(x, tuple) else (x,)):
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T):
                        out |= self.free(z)
        return out


def memoised(P):
    """Functions decorated with a memoising decorator: full -> (module, node, owner)."""
    out = {}
    for full, m, node, owner in all_functions(P):
        for d in node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else ""
            if nm in MEMO:
                out[full] = (m, node, owner)
    return out


class Memo:
    """Rewrites a call of a memoised function into the table lookup it performs."""

    def __init__(self, full, m, node):
        self.full, self.m, self.node, self.busy, self.stores = full, m, node, False, []

    def __call__(self, I, a, kw, st):
        if self.busy:
            return None
        f = I.resolve_global(self.m, self.node.name)
        if f is None or f.op != "func":
            return None
        self.busy = True
        try:
            r = I.apply(f, a, kw, st)
        finally:
            self.busy = False
        if not isinstance(r, T) or r.hasref:
            return r
        key = T("tuple", *([I.freeze(st, x) for x in a] + [I.freeze(st, v) for _, v in sorted(kw.items())]))
        g = T("gobj", f"memoised {self.full}")
        get = T("call", T("ext", "m.get"), (g, key), ())
        self.stores.append((key, r, st.pc))
        return phi(T("cmp", "is", get, NONE), r, get)


def names(fs):
    return ", ".join(sorted({show(x, 2)[:60] for x in fs if x is not None}))


def read(r, lab):
    """Is the kept object consulted anywhere in this run (other than by the store itself)?"""
    for t in every(r):
        for x in subterms(t):
            if x.op == "gobj" and x.args[0] == lab or x.op == "gvar" and f"{x.args[0]}.{x.args[1]}" == lab:
                return True
    return False


def every(r):
    if isinstance(r.ret, T):
        yield r.ret
    for e in r.events:
        if e.kind == "gwrite" or e.fn and ("logging" in e.fn or e.fn in ("m.debug", "m.info", "m.warning")):
            continue
        for x in list(e.args[1 if e.kind in ("setitem", "append", "mut") else 0:]) + list(e.kw.values()):
            if isinstance(x, T):
                yield x
    yield from conds(r.trace)


def conds(tr):
    for t in tr:
        if t.kind in ("if", "ret") and isinstance(t.a, T):
            yield t.a
        for b in [t.body, t.alt, t.final] + [h for _, h in t.handlers]:
            yield from conds(b)


def check(c):
    P = c.P
    memo = {f: v for f, v in memoised(P).items() if f.startswith(SCOPE)}
    n = 0
    touched = 0
    for full, m, node, owner in entries(P):
        if not full.startswith(SCOPE):
            continue
        n += 1
        with c.rule("C07.kept", full):
            touched += entry(c, full, node, owner, memo)
    if n < 20:
        raise AnalysisBroken("public entry points of the simulation vanished")
    defaults(c)
    memotensors(c, memo)
    return touched


def entry(c, full, node, owner, memo):
    ms = {f: Memo(f, m, nd) for f, (m, nd, o) in memo.items() if o is None and f != full}
    r = c.run(full, rewrite=dict(ms), key="memo") if ms else c.run(full)
    I = r.I
    tables = {}      # label -> [(key, value, event)]
    cnt = 0
    for e in r.events:
        if e.kind == "gwrite":
            cnt += 1
            free = Keyed(I, const(0)).free(e.args[0])
            me = e.fn
            real = {x for x in free if x is not None and not (x.op == "gvar" and f"{x.args[0]}.{x.args[1]}" == me)}
            selfref = {x for x in subterms(e.args[0]) if x.op == "gvar" and f"{x.args[0]}.{x.args[1]}" == me}
            if (real or selfref) and read(r, me):
                c.ob("C07.global", f"{me} <- {site(e)}", False, f"a global that later calls read is set from {names(real) or 'its own earlier value'}")
            else:
                c.ob("C07.global", f"{me} <- {site(e)}", True if not free else None, "set to a value no call argument influences" if not free else "not read in this run")
            continue
        if e.kind == "call" and e.fn in SETTERS:
            if e.fn.startswith("warnings.") and any(x.op == "enter" for x in e.pc):
                continue
            if e.fn.startswith("warnings."):
                c.ob("C07.ambient", site(e), None, f"{e.fn} may outlive the call")
                continue
            cnt += 1
            c.ob("C07.ambient", site(e), False, f"{e.fn} changes process-wide state that later calls depend on")
            continue
        if e.kind == "setattr":
            b = e.args[0]
            if b.op in ("ext", "mod", "func", "cls"):
                cnt += 1
                free = {x for x in Keyed(I, const(0)).free(e.args[-1]) if x is not None}
                if b.op == "ext" and not b.args[0].startswith(PKG):
                    c.ob("C07.ambient", site(e), False, f"sets {show(b, 2)}.{e.fn}, process-wide state")
                else:
                    c.ob("C07.global", site(e), False if free else None, f"an attribute of {show(b, 2)} keeps {names(free)} for later calls")
                continue
            if b.op == "sym" and b.args[0] == "self" and owner is not None and node.name not in ("__init__", "__post_init__"):
                cnt += 1
                free = {x for x in Keyed(I, T("sym", "self")).free(e.args[-1]) if x is not None}
                nm = e.fn
                used = sum(1 for x in ast.walk(owner) if isinstance(x, ast.Attribute) and x.attr == nm and isinstance(x.ctx, ast.Load))
                c.ob("C07.object", f"{full}.{nm}", False if free and used else None, f"the object keeps {names(free)} of one call for the next" if free else "value of the object's own fields")
                continue
        if e.kind in ("setitem",) and len(e.args) >= 3:
            b = e.args[0]
            lab = label(I, r.state, b)
            if lab is None and b.op == "attr" and b.args[0].op == "sym" and b.args[0].args[0] == "self" and not set(I.ty(b)) & {"Tensor", "ndarray"}:
                lab = f"self.{b.args[1]}"
            if lab:
                cnt += 1
                tables.setdefault(lab, []).append((e.args[1], e.args[2], e))
                continue
        if e.kind in ("append", "mut") and e.args and isinstance(e.args[0], T):
            lab = label(I, r.state, e.args[0]) or (e.extra if e.kind == "append" and isinstance(e.extra, str) else None)
            if lab and e.fn in ("append", "extend", "add", "insert", "update", "setdefault", "appendleft"):
                cnt += 1
                if e.fn == "setdefault" and len(e.args) > 2:
                    tables.setdefault(lab, []).append((e.args[1], e.args[2], e))
                    continue
                free = {x for a in e.args[1:] if isinstance(a, T) for x in Keyed(I, const(0)).free(a) if x is not None}
                rd = read(r, lab)
                c.ob("C07.kept", f"{lab} <- {site(e)}", False if free and rd else None if free else True, f"{e.fn} keeps {names(free)} in a shared collection that later calls read")
                continue
        for what, t in targets(e):
            if not isinstance(t, T):
                continue
            A = Globals(I, e.pc, set())
            rs = A.roots(t)
            if rs:
                tens = bool(set(I.ty(t)) & {"Tensor", "ndarray"}) or what.endswith("_") or what == "out="
                c.ob("C07.frozen", f"{', '.join(sorted(rs))} <- {site(e)}", False if tens else None, f"{what} writes into a value kept in {', '.join(sorted(rs))}")
                cnt += 1
    for mm in ms.values():
        for key, val, pc in mm.stores:
            tables.setdefault(f"memoised {mm.full}", []).append((key, val, None))
    for lab, stores in tables.items():
        for key, val, e in stores:
            where = f"{lab} <- {site(e) if e is not None else 'memoising decorator'}"
            K = Keyed(I, key)
            miss = K.free(val)
            real = {x for x in miss if x is not None}
            if captured_ok(val):
                fs = [x for x in subterms(val) if callname(x) in COMPILE]
                env = captured(I, fs[0]) if fs else None
                parts = {y for k in K.flat for y in subterms(k)}
                free = {x for v in (env or {}).values() for x in K.free(v) if x is not None}
                real = {x for x in free if x not in parts}
                c.ob("C07.key", where, None if env is None else False if real else None if free else True, f"the kept compiled function is bound to {names(real)}, which its key does not contain" if real else "compiled function bound to parts of the key")
            else:
                c.ob("C07.key", where, False if real else None if miss else True, f"the kept value depends on {names(real)}, which its key does not contain" if real else f"determined by the key ({len(flatten(key))} parts)")
        for i, (k1, v1, e1) in enumerate(stores):
            for k2, v2, e2 in stores[i + 1:]:
                if unhash(k1) is unhash(k2) and unhash(v1) is not unhash(v2) and head(v1) != head(v2):
                    c.ob("C07.collide", f"{lab}: {site(e1) if e1 else ''} / {site(e2) if e2 else ''}", False, "two different values are kept under the same key")
        lookups(c, r, lab, stores)
    ret = r.ret
    if isinstance(ret, T):
        rs = Globals(I, (), set()).roots(ret)
        rs = {x for x in rs if x in tables}
        if rs:
            c.ob("C07.frozen", f"result of {full}", False if set(I.ty(ret)) & {"Tensor", "ndarray"} else None, f"hands out the value kept in {', '.join(sorted(rs))}: a caller's change alters later results")
    for t in every(r):
        for x in subterms(t):
            if callname(x) == "builtins.next" and cargs(x) and cargs(x)[0].op in ("gobj", "gvar"):
                c.ob("C07.global", f"{full}: next({show(cargs(x)[0], 1)})", False, "a module-level iterator advances from call to call")
    if not cnt:
        c.ob("C07.kept", full, True, "keeps nothing between calls")
    if os.environ.get("VF_DEBUG"):
        print(full, cnt, len(tables))
    return cnt


def captured_ok(val):
    return any(callname(x) in COMPILE for x in subterms(val)) or val.op in ("func", "partial", "bound")


def head(t):
    n = callname(t)
    return n or t.op


def lookups(c, r, lab, stores):
    """A value computed after a miss must be determined by the key that was looked up."""
    seen = set()
    for t in every(r):
        for x in subterms(t):
            if x.op != "phi" or x in seen:
                continue
            seen.add(x)
            if uncache(x) is None:
                continue
            got = [y for y in subterms(x) if y.op in ("call", "item")]
            for y in (x.args[1], x.args[2]):
                k = None
                if callname(y) in READS and cargs(y)[0].op == "gobj" and cargs(y)[0].args[0] == lab and len(cargs(y)) > 1:
                    k = cargs(y)[1]
                elif y.op == "item" and y.args[0].op == "gobj" and y.args[0].args[0] == lab:
                    k = y.args[1]
                if k is None or any(k is k2 for k2, _, _ in stores):
                    continue
                other = uncache(x)
                miss = {z for z in Keyed(r.I, k).free(other) if z is not None}
                if miss and not captured_ok(other):
                    c.ob("C07.lookup", f"{lab} lookup", False, f"looked up without {names(miss)}, which the value depends on")


class Globals(Alias):
    """Alias roots among the kept objects instead of the parameters."""

    def roots(self, t, inside=False):
        if isinstance(t, T) and t.op == "gobj":
            return {t.args[0]} if inside else set()
        if isinstance(t, T) and t.op == "gvar":
            return {f"{t.args[0]}.{t.args[1]}"}
        if isinstance(t, T) and t.op == "ref" and inside:
            o = self.I.gheap.get(t)
            return {o.label} if o is not None and o.label else set()
        if isinstance(t, T) and t.op == "attr" and t.args[0].op in ("gobj", "gvar", "mod"):
            return set()
        return super().roots(t, inside)


def defaults(c):
    """A parameter with a mutable default is never written."""
    for full, m, node, owner in all_functions(c.P):
        if not full.startswith(SCOPE):
            continue
        a = node.args
        pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        mut = {x.arg for x, d in pairs if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) and
               (d.func.id if isinstance(d.func, ast.Name) else d.func.attr) in ("list", "dict", "set", "deque", "defaultdict", "OrderedDict", "zeros", "ones", "empty", "tensor", "full", "array", "arange")}
        if not mut:
            continue
        with c.rule("C07.default", full):
            r = c.run(full)
            for e in r.events:
                for what, t in targets(e):
                    if isinstance(t, T):
                        rs = Alias(r.I, e.pc, mut).roots(t)
                        if rs:
                            c.ob("C07.default", f"{full} <- {site(e)}", False, f"{what} writes into the default value of {', '.join(sorted(rs))}, which all calls share")


def memotensors(c, memo):
    """Memoised functions must not be keyed by the identity of mutable arguments."""
    for full, (m, node, owner) in memo.items():
        with c.rule("C07.key", full):
            bad = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs
                   if x.annotation is not None and any(isinstance(z, (ast.Name, ast.Attribute)) and (z.id if isinstance(z, ast.Name) else z.attr) in ("Tensor", "ndarray") for z in ast.walk(x.annotation))]
            r = c.run(full)
            reads = {x for t in every(r) for x in subterms(t) if callname(x) in AMBIENT or x.op == "gvar"}
            c.ob("C07.key", f"memoised {full}", False if bad else None if reads else True, f"results are kept per identity of {', '.join(bad)}: the same tensor with other contents gives the old result" if bad else "keyed by its arguments")
