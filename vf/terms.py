"""Hash-consed value terms (the value-flow graph's nodes)."""
from __future__ import annotations


class T:
    __slots__ = ("op", "args", "id", "hasref", "size")
    _tab: dict = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple(_k(a) for a in args)
        t = cls._tab.get(key)
        if t is not None:
            return t
        t = object.__new__(cls)
        t.op = op
        t.args = args
        t.hasref = op == "ref" or _anyref(args)
        T._n += 1
        t.id = T._n
        cls._tab[key] = t
        return t

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


def _anyref(a):
    for x in a:
        if isinstance(x, T):
            if x.hasref:
                return True
        elif isinstance(x, tuple):
            if _anyref(x):
                return True
    return False


def _k(a):
    if isinstance(a, T):
        return ("T", a.id)
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return (type(a).__name__, repr(a) if isinstance(a, float) else a)


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=...):
    if t.op != "const":
        return False
    if v is ...:
        return True
    a = t.args[0]
    return type(a) is type(v) and a == v


def neg(c):
    if c.op == "not":
        return c.args[0]
    if c.op == "const":
        return const(not c.args[0])
    return T("not", c)


def conj(cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.op == "and":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def disj(cs):
    out = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.op == "or":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for c in out:
        if neg(c) in out:
            return TRUE
    return T("or", *out)


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return T("truth", c) if c.op not in BOOLOPS else c
    return T("phi", c, a, b)


BOOLOPS = {"cmp", "not", "and", "or", "truth", "isinst", "forall"}


def call(name, *args, **kw):
    return T("call", T("ext", name), tuple(args), tuple(sorted(kw.items())))


def subterms(t, seen=None):
    """All distinct subterms, pre-order."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(reversed(x.args))
        elif isinstance(x, tuple):
            stack.extend(reversed(x))


def contains(t, u):
    return any(x is u for x in subterms(t))


def substitute(t, m, memo=None):
    """Replace subterms (dict T->T) bottom up."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = T(x.op, *na) if x.op != "phi" else phi(*na)
            memo[x] = r
        return r

    return go(t)


def show(t, d=6):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d - 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d - 1)
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return str(a[0])
    if o == "ext":
        return a[0]
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "un":
        return f"({a[0]}{s(a[1])})"
    if o == "not":
        return f"not {s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "phi":
        return f"φ({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if o == "call":
        parts = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{s(a[0])}({', '.join(parts)})"
    return o + "(" + ", ".join(s(x) for x in a) + ")"


def uncache(t):
    """phi(memo lookup misses, computed, looked-up) -> computed (that the table is sound is C07's business)."""
    if t.op != "phi":
        return None

    def read(x):
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("m.get", "m.setdefault", "m.pop") and x.args[1]:
            return x.args[1][0].op == "gobj"
        return x.op == "item" and x.args[0].op == "gobj"
    c, a, b = t.args
    cs = [x for x in (c.args if c.op in ("and", "or") else (c,))]
    cs = [x.args[0] if x.op == "not" else x for x in cs]
    about = any(x.op == "cmp" and x.args[0] in ("is", "in", "==", "not in") and any(y.op == "gobj" or read(y) for y in x.args[1:]) or
                x.op == "truth" and read(x.args[0]) for x in cs)
    if about and read(b) and not read(a):
        return a
    if about and read(a) and not read(b):
        return b
    return None
