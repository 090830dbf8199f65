"""Abstract state, heap objects, events and trace nodes."""
from __future__ import annotations
from .terms import *


class Obj:
    """Abstract heap object. elems are known in order, rest summarises the remainder."""
    __slots__ = ("kind", "cls", "elems", "rest", "fields", "depth", "label")

    def __init__(self, kind, cls=None, elems=(), rest=(), fields=None, depth=0, label=None):
        self.kind, self.cls, self.elems, self.rest = kind, cls, tuple(elems), tuple(rest)
        self.fields = dict(fields or {})
        self.depth, self.label = depth, label

    def copy(self):
        return Obj(self.kind, self.cls, self.elems, self.rest, self.fields, self.depth, self.label)

    def same(self, o):
        return self.kind == o.kind and self.elems == o.elems and self.rest == o.rest and self.fields == o.fields


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)

    def assume(self, c):
        if c is TRUE:
            return self
        new = []
        for x in (c.args if c.op == "and" else (c,)):
            if x not in self.pc and x not in new:
                new.append(x)
        self.pc = self.pc + tuple(new)
        return self


UNDEF = T("undef")


def nonempty(o):
    """The condition under which a list holds anything, if known."""
    if o.elems:
        return TRUE
    if not o.rest:
        return FALSE
    s = o.fields.get("#some")
    return s.args[0] if s is not None and s.op == "some" and s.args[1] == o.rest else None


def merge_obj(c, a, b):
    if a is b or a.same(b):
        return a
    o = a.copy()
    if a.kind != b.kind:
        o.rest = a.rest + tuple(x for x in b.rest if x not in a.rest)
        return o
    if a.kind in ("list", "dict", "set", "deque"):
        if a.kind == "list" and len(a.elems) == len(b.elems) and a.rest == b.rest:
            o.elems = tuple(phi(c, x, y) for x, y in zip(a.elems, b.elems))
        elif a.kind == "dict" and [k for k, _ in a.elems] == [k for k, _ in b.elems] and a.rest == b.rest:
            o.elems = tuple((k, phi(c, x, y)) for (k, x), (_, y) in zip(a.elems, b.elems))
        else:
            some = None
            if a.kind == "list" and a.depth != -1 and b.depth != -1:
                x, y = nonempty(a), nonempty(b)
                some = phi(c, x, y) if x is not None and y is not None else None
            n = 0
            while n < len(a.elems) and n < len(b.elems) and a.elems[n] == b.elems[n]:
                n += 1
            o.elems = a.elems[:n]
            r = []
            for x in a.rest + a.elems[n:] + b.rest + b.elems[n:]:
                if x not in r:
                    r.append(x)
            o.rest = tuple(r)
            a, b = a.copy(), b.copy()
            a.fields.pop("#some", None)
            b.fields.pop("#some", None)
            if some is not None and o.rest:
                a.fields["#some"] = b.fields["#some"] = T("some", some, o.rest)
    f = {}
    for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
        f[k] = phi(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
    o.fields = f
    return o


def merge(c, s1, s2):
    """Join of the states reached when c holds (s1) and when it does not (s2)."""
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    env = {}
    for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
        env[k] = phi(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF))
    heap = dict(s1.heap)
    for l, o in s2.heap.items():
        heap[l] = merge_obj(c, heap[l], o) if l in heap else o
    n = 0
    p, q = s1.pc, s2.pc
    common = tuple(x for x in p if x in q)
    e1 = [x for x in p if x not in common]
    e2 = [x for x in q if x not in common]
    pc = common
    if e1 and e2:
        d = disj([conj(e1), conj(e2)])
        if d is not TRUE:
            pc = pc + (d,)
    return State(env, heap, pc)


class Event:
    __slots__ = ("kind", "fn", "args", "kw", "res", "pc", "loops", "stack", "mod", "line", "n", "extra", "raw")

    def __init__(self, kind, fn, args, kw, res, pc, loops, stack, mod, line, n, extra=None, raw=None):
        self.kind, self.fn, self.args, self.kw, self.res = kind, fn, args, kw, res
        self.pc, self.loops, self.stack, self.mod, self.line, self.n = pc, loops, stack, mod, line, n
        self.extra, self.raw = extra, raw

    def where(self):
        q = self.stack[-1] if self.stack else "<module>"
        return f"{self.mod}:{self.line} in {q}"

    def __repr__(self):
        return f"<{self.kind} {self.fn} {self.args} {self.kw} @{self.where()}>"


class Tr:
    """Trace tree node: seq-structured effects for ordering/typestate rules."""
    __slots__ = ("kind", "a", "body", "alt", "handlers", "final", "xfinal")

    def __init__(self, kind, a=None, body=None, alt=None, handlers=None, final=None):
        self.kind, self.a = kind, a
        self.body = body if body is not None else []
        self.alt, self.handlers, self.final = alt or [], handlers or [], final or []
        self.xfinal = None
