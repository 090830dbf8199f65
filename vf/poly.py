"""Convex-polyhedra domain over value-flow terms: affine arithmetic, max/min, branches and comparisons are expanded into
rational linear constraints; emptiness of a region is decided by Fourier-Motzkin elimination."""
from __future__ import annotations
from fractions import Fraction
from .terms import *


class Nonlinear(Exception):
    pass


class Big(Exception):
    pass


SCALAR_ID = {"builtins.float", "t.item", "t.to", "t.float", "t.double", "t.detach", "t.clone", "t.cpu", "t.contiguous", "t.tensor", "t.as_tensor"}
MAXN = {"builtins.max", "t.max", "t.maximum", "m.max", "t.amax"}
MINN = {"builtins.min", "t.min", "t.minimum", "m.min", "t.amin"}


def lin(c=0, **k):
    return (dict(k.get("v", {})), Fraction(c))


def ladd(a, b, k=1):
    d = dict(a[0])
    for v, c in b[0].items():
        d[v] = d.get(v, 0) + k * c
        if d[v] == 0:
            del d[v]
    return (d, a[1] + k * b[1])


def lscale(a, k):
    return ({v: c * k for v, c in a[0].items() if c * k}, a[1] * k)


def key(c):
    return (tuple(sorted(((v.id, x) for v, x in c[0][0].items()))), c[0][1], c[1])


def empty(cons):
    """Is {x : l >= 0 (or > 0) for all (l, strict) in cons} empty over the rationals?  Exact."""
    cons = {key(c): c for c in cons}
    while True:
        live = {}
        for k, ((d, c), st) in cons.items():
            if not d:
                if c < 0 or (st and c == 0):
                    return True
                continue
            m = max(abs(x) for x in d.values())
            n = (({v: x / m for v, x in d.items()}, c / m), st)
            live[key(n)] = n
        cons = live
        if not cons:
            return False
        cnt = {}
        for (d, _c), _s in cons.values():
            for v, x in d.items():
                p = cnt.setdefault(v, [0, 0])
                p[x > 0] += 1
        v = min(cnt, key=lambda z: (cnt[z][0] * cnt[z][1] - cnt[z][0] - cnt[z][1], z.id))
        pos, negs, rest = [], [], {}
        for k, cc in cons.items():
            x = cc[0][0].get(v, 0)
            if x == 0:
                rest[k] = cc
            else:
                (pos if x > 0 else negs).append(cc)
        if len(pos) * len(negs) > 4000:
            raise Big()
        for p, ps in pos:
            for q, qs in negs:
                l = ladd(lscale(p, -q[0][v]), lscale(q, p[0][v]))
                n = (l, ps or qs)
                rest[key(n)] = n
        cons = rest


class Lin:
    """Turns terms into affine forms over canonical variables; max/min and branches become named variables with defining
    clauses (each clause: alternative constraint tuples).  leaf(t) -> t itself (a variable), a replacement term, or None."""

    def __init__(self, leaf=None):
        self.leaf = leaf or (lambda t: None)
        self.opaque = set()
        self.clauses = []
        self.memo = {}

    def ex(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ex(t)
        return r

    def _ex(self, t):
        r = self.leaf(t)
        if r is not None and r is not t:
            return self.ex(r)
        o = t.op
        var = ({t: Fraction(1)}, Fraction(0))
        if r is t or o == "sym":
            return var
        if o == "const":
            v = t.args[0]
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return ({}, Fraction(v) if isinstance(v, (bool, int)) else Fraction(repr(v)))
        elif o == "bin":
            op, a, b = t.args
            if op in "+-":
                return ladd(self.ex(a), self.ex(b), 1 if op == "+" else -1)
            if op in ("*", "/"):
                x, y = self.ex(a), self.ex(b)
                if not y[0] and (op == "*" or y[1] != 0):
                    return lscale(x, y[1] if op == "*" else 1 / y[1])
                if op == "*" and not x[0]:
                    return lscale(y, x[1])
        elif o == "un" and t.args[0] in "+-":
            return lscale(self.ex(t.args[1]), -1 if t.args[0] == "-" else 1)
        elif o == "phi":
            g, a, b = t.args
            alts = []
            for cc, v in ((g, a), (neg(g), b)):
                d = ladd(var, self.ex(v), -1)
                alts += [k + ((d, False), (lscale(d, -1), False)) for k in self.cond(cc)]
            self.clauses.append(alts)
            return var
        elif o == "call" and t.args[0].op == "ext":
            n = t.args[0].args[0]
            a = list(t.args[1])
            if n in SCALAR_ID and a:
                return self.ex(a[0])
            mm = 1 if n in MAXN else -1 if n in MINN else 0
            if mm:
                if len(a) == 1 and a[0].op == "call" and a[0].args[0] is T("ext", "t.tensor"):
                    a = [a[0].args[1][0]]
                if len(a) == 1 and a[0].op in ("list", "tuple"):
                    a = list(a[0].args)
                    if len(a) == 1:
                        return self.ex(a[0])
                if len(a) >= 2:
                    return self.ext(t, a, mm)
            if n in ("t.clamp", "m.clamp", "t.clip"):
                kw = {k: v for k, v in t.args[2] if k != "#"}
                lo = a[1] if len(a) > 1 else kw.get("min", NONE)
                hi = a[2] if len(a) > 2 else kw.get("max", NONE)
                x = a[0] if lo is NONE else call("builtins.max", a[0], lo)
                return self.ex(x if hi is NONE else call("builtins.min", x, hi))
            if n in ("builtins.abs", "t.abs", "math.fabs"):
                return self.ext(t, [a[0], T("un", "-", a[0])], 1)
        if o == "fn" and t.args[0] == "floor" or o == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("math.floor", "t.floor"):
            d = ladd(self.ex(t.args[1] if o == "fn" else t.args[1][0]), var, -1)        # 0 <= x - floor(x) < 1
            self.clauses.append([((d, False), ((lscale(d, -1)[0], lscale(d, -1)[1] + 1), True))])
            return var
        elif o == "fn" and t.args[0] in ("max", "min"):
            return self.ext(t, list(t.args[1:]), 1 if t.args[0] == "max" else -1)
        elif o == "poly":
            out = ({}, Fraction(0))
            for m, c in t.args[0]:
                if not m:
                    y = ({}, Fraction(c))
                elif len(m) == 1 and m[0][1].op == "poly" and dict(m[0][1].args[0]) == {(): 1}:
                    y = lscale(self.ex(m[0][0]), Fraction(c))
                else:
                    y = ({T("poly", ((m, Fraction(1)),)): Fraction(c)}, Fraction(0))
                out = ladd(out, y)
            return out
        self.opaque.add(t)
        return var

    def ext(self, t, a, mm):
        var = ({t: Fraction(1)}, Fraction(0))
        ds = [lscale(ladd(var, self.ex(x), -1), mm) for x in a]
        for d in ds:
            self.clauses.append([((d, False),)])
        self.clauses.append([((lscale(d, -1), False),) for d in ds])
        return var

    def cond(self, t, pos=True):
        """Alternative constraint tuples under which condition t holds (or fails)."""
        o = t.op
        if o == "const":
            return [()] if bool(t.args[0]) == pos else []
        if o == "not":
            return self.cond(t.args[0], not pos)
        if o in ("and", "or"):
            if (o == "and") == pos:
                out = [()]
                for x in t.args:
                    cs = self.cond(x, pos)
                    out = [a + b for a in out for b in cs]
                    if len(out) > 300:
                        raise Big()
                return out
            return [c for x in t.args for c in self.cond(x, pos)]
        if o == "cmp" and t.args[0] in ("<", "<=", "==", "!=", ">", ">="):
            op, a, b = t.args
            if op in (">", ">="):
                op, a, b = {">": "<", ">=": "<="}[op], b, a
            if not pos:
                op, a, b = {"<": ("<=", b, a), "<=": ("<", b, a), "==": ("!=", a, b), "!=": ("==", a, b)}[op]
            d = ladd(self.ex(b), self.ex(a), -1)
            e = lscale(d, -1)
            return [((d, op == "<"),)] if op in ("<", "<=") else [((d, False), (e, False))] if op == "==" else [((d, True),), ((e, True),)]
        if o == "cmp" and t.args[0] in ("0<", "0<=", "0==", "0!="):
            d = self.ex(t.args[1])
            e = lscale(d, -1)
            st = t.args[0] == "0<"
            if t.args[0] in ("0<", "0<="):
                return [((d, st),)] if pos else [((e, not st),)]
            return [((d, False), (e, False))] if (t.args[0] == "0==") == pos else [((d, True),), ((e, True),)]
        self.opaque.add(t)
        b = ({T("bool?", t): Fraction(1)}, Fraction(-1 if pos else 0))
        return [((b if pos else lscale(b, -1), False),)]


def sat(clauses, budget=4000):
    """Is the conjunction of disjunctive clauses satisfiable over the rationals?"""
    seen, cl = set(), []
    base = ()
    for c in clauses:
        if not c:
            return False
        k = tuple(sorted(tuple(sorted(map(key, a))) for a in c))
        if k in seen:
            continue
        seen.add(k)
        if len(c) == 1:
            base += c[0]
        elif () not in c:
            cl.append(c)
    if empty(base):
        return False
    n = 0

    def go(cons, left):
        nonlocal n
        n += 1
        if n > budget:
            raise Big()
        best = None
        for i, c in enumerate(left):
            ok = [a for a in c if not empty(cons + a)]
            if not ok:
                return False
            if len(ok) == 1:
                return go(cons + ok[0], left[:i] + left[i + 1:])
            if best is None or len(ok) < len(best[1]):
                best = (i, ok)
        if best is None:
            return True
        i, ok = best
        return any(go(cons + a, left[:i] + left[i + 1:]) for a in ok)
    return go(base, cl)


def implies(facts, cond, leaf=None):
    """True: cond holds wherever facts do.  False: some assignment satisfies the facts and falsifies cond (only if nothing
    opaque is involved).  None: undecided."""
    L = Lin(leaf)
    try:
        cl = [L.cond(neg(cond))]
        for f in dict.fromkeys(facts):
            cl.append(L.cond(f))
        if not sat(cl + L.clauses):
            return True
        return None if L.opaque else False
    except (Big, Nonlinear):
        return None
