"""Identity testing of canonical forms at sample points.

A difference between two extracted formulas is only reported when the two canonical forms also take different values
at some assignment of their atoms that satisfies the assumed conditions (so that two spellings of the same function,
which the algebra failed to unify, are never reported as a difference).  Atoms are uninterpreted; nothing of the
program is executed."""
from __future__ import annotations
import hashlib, math, random
from .terms import T
from .alg import pconst

CDIM = 3          # value given to symbolic extents of reductions
EXACT = {"abs": abs, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "log10": math.log10, "sqrt": math.sqrt,
         "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round, "sign": lambda x: (x > 0) - (x < 0),
         "sinc": lambda x: 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x), "atan2": math.atan2, "acos": math.acos, "asin": math.asin,
         "atan": math.atan, "deg2rad": math.radians, "radians": math.radians, "rad2deg": math.degrees, "degrees": math.degrees, "sinh": math.sinh,
         "cosh": math.cosh, "tanh": math.tanh, "log2": math.log2, "arctan2": math.atan2, "arccos": math.acos, "arcsin": math.asin, "arctan": math.atan,
         "bit_length": lambda x: int(x).bit_length()}


class Undefined(Exception):
    pass


class Point:
    def __init__(self, seed, N, facts=None):
        self.seed, self.N = seed, N
        self.facts = facts or {}
        self.memo = {}
        self.mode = seed % 4

    def rnd(self, key):
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=8).digest()
        return random.Random(int.from_bytes(h, "big"))

    def leaf(self, t, key, integral=None):
        r = self.rnd(key)
        N = self.N
        integral = N.isint(t) if integral is None else integral
        s = N.sign(t)
        if integral:
            v = r.choice([0, 1, 2, 3, 4, 5, 7, 11]) if self.mode != 3 else r.choice([0, 1, 2])
            if s == "+":
                v = max(v, 1)
            elif s == "-":
                v = -max(v, 1)
            elif s == "0-":
                v = -v
            elif s is None and r.random() < 0.4:
                v = -v
            return v
        v = r.uniform(0.05, 3.0)
        if self.mode == 3 and r.random() < 0.3:
            v = float(r.choice([0, 1, 2]))
        if s == "+":
            return max(v, 0.05)
        if s == "-":
            return -max(v, 0.05)
        if s == "0-":
            return -v
        if s is None and r.random() < 0.4:
            v = -v
        return v

    def val(self, t, bound=()):
        k = (t, bound)
        if k in self.memo:
            return self.memo[k]
        v = self._val(t, dict(bound))
        if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            raise Undefined("non-finite")
        self.memo[k] = v
        return v

    def _val(self, t, b):
        bt = tuple(sorted(b.items(), key=lambda x: x[0].id))
        o = t.op
        ev = lambda x: self.val(x, tuple((k, v) for k, v in bt if True))
        if t in b:
            return b[t]
        if o == "poly":
            s = 0
            for m, c in t.args[0]:
                p = float(c) if c.denominator != 1 else int(c)
                for a, e in m:
                    x, y = ev(a), ev(e)
                    if isinstance(y, float) and x < 0 and y != int(y):
                        raise Undefined("root of negative")
                    if x == 0 and y < 0:
                        raise Undefined("division by zero")
                    p = p * (x ** int(y) if y == int(y) else x ** y)
                s += p
            return s
        if o == "const":
            v = t.args[0]
            if isinstance(v, bool) or isinstance(v, (int, float)):
                return v
            return ("c", v)
        if o == "ext" and t.args[0] == "pi":
            return math.pi
        if o == "fn":
            name = t.args[0]
            if name.startswith("red"):
                c, d, body = t.args[1:4]
                n = ev(d)
                n = int(n)
                if n < 1 or n > 6:
                    n = 1 + n % CDIM
                vs = [self.val(body, tuple(sorted({**b, c: i}.items(), key=lambda x: x[0].id))) for i in range(n)]
                k = name[3:]
                return {"sum": sum, "prod": math.prod, "mean": lambda v: sum(v) / len(v), "amax": max, "amin": min, "max": max, "min": min, "any": any, "all": all}.get(k, lambda v: self.unint(name, v))(vs)
            if name in ("max", "min"):
                return (max if name == "max" else min)(ev(x) for x in t.args[1:])
            if name in EXACT and len(t.args) in (2, 3):
                vs = [ev(x) for x in t.args[1:]]
                if all(isinstance(v, (int, float)) for v in vs):
                    try:
                        if name == "floor":
                            q = round(vs[0])
                            return q if abs(vs[0] - q) < 1e-9 else math.floor(vs[0])
                        return EXACT[name](*vs)
                    except (ValueError, OverflowError, TypeError) as ex:
                        raise Undefined(str(ex))
            return self.leaf(t, (name,) + tuple(self.key(x, b) for x in t.args[1:]), self.N.isint(t))
        if o == "phi":
            return ev(t.args[1]) if self.cond(t.args[0], bt) else ev(t.args[2])
        if o in ("cmp", "and", "or", "not", "truth"):
            return self.cond(t, bt)
        if o in ("at", "idx", "bv", "bc", "sym", "attr", "vec"):
            if o == "at":
                return self.leaf(t, ("at", t.args[0].id) + tuple(self.key(x, b) for x in t.args[1:]))
            return self.leaf(t, ("leaf", t.id))
        return self.leaf(t, (o,) + tuple(self.key(x, b) for x in t.args))

    def unint(self, name, vs):
        return self.rnd((name, tuple(round(float(v), 6) for v in vs))).uniform(-3, 3)

    def key(self, x, b):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(self.key(y, b) for y in x)
            return repr(x)
        if x.op in ("ext", "axes", "dtype", "func", "class"):
            return x.id
        try:
            v = self.val(x, tuple(sorted(b.items(), key=lambda z: z[0].id)))
        except Undefined:
            return x.id
        return round(float(v), 6) if isinstance(v, (int, float)) else repr(v)

    def cond(self, c, bt=()):
        o = c.op
        if o == "const":
            return bool(c.args[0])
        if o == "not":
            return not self.cond(c.args[0], bt)
        if o == "and":
            return all([self.cond(x, bt) for x in c.args])
        if o == "or":
            return any([self.cond(x, bt) for x in c.args])
        if o == "cmp" and c.args[0] in ("0<", "0<="):
            v = self.val(c.args[1], bt)
            return v > 1e-9 if c.args[0] == "0<" else v >= -1e-9
        if c in self.facts and not (o == "cmp" and c.args[0] in ("==", "0==") and not any(isinstance(x, T) and x.op == "const" and isinstance(x.args[0], str) for x in c.args[1:])):
            return self.facts[c]
        if o == "cmp" and c.args[0] in ("==", "!=", "0=="):
            vs = [self.val(x, bt) for x in c.args[1:]]
            if c.args[0] == "0==":
                return abs(vs[0]) < 1e-9
            e = abs(vs[0] - vs[1]) < 1e-9 if all(isinstance(v, (int, float)) for v in vs) else vs[0] == vs[1]
            return e if c.args[0] == "==" else not e
        if o == "phi":
            return self.cond(c.args[1] if self.cond(c.args[0], bt) else c.args[2], bt)
        return self.rnd(("cond", c.id, tuple(v for _, v in bt))).random() < 0.5


def separated(N, x, y, facts, tries=160, need=6):
    """True: x and y differ somewhere the facts hold; False: they agreed at every admissible point; None: no admissible point found."""
    seen = 0
    for seed in range(tries):
        p = Point(seed, N, facts)
        try:
            ok = True
            for c, v in facts.items():
                if p.cond(c) != v:
                    ok = False
                    break
            if not ok:
                continue
            a, b = p.val(x), p.val(y)
        except (Undefined, OverflowError, ZeroDivisionError, TypeError, ValueError, RecursionError):
            continue
        seen += 1
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
                return True
        elif a != b:
            return True
        if seen >= need * 4:
            return False
    return False if seen >= need else None
