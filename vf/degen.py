"""Value of an extracted scalar expression at a stated degenerate input, with the floating-point meaning of division, roots and comparisons."""
from __future__ import annotations
import math
from .terms import *
from .rules import callname, cargs, ckw
from .lower import NoLower

NAN = float("nan")
TINY = 1.5e-45


class Unknown_(Exception):
    """The expression uses something this evaluation does not model."""


def div(a, b):
    if b == 0:
        return NAN if a == 0 or a != a else math.inf * (1 if a > 0 else -1)
    return a / b


def pw(a, b):
    if a == 0 and b < 0:
        return math.inf
    if a < 0 and b != int(b):
        return NAN
    try:
        return a ** b
    except OverflowError:
        return math.inf


def intf(f):
    return lambda x: x if math.isnan(x) or math.isinf(x) else f(x)


def safe(f):
    def g(*a):
        if any(x != x for x in a):
            return NAN
        try:
            return f(*a)
        except OverflowError:
            return math.inf
        except ValueError:
            return NAN
    return g


def log(x, f=math.log):
    return -math.inf if x == 0 else NAN if x < 0 or x != x else math.inf if x == math.inf else f(x)


def rnd(x):
    return float(round(x))


ONE = {"sqrt": safe(math.sqrt), "abs": abs, "fabs": abs, "absolute": abs, "exp": safe(math.exp), "log": log, "log10": lambda x: log(x, math.log10), "log2": lambda x: log(x, math.log2), "log1p": lambda x: log(1 + x),
       "sin": safe(math.sin), "cos": safe(math.cos), "tan": safe(math.tan), "acos": safe(math.acos), "asin": safe(math.asin), "atan": safe(math.atan), "arccos": safe(math.acos), "arcsin": safe(math.asin), "arctan": safe(math.atan),
       "tanh": safe(math.tanh), "floor": intf(math.floor), "ceil": intf(math.ceil), "trunc": intf(math.trunc), "round": intf(rnd), "int": intf(math.trunc), "float": lambda x: x, "bool": lambda x: x != 0,
       "deg2rad": math.radians, "rad2deg": math.degrees, "radians": math.radians, "degrees": math.degrees, "square": lambda x: x * x, "reciprocal": lambda x: div(1.0, x), "rsqrt": lambda x: div(1.0, math.sqrt(x)) if x >= 0 else NAN,
       "sign": lambda x: (x > 0) - (x < 0) if x == x else x, "neg": lambda x: -x, "isnan": lambda x: x != x, "isinf": lambda x: math.isinf(x), "isfinite": lambda x: math.isfinite(x), "logical_not": lambda x: not x,
       "sinc": lambda x: 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x) if math.isfinite(x) else NAN, "item": lambda x: x, "detach": lambda x: x, "clone": lambda x: x, "contiguous": lambda x: x, "cpu": lambda x: x, "to": lambda x: x,
       "type_as": lambda x: x, "as_tensor": lambda x: x, "tensor": lambda x: x, "from_numpy": lambda x: x, "numpy": lambda x: x, "asarray": lambda x: x, "float32": lambda x: x, "float64": lambda x: x, "array": lambda x: x, "double": lambda x: x, "tolist": lambda x: x}


def nanmax(xs):
    return NAN if any(x != x for x in xs) else max(xs)


def nanmin(xs):
    return NAN if any(x != x for x in xs) else min(xs)


RED = {"sum": math.fsum, "prod": math.prod, "mean": lambda v: sum(v) / len(v), "amax": nanmax, "max": nanmax, "amin": nanmin, "min": nanmin, "any": any, "all": all}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


class Degen:
    def __init__(self, leaf, lower=None):
        self.leaf, self.lower = leaf, lower
        self.zero = []              # (division term) evaluated with a zero denominator
        self.memo = {}

    def val(self, t, env=()):
        k = (t, env)
        if k not in self.memo:
            self.memo[k] = self._val(t, env)
        return self.memo[k]

    def _val(self, t, env):
        if not isinstance(t, T):
            raise Unknown_(t)
        ev = lambda x: self.val(x, env)
        for b, v in env:
            if t is b:
                return v
        o = t.op
        if o == "const":
            v = t.args[0]
            if isinstance(v, (bool, int, float, str)):
                return v
            raise Unknown_(t)
        if o == "ext" and t.args[0] in ("math.pi", "torch.pi", "numpy.pi", "pi"):
            return math.pi
        if o == "ext" and t.args[0] in ("math.inf", "torch.inf", "numpy.inf"):
            return math.inf
        if o == "bin":
            op, a, b = t.args[0], ev(t.args[1]), ev(t.args[2])
            return self.arith(t, op, a, b)
        if o == "un":
            a = ev(t.args[1])
            return -a if t.args[0] == "-" else a if t.args[0] == "+" else self.no(t)
        if o in ("and", "or"):
            for x in t.args:
                v = ev(x)
                if bool(v) == (o == "or"):
                    return v
            return v
        if o == "not":
            return not ev(t.args[0])
        if o == "truth":
            return bool(ev(t.args[0]))
        if o == "cmp":
            if t.args[0] in CMP:
                return CMP[t.args[0]](ev(t.args[1]), ev(t.args[2]))
            return self.look(t, env)
        if o == "phi":
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if o == "red":
            k, b, d, body = t.args
            n = ev(d)
            if k not in RED or not math.isfinite(n) or n < 1:
                raise Unknown_(t)
            out = tuple(x for x in env if x[0] is not b)
            vs = [self.val(body, out + ((b, i),)) for i in range(min(int(n), 4))]
            if k in ("sum", "mean") and any(v != v or math.isinf(v) for v in vs):
                return sum(vs)
            return RED[k](vs)
        if o == "call":
            return self.call(t, env, ev)
        return self.look(t, env)

    def no(self, t):
        raise Unknown_(t)

    def look(self, t, env):
        """An input of the analysed function."""
        v = self.leaf(self, t, env)
        if v is None:
            raise Unknown_(t)
        return v

    def arith(self, t, op, a, b):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "//", "%"):
            if b == 0:
                self.zero.append(t)
            if op == "/":
                return div(a, b)
            if b == 0 or not math.isfinite(a) or b != b:
                return NAN
            if math.isinf(b):
                return NAN if op == "//" else a
            return a // b if op == "//" else a % b
        if op == "**":
            r = pw(a, b)
            if a == 0 and b < 0:
                self.zero.append(t)
            return r
        if op == "&":
            return a and b if isinstance(a, bool) or isinstance(b, bool) else self.no(t)
        if op == "|":
            return a or b if isinstance(a, bool) or isinstance(b, bool) else self.no(t)
        if op in (">>", "<<") and isinstance(a, int) and isinstance(b, int) and 0 <= b < 64:
            return a >> b if op == ">>" else a << b
        self.no(t)

    def call(self, t, env, ev):
        n = callname(t)
        if n is None:
            return self.look(t, env)
        a, k = cargs(t), ckw(t)
        s = n.split(".")[-1]
        if s == "where" and len(a) == 3:
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if s in ("clamp", "clip"):
            x = ev(a[0])
            lo, hi = k.get("min", a[1] if len(a) > 1 else NONE), k.get("max", a[2] if len(a) > 2 else NONE)
            if x != x:
                return x
            if lo is not NONE:
                v = ev(lo)
                x = max(x, 0.0 if abs(v) < TINY else v)
            if hi is not NONE:
                x = min(x, ev(hi))
            return x
        if s in ("maximum", "minimum", "fmax", "fmin") or n in ("builtins.max", "builtins.min"):
            xs = list(a) + list(k.values()) if not n.startswith("builtins") else list(a)
            if len(xs) == 1 and xs[0].op in ("tuple", "list"):
                xs = list(xs[0].args)
            f = nanmax if "max" in s else nanmin
            if len(xs) < 2:
                raise Unknown_(t)
            return f([ev(x) for x in xs])
        if s == "nan_to_num":
            x = ev(a[0])
            if x != x:
                return ev(k["nan"]) if "nan" in k else 0.0
            return x if math.isfinite(x) else 3.4e38 * (1 if x > 0 else -1)
        if s in ("atan2", "arctan2", "hypot", "pow", "fmod") and len(a) + len(k) == 2:
            x, y = [ev(z) for z in list(a) + list(k.values())]
            if s == "pow":
                return self.arith(t, "**", x, y)
            if s == "fmod":
                return self.arith(t, "%", x, y)
            return math.hypot(x, y) if s == "hypot" else safe(math.atan2)(x, y)
        if s in ("allclose", "equal", "array_equal") and self.lower is not None:
            I = self.lower.I
            x, y = a[0], k["other"] if "other" in k else a[1]
            shs = [I.shape(z) for z in (x, y)]
            if None in shs or any(d.op != "const" for sh in shs for d in sh) or any(len(sh) > 2 for sh in shs):
                raise Unknown_(t)
            big = max(shs, key=len)
            out = [()]
            for d in big:
                out = [o + (i,) for o in out for i in range(d.args[0])]
            tol = {n_: ev(k[n_]) if n_ in k else v for n_, v in (("rtol", 1e-5 if s == "allclose" else 0.0), ("atol", 1e-8 if s == "allclose" else 0.0))}

            def at(z, sh, ix):
                ix = ix[len(ix) - len(sh):]
                return ev(self.lower.at(z, tuple(const(0 if d.args[0] == 1 else i) for i, d in zip(ix, sh))))
            for ix in out:
                p, q = at(x, shs[0], ix), at(y, shs[1], ix)
                if not abs(p - q) <= tol["atol"] + tol["rtol"] * abs(q):
                    return False
            return True
        if s in ("isclose", "allclose") and len(a) + ("other" in k) == 2:
            x, y = ev(a[0]), ev(k["other"] if "other" in k else a[1])
            return abs(x - y) <= 1e-8 + 1e-5 * abs(y)
        if s in ("logical_and", "logical_or") and len(a) + len(k) == 2:
            x, y = [ev(z) for z in list(a) + list(k.values())]
            return (x and y) if s == "logical_and" else (x or y)
        if s in ONE and len(a) == 1 and n.split(".")[0] in ("t", "np", "m", "math", "builtins", "torch"):
            x = ev(a[0])
            if s in ("reciprocal", "rsqrt") and x == 0 or s.startswith("log") and x == 0:
                self.zero.append(t)
            return ONE[s](x)
        if n.startswith("vf.") or n.startswith("m.") or n == "builtins.isinstance":
            return self.look(t, env)
        raise Unknown_(t)
