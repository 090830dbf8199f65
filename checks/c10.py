"""C10: abstract interpretation of every construction path: a bad value of one field (sign, zero, NaN, infinite, odd/even classes, wrong shapes) is propagated through constructor, factory and copy-with-changes, and no returning path may be compatible with it; models are checked to be frozen."""
import ast
import itertools
import math
from vf.law import *
from vf.simconf import *
from vf.loader import AnalysisBroken
from .c08 import visible
from .c29 import Names

INF = float("inf")
INTS = frozenset({"int"})


class V:
    """A class of numbers: an interval, possibly NaN, with optional parity."""
    __slots__ = ("lo", "hi", "lo_in", "hi_in", "nan", "par", "label")

    def __init__(self, lo, hi, lo_in=True, hi_in=True, nan=False, par=None, label=""):
        self.lo, self.hi, self.lo_in, self.hi_in, self.nan, self.par, self.label = lo, hi, lo_in, hi_in, nan, par, label

    def finite(self):
        if self.nan:
            return False
        if self.lo == self.hi and self.lo in (INF, -INF):
            return False
        return True if (self.lo > -INF or not self.lo_in) and (self.hi < INF or not self.hi_in) else None


NEG, ZERO, PART, ONE, BIG = V(-INF, 0, False, False, label="negative"), V(0, 0, label="zero"), V(0, 1, False, False, label="a fraction"), V(1, 1, label="one"), V(1, INF, False, False, label="greater than one")
PINF, NINF, NAN = V(INF, INF, label="infinite"), V(-INF, -INF, label="negative infinite"), V(0, 0, nan=True, label="NaN")
JNEG, NEG1, FNEG, JBIG = V(-1e-30, 0, False, False, label="just below zero"), V(-1, -1, label="minus one"), V(-INF, -1e30, False, False, label="far below zero"), V(1, 1 + 1e-30, False, False, label="just above one")
JBIG.hi = math.nextafter(1, 2)
HUGE = V(1e30, INF, True, False, label="huge")
INEG, IFAR = V(-1, -1, par=1, label="minus one"), V(-INF, -10**9, False, True, label="far below zero")
EVEN, ODD, NATURAL = V(2, INF, True, False, par=0, label="even"), V(3, INF, True, False, par=1, label="odd"), V(1, INF, True, False, label="positive")


def cmpv(op, a, b):
    """Three-valued comparison of two number classes."""
    if a.nan or b.nan:
        return True if op == "!=" else False
    if op in ("<", "<="):
        if a.hi < b.lo or (a.hi == b.lo and (op == "<=" or not (a.hi_in and b.lo_in))):
            return True
        if a.lo > b.hi or (a.lo == b.hi and (op == "<" or not (a.lo_in and b.hi_in))):
            return False
        return None
    if op in (">", ">="):
        return cmpv("<" if op == ">" else "<=", b, a)
    if op in ("==", "!="):
        eq = None
        if a.lo == a.hi == b.lo == b.hi and abs(a.lo) != INF or (a.lo == a.hi == b.lo == b.hi):
            eq = True
        elif cmpv("<", a, b) is True or cmpv("<", b, a) is True:
            eq = False
        elif a.par is not None and b.lo == b.hi and b.lo == int(b.lo) and int(b.lo) % 2 != a.par:
            eq = False
        return eq if eq is None or op == "==" else not eq
    return None


NOTHING = V(0, 0, nan=True, label="not given")


class Elems:
    """A tensor certainly holding an element of class bad, every other element being of class rest."""
    __slots__ = ("bad", "rest")

    def __init__(self, bad, rest):
        self.bad, self.rest = bad, rest


KEEP = {"as_tensor", "tensor", "to", "float", "double", "reshape", "view", "clone", "detach", "contiguous", "unsqueeze", "squeeze", "flatten", "ravel", "int", "asarray", "item", "cpu", "numpy", "tolist", "list", "tuple", "long", "half", "type", "from_numpy", "array", "atleast_1d", "permute", "transpose"}
MIN, MAX = {"min", "amin"}, {"max", "amax"}
HARMLESS = KEEP | MIN | MAX | {"isfinite", "isnan", "isinf", "all", "any", "bool", "len", "isinstance", "is_tensor", "numel", "size", "dim", "stack", "cat", "abs", "setattr", "__setattr__", "get_default_dtype", "copy", "lt", "le", "gt", "ge", "eq", "ne", "logical_or", "logical_and", "logical_not", "warn", "is_floating_point", "str", "repr", "format", "getattr", "hasattr", "callable", "sum", "count_nonzero", "next", "iter", "round", "broadcast_to", "expand", "zip", "enumerate", "map", "range", "get", "keys", "items", "values", "update", "append", "dict", "set", "join"}


class Eval:
    """Three-valued evaluation of a path fact under number classes for the parameters."""

    def __init__(self, I, env):
        self.I, self.env, self.memo = I, env, {}

    def val(self, t):
        """V, Elems or None."""
        if not isinstance(t, T):
            return None
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.memo[t] = self._val(t)
        return r

    def _val(self, t):
        if t in self.env:
            return self.env[t] if self.env[t] is not NOTHING else None
        o = t.op
        if o == "const":
            x = t.args[0]
            if isinstance(x, bool) or not isinstance(x, (int, float)):
                return None
            return V(float(x), float(x), nan=x != x, par=int(x) % 2 if x == x and abs(x) != INF and x == int(x) else None)
        if o == "phi":
            p = self.truth(t.args[0])
            if p is not None:
                return self.val(t.args[1 if p else 2])
            a, b = self.val(t.args[1]), self.val(t.args[2])
            return a if a is b else None
        if o == "call":
            n = (callname(t) or "").split(".")[-1]
            full = callname(t) or ""
            if t.args[0].op == "attr":
                n = t.args[0].args[1]
                args = (t.args[0].args[0],) + tuple(cargs(t))
            else:
                args = cargs(t)
            if not args:
                return None
            if n in KEEP:
                return self.val(args[0])
            x = self.val(args[0])
            if n in MIN | MAX and isinstance(x, Elems) and len(args) == 1 and not ckw(t):
                if x.bad.nan or x.rest.nan:
                    return NAN if not full.startswith("builtins.") else None
                lo = cmpv("<=", x.bad, x.rest)
                if lo is None:
                    return None
                return (x.bad if lo else x.rest) if n in MIN else (x.rest if lo else x.bad)
            if n == "abs" and isinstance(x, V):
                if x.nan or x.lo >= 0:
                    return x
                if x.hi <= 0:
                    return V(-x.hi, -x.lo, x.hi_in, x.lo_in, par=x.par)
            return None
        if o == "bin" and t.args[0] == "%" and t.args[2].op == "const" and t.args[2].args[0] == 2:
            x = self.val(t.args[1])
            if isinstance(x, V) and x.par is not None:
                return V(x.par, x.par, par=x.par)
            return None
        if o in ("getitem", "idx", "elem", "item") and isinstance(t.args[0], T):
            return None
        return None

    def pred(self, t, who):
        """Truth of an elementwise condition for the elements of class `bad` or `rest`."""
        e = {k: (v.bad if who == "bad" else v.rest) if isinstance(v, Elems) else v for k, v in self.env.items()}
        return Eval(self.I, e).truth(t)

    def truth(self, c):
        return beval(c, self.atom)

    def atom(self, c):
        o = c.op
        if o == "cmp":
            op, a, b = c.args
            if op in ("is", "=="):
                for x, y in ((a, b), (b, a)):
                    if y is NONE and x in self.env:
                        return self.env[x] is NOTHING
            x, y = self.val(a), self.val(b)
            if isinstance(x, V) and isinstance(y, V):
                return cmpv(op, x, y)
            return None
        if o == "truth" and self.env.get(c.args[0]) is NOTHING:
            return False
        if o == "truth" and isinstance(self.val(c.args[0]), V):
            x = self.val(c.args[0])
            return True if x.nan or cmpv("<", x, ZERO) or cmpv(">", x, ZERO) else False if x.lo == x.hi == 0 else None
        if o == "truth":
            return self.atom(c.args[0]) if c.args[0].op in ("call", "cmp") else None
        if o == "bin" and c.args[0] in ("&", "|"):
            a, b = self.truth(c.args[1]), self.truth(c.args[2])
            if c.args[0] == "&":
                return False if False in (a, b) else True if a is True and b is True else None
            return True if True in (a, b) else False if a is False and b is False else None
        if o == "un" and c.args[0] in ("~", "not"):
            a = self.truth(c.args[1])
            return None if a is None else not a
        if o == "call":
            n = (callname(c) or "").split(".")[-1]
            args = tuple(cargs(c))
            if c.args[0].op == "attr":
                n, args = c.args[0].args[1], (c.args[0].args[0],) + args
            if not args:
                return None
            if n in ("isfinite", "isnan", "isinf"):
                x = self.val(args[0])
                if not isinstance(x, V):
                    return None
                f = x.finite()
                if n == "isfinite":
                    return f
                if n == "isnan":
                    return x.nan
                return None if f is None else (not f and not x.nan)
            if n in ("lt", "le", "gt", "ge", "eq", "ne", "less", "greater") and len(args) == 2:
                op = {"lt": "<", "less": "<", "le": "<=", "gt": ">", "greater": ">", "ge": ">=", "eq": "==", "ne": "!="}[n]
                x, y = self.val(args[0]), self.val(args[1])
                return cmpv(op, x, y) if isinstance(x, V) and isinstance(y, V) else None
            if n in ("logical_and", "logical_or") and len(args) == 2:
                return self.atom(T("bin", "&" if n == "logical_and" else "|", *args))
            if n == "logical_not":
                a = self.truth(args[0])
                return None if a is None else not a
            if n in ("all", "any") and len(args) == 1:
                b, g = self.pred(args[0], "bad"), self.pred(args[0], "rest")
                if n == "all":
                    return False if b is False or g is False else True if b is True and g is True else None
                return True if b is True or g is True else False if b is False and g is False else None
            if n in ("bool", "item"):
                return self.truth(args[0])
        return None


def client(params, body):
    return ("from torchrir.models import Room, Source, MicrophoneArray, StaticScene, DynamicScene, Scene\n"
            "from torchrir.sim import ISMSimulator\nfrom torchrir.config import SimulationConfig\n"
            f"def use({params}):\n    return {body}\n")


def verdict(r, env, watch):
    """As decide, for every setting of the switches (boolean inputs) the checks look at."""
    got = decide(r, env, watch)
    if got in ("refused", "accepted"):
        return got
    free = []
    for f in r.state.pc:
        for x in visible(f):
            if x.op == "truth" and x.args[0].op in ("sym", "attr") and x.args[0] not in env and "bool" in r.I.ty(x.args[0]) and x.args[0] not in free:
                free.append(x.args[0])
    seen = set()
    for bits in itertools.product((ONE, ZERO), repeat=len(free[:4])):
        seen.add(decide(r, {**env, **dict(zip(free, bits))}, watch))
    return "accepted" if "accepted" in seen else "refused" if seen == {"refused"} else got


def decide(r, env, watch):
    """'refused' / 'accepted' / why undecided, for calls whose parameters are in the given classes."""
    if not isinstance(r.ret, T) or r.ret.op == "dead" or r.state is None:
        return "refused"
    E = Eval(r.I, env)
    facts = list(r.state.pc)
    flat_ = []
    for f in facts:
        flat_ += list(f.args) if f.op == "and" else [f]
    tv = [(f, E.truth(f)) for f in flat_]
    if any(v is False for _, v in tv):
        return "refused"

    def about(t):
        return any(x in watch for x in visible(t))
    for f, v in tv:
        if v is None and f in getattr(r, "assumed", ()):
            continue
        if v is None and (about(f) or any(x.op in ("ref", "loop", "forall") for x in visible(f))):
            return "condition " + show(f, 5)[:120]
        if v is None and not any(isinstance(x, T) and x.op == "sym" for x in subterms(f)):
            return "condition " + show(f, 5)[:120]
    for e in r.events:
        if e.kind == "raise":
            vs = [E.truth(x) for x in e.pc if isinstance(x, T)]
            if False in vs:
                continue
            if all(v is True for v in vs) and not e.loops:
                return "refused"
            if e.loops and any(v is None and (about(x) or x.op == "loop") for x, v in zip([x for x in e.pc if isinstance(x, T)], vs)):
                return "a check inside a loop"
            if any(v is None and about(x) for x, v in zip([x for x in e.pc if isinstance(x, T)], vs)):
                return "a check under unknown conditions"
        if e.kind == "call" and any(isinstance(a, T) and about(a) for a in list(e.args) + list(e.kw.values())):
            n = (e.fn or "?").split(".")[-1]
            if n not in HARMLESS and not (e.fn or "").endswith(("Error", "Exception")) and not n.startswith("torchrir"):
                if [E.truth(x) for x in e.pc if isinstance(x, T)].count(False):
                    continue
                return f"a call of {e.fn}"
    return "accepted"


class Path:
    """One construction path: a client program plus a valid environment."""

    def __init__(self, c, name, params, body, env=None, shapes=None, ty=None, pre=()):
        self.c, self.name, self.src = c, name, client(params, body)
        self.alt = {}
        self.env, self.shapes, self.ty, self.pre = dict(env or {}), dict(shapes or {}), dict(ty or {}), tuple(pre)

    def run(self, shapes=None, pre=(), ty=None, none=()):
        sh = {**self.shapes, **(shapes or {})}
        t = {k: TEN for k in sh}
        t.update(self.ty)
        t.update({k: (INTS if isinstance(v, V) and v.par is not None or v in (NATURAL, INEG) else NUM) for k, v in self.env.items() if isinstance(v, V) and k not in t})
        t.update(ty or {})
        t = {k: v for k, v in t.items() if k not in none and NOTHING not in self.alt.get(k, ())}
        p = list(self.pre) + list(pre) + [absent(x) for x in none]
        key = (self.src, repr(sorted((show(k, 9), repr(v)) for k, v in sh.items())), tuple(show(x, 9) for x in p), repr(sorted(show(k, 9) for k in t)))
        r = self.c.user(self.src, key, shapes=sh, symty=t, pre=p)
        r.assumed = set(p)
        return r

    def judge(self, what, want, env=None, watch=(), shapes=None, pre=(), ty=None, none=(), rule="C10.reject"):
        where = f"{self.name}: {what}"
        with self.c.rule(rule, where):
            r = self.run(shapes, pre, ty, none)
            e = {k: v for k, v in {**self.env, **(env or {})}.items() if k not in none}
            w = set(watch) or set((env or {}).keys())
            got = verdict(r, e, w)
            if want == "refused" and got == "refused":
                for q, vs in self.alt.items():
                    for x in vs:
                        if got == "refused" and q in e and q not in (env or {}):
                            got = verdict(r, {**e, q: x}, w)
                            what = what if got == "refused" else f"{what} ({show(q, 9)} {x.label})"
                where = f"{self.name}: {what}"
            if got not in ("refused", "accepted"):
                self.c.ob(rule, where, None, f"could not tell: {got}")
            else:
                self.c.ob(rule, where, got == want, f"is {got}")

    def number(self, p, bads, goods, label=None):
        label = label or show(p, 9)
        for v in bads:
            self.judge(f"{label} is {v.label}", "refused", {p: v}, {p})
        for v in goods:
            self.judge(f"{label} may be {v.label}", "accepted", {p: v}, {p}, rule="C10.accept")

    def elements(self, p, bads, rest, goods=(), label=None, none=(), shapes=(None,)):
        label = label or show(p, 9)
        for v in bads:
            for s in shapes:
                more = {p: tuple(C(x) for x in s)} if s is not None else {}
                self.judge(f"{label} holds a value that is {v.label}" + (f" in shape {s}" if s is not None else ""), "refused", {p: Elems(v, rest)}, {p}, none=none, shapes=more)
        for v in goods:
            self.judge(f"{label} may hold {v.label}", "accepted", {p: Elems(v, rest)}, {p}, rule="C10.accept", none=none)

    def shape(self, p, bads, goods=(), label=None, none=(), more=None):
        label = label or show(p, 9)
        for s in bads:
            self.judge(f"{label} of shape {s}", "refused", {}, {p}, shapes={**(more or {}), p: tuple(C(x) for x in s)}, none=none)
        for s in goods:
            self.judge(f"{label} of shape {s} is allowed", "accepted", {}, {p}, shapes={**(more or {}), p: tuple(C(x) for x in s)}, rule="C10.accept", none=none)


def absent(t):
    return T("cmp", "is", t, NONE)


WILD = (NAN, PINF, NINF)


def rooms(c):
    size, fs, cc, beta, t60, v = S("size"), S("fs"), S("c"), S("beta"), S("t60"), S("v")
    base = {size: Elems(BIG, BIG), fs: BIG, cc: BIG}
    mk = {"Room()": ("size, fs, c, beta, t60", "Room(size=size, fs=fs, c=c, beta=beta, t60=t60)"),
          "Room.shoebox()": ("size, fs, c, beta, t60", "Room.shoebox(size, fs=fs, c=c, beta=beta, t60=t60)")}
    for name, (ps, body) in mk.items():
        sh = {size: (C(3),)}
        plain = Path(c, name, ps, body, base, sh, pre=(absent(beta), absent(t60)))
        plain.elements(size, (JNEG, NEG1, FNEG, ZERO) + WILD, BIG, (PART,))
        plain.shape(size, [(), (1,), (4,), (1, 3), (3, 1)], [(2,), (3,)])
        plain.number(fs, (JNEG, NEG1, FNEG, ZERO, NAN, PINF), (BIG,))
        plain.number(cc, (JNEG, NEG1, FNEG, ZERO, NAN, PINF), (BIG,))
        walls = Path(c, name, ps, body, {**base, beta: Elems(PART, PART)}, {**sh, beta: (C(6),)}, pre=(absent(t60),))
        walls.elements(beta, (JNEG, FNEG, JBIG, HUGE) + WILD, PART, (ZERO, ONE))
        walls.shape(beta, [(1,), (4,), (5,), (7,)], [(6,)])
        walls.shape(beta, [(1,), (3,), (6,)], [(4,)], more={size: (C(2),)}, label="in a 2-D room beta")
        Path(c, name, ps, body, {**base, t60: PART}, sh, pre=(absent(beta),)).number(t60, (JNEG, NEG1, FNEG, ZERO, NAN), (PART, BIG))
        Path(c, name, ps, body, {**base, beta: Elems(PART, PART), t60: PART}, {**sh, beta: (C(6),)}).judge("beta together with t60", "refused", watch={beta, t60})
    room = S("room")
    A = lambda n: attr(room, n)
    renv = {A("size"): Elems(BIG, BIG), A("fs"): BIG, A("c"): BIG, A("beta"): Elems(PART, PART), A("t60"): PART}
    sh = {A("size"): (C(3),)}
    W = {A("beta"): (C(6),)}
    none, beta_, t60_ = (A("beta"), A("t60")), (A("t60"),), (A("beta"),)

    def rep(field, drop, extra_env=None, extra_sh=None):
        env = {k: w for k, w in {**renv, **(extra_env or {})}.items() if k not in drop}
        s = {**sh, **(extra_sh or {})}
        if A("beta") not in drop:
            s.update(W)
        return Path(c, f"Room.replace({field})", "room: Room, v", f"room.replace({field}=v)", env, s, pre=tuple(absent(x) for x in drop))
    p = rep("size", none, {v: Elems(BIG, BIG)}, {v: (C(3),)})
    p.elements(v, (JNEG, NEG1, FNEG, ZERO) + WILD, BIG, (PART,), label="size")
    p.shape(v, [(), (1,), (4,), (1, 3)], [(3,)], label="size")
    rep("size", beta_, {v: Elems(BIG, BIG)}, {v: (C(3),)}).shape(v, [(2,)], label="size of a room with six coefficients,")
    for f in ("fs", "c"):
        rep(f, none, {v: BIG}).number(v, (JNEG, NEG1, FNEG, ZERO, NAN, PINF), (BIG,), label=f)
    p = rep("beta", none, {v: Elems(PART, PART)}, {v: (C(6),)})
    p.elements(v, (JNEG, FNEG, JBIG, HUGE) + WILD, PART, (ZERO, ONE), label="beta")
    p.shape(v, [(1,), (4,), (5,)], [(6,)], label="beta")
    rep("t60", none, {v: PART}).number(v, (JNEG, NEG1, FNEG, ZERO, NAN), (PART,), label="t60")
    rep("t60", beta_, {v: PART}).judge("t60 added to beta", "refused", watch={v})
    rep("beta", t60_, {v: Elems(PART, PART)}, {v: (C(6),)}).judge("beta added to t60", "refused", watch={v})


def entities(c):
    pos, ori, v, e = S("pos"), S("ori"), S("v"), S("e")
    for cls in ("Source", "MicrophoneArray"):
        for name, body in ((f"{cls}()", f"{cls}(pos, ori)"), (f"{cls}.from_positions()", f"{cls}.from_positions(pos, orientation=ori)")):
            env = {pos: Elems(BIG, BIG)}
            p = Path(c, name, "pos, ori", body, env, {pos: (C(2), C(3))}, pre=(absent(ori),))
            p.elements(pos, WILD, BIG, (NEG, ZERO), shapes=(None, (3,), (1, 3), (2, 2)))
            p.shape(pos, [(), (1,), (4,), (2, 1), (2, 4), (1, 2, 3)], [(3,), (2,), (4, 3), (4, 2)])
            p = Path(c, name, "pos, ori", body, {**env, ori: Elems(BIG, BIG)}, {pos: (C(2), C(3)), ori: (C(2), C(3))})
            p.elements(ori, WILD, BIG, (NEG, ZERO), shapes=(None, (3,), (2,), (2, 2)))
            p2 = Path(c, name + " in 2-D", "pos, ori", body, {**env, ori: Elems(BIG, BIG)}, {pos: (C(2), C(2)), ori: (C(2), C(2))})
            p2.elements(ori, WILD, BIG, (), shapes=(None, (), (1,), (2,), (2, 1)))
            p.shape(ori, [(), (1,), (4,), (3, 3), (2, 1), (2, 4), (1, 2, 3)], [(2,), (3,), (2, 2), (2, 3)])
            p.shape(ori, [(3,), (4,), (3, 2), (2, 3), (1, 2, 2)], [(), (1,), (2,), (2, 1), (2, 2)], label="for two 2-D positions ori", more={pos: (C(2), C(2))})
        A = lambda n: attr(e, n)
        env = {A("positions"): Elems(BIG, BIG), A("orientation"): Elems(BIG, BIG), v: Elems(BIG, BIG)}
        sh = {A("positions"): (C(2), C(3))}
        p = Path(c, f"{cls}.replace(positions)", f"e: {cls}, v", "e.replace(positions=v)", {k: w for k, w in env.items() if k is not A("orientation")}, {**sh, v: (C(2), C(3))}, pre=(absent(A("orientation")),))
        p.elements(v, WILD, BIG, (NEG,), label="positions")
        p.shape(v, [(), (1,), (2, 4), (1, 2, 3)], [(5, 3), (2, 2)], label="positions")
        p = Path(c, f"{cls}.replace(positions)", f"e: {cls}, v", "e.replace(positions=v)", env, {**sh, A("orientation"): (C(2), C(3)), v: (C(2), C(3))})
        p.shape(v, [(3, 3), (2, 2)], [(2, 3)], label="with two 3-D orientations, positions")
        p = Path(c, f"{cls}.replace(orientation)", f"e: {cls}, v", "e.replace(orientation=v)", {k: w for k, w in env.items() if k is not A("orientation")}, {**sh, v: (C(2), C(3))}, pre=(absent(A("orientation")),))
        p.elements(v, WILD, BIG, (NEG,), label="orientation")
        p.shape(v, [(), (4,), (3, 3), (2, 4)], [(3,), (2, 3)], label="orientation")


def scenes(c):
    room, src, mic, a, b = S("room"), S("src"), S("mic"), S("a"), S("b")
    RS, SP, MP = attr(room, "size"), attr(src, "positions"), attr(mic, "positions")
    n3 = {RS: (C(3),), SP: (C(2), C(3)), MP: (C(4), C(3))}
    env = {a: Elems(BIG, BIG), b: Elems(BIG, BIG), SP: Elems(BIG, BIG), MP: Elems(BIG, BIG), RS: Elems(BIG, BIG)}
    par = "room: Room, src: Source, mic: MicrophoneArray"
    dyn = {a: (C(5), C(2), C(3)), b: (C(5), C(4), C(3))}
    for cls, body, ps, sh, pre in (
        ("StaticScene", "StaticScene(room, src, mic)", par, n3, ()),
        ("DynamicScene", "DynamicScene(room, src, mic, a, b)", par + ", a, b", {**n3, **dyn}, ()),
        ("Scene", "Scene(room, src, mic)", par, n3, ()),
        ("Scene with trajectories", "Scene(room, src, mic, a, b)", par + ", a, b", {**n3, **dyn}, ()),
        ("StaticScene.validate", "[StaticScene(room, src, mic), StaticScene(room, src, mic).validate()]", par, n3, ()),
    ):
        p = Path(c, cls, ps, body, env, sh, pre=pre)
        p.shape(SP, [(2, 2)], [(2, 3)], label="source positions in a 3-D room,")
        p.shape(MP, [(4, 2)], [(4, 3)], label="microphone positions in a 3-D room,")
        p.shape(RS, [(2,)], [(3,)], label="room size with 3-D entities,")
        if a not in sh:
            continue
        for x, n, lab in ((a, 2, "source trajectory"), (b, 4, "microphone trajectory")):
            p.elements(x, WILD, BIG, (NEG,), label=lab)
            q = Path(c, cls + " with one entity", ps, body, env, {**sh, SP: (C(1), C(3)), MP: (C(1), C(3)), a: (C(5), C(3)), b: (C(5), C(3))}, pre=pre)
            q.elements(x, WILD, BIG, (), label=lab, shapes=(None, (5, 1, 3)))
            p.shape(x, [(), (5,), (5, 3), (5, n + 1, 3), (5, n, 2), (n, 5, 3), (6, n, 3), (1, n, 3), (1, 5, n, 3)], [(5, n, 3)], label=lab + " for several entities,")
        one = {SP: (C(1), C(3)), MP: (C(1), C(3)), a: (C(5), C(3)), b: (C(5), C(3))}
        for x, lab in ((a, "source trajectory"), (b, "microphone trajectory")):
            p.shape(x, [(5, 2), (6, 3), (5,), (5, 2, 3), (5, 1, 2)], [(5, 3), (5, 1, 3)], label=lab + " for one entity,", more=one)
    for given_, other, lab in ((a, b, "source"), (b, a, "microphone")):
        p = Path(c, "Scene with trajectories", par + ", a, b", "Scene(room, src, mic, a, b)", {k: v for k, v in env.items() if k is not other}, {**n3, given_: dyn[given_]}, pre=(absent(other),))
        p.judge(f"only the {lab} trajectory", "refused", watch={given_, other})


def options(c):
    o, t, n, v, g = S("o"), S("t"), S("n"), S("v"), S("cfg")
    env = {o: NATURAL, t: PART, n: NATURAL}
    p = Path(c, "ISMSimulator()", "o, t, n", "ISMSimulator(max_order=o, tmax=t, nsample=n)", env)
    p.alt = {n: (NOTHING,)}
    p.number(o, (INEG, IFAR), (ZERO, NATURAL), label="max_order")
    p.number(t, (JNEG, NEG1, FNEG, ZERO, NAN), (PART, BIG), label="tmax")
    p = Path(c, "ISMSimulator()", "o, t, n", "ISMSimulator(max_order=o, tmax=t, nsample=n)", env)
    p.alt = {t: (NOTHING,)}
    p.number(n, (INEG, IFAR, ZERO), (NATURAL,), label="nsample")
    p = Path(c, "ISMSimulator()", "o, t, n", "ISMSimulator(max_order=o, tmax=t, nsample=n)", {o: NATURAL}, pre=(absent(t), absent(n)))
    p.alt = {o: (ZERO, HUGE)}
    p.judge("neither tmax nor nsample", "refused", watch={t, n})
    rules = {"fs": ((JNEG, NEG1, FNEG, ZERO, NAN), (BIG,)), "max_order": ((INEG, IFAR), (ZERO, NATURAL)), "tmax": ((JNEG, NEG1, FNEG, ZERO, NAN), (PART, BIG)), "seed": ((INEG, IFAR), (ZERO, NATURAL)),
             "frac_delay_length": ((INEG, IFAR, ZERO, EVEN), (ODD, ONE)), "sinc_lut_granularity": ((INEG, IFAR, ZERO), (NATURAL,)), "image_chunk_size": ((INEG, IFAR, ZERO), (NATURAL,)),
             "accumulate_chunk_size": ((INEG, IFAR, ZERO), (NATURAL,)), "rir_hpf_fc": ((JNEG, NEG1, FNEG, ZERO, NAN), (PART, BIG))}
    A = lambda f: attr(g, f)
    good = {A(f): gs[0] for f, (_, gs) in rules.items()}
    good[A("max_order")] = good[A("seed")] = NATURAL
    one = V(1, 1, par=1, label="one")
    kw = A("rir_hpf_kwargs")
    for f, (bads, goods) in rules.items():
        goods = tuple(one if x is ONE else x for x in goods)
        alt = {A(x): (NOTHING,) for x in ("fs", "max_order", "tmax", "seed")}
        p = Path(c, f"SimulationConfig.replace({f})", "cfg: SimulationConfig, v", f"cfg.replace({f}=v)", {**good, v: goods[0]})
        p.alt = alt
        p.number(v, bads, goods, label=f)
        p = Path(c, "SimulationConfig.validate()", "cfg: SimulationConfig", "cfg.validate()", good)
        p.alt = alt
        p.number(A(f), bads, goods, label=f)
        p = Path(c, "SimulationConfig().validate()", "v", f"SimulationConfig({f}=v).validate()", {v: goods[0]})
        p.number(v, bads, goods, label=f)
    p = Path(c, "SimulationConfig().validate()", "v", 'SimulationConfig(rir_hpf_kwargs={"n": v}).validate()', {v: NATURAL})
    p.number(v, (INEG, IFAR, ZERO), (NATURAL,), label="filter order")
    Path(c, "SimulationConfig().validate()", "", "SimulationConfig().validate()").judge("the default values", "accepted", rule="C10.accept")


def frozen(c):
    P = c.P
    want = ("Room", "Source", "MicrophoneArray", "StaticScene", "DynamicScene", "Scene", "SimulationConfig", "ISMSimulator", "RIRResult")
    seen = set()
    for m in P.modules.values():
        N = Names(m)
        for n in m.tree.body:
            if not isinstance(n, ast.ClassDef) or n.name not in want:
                continue
            seen.add(n.name)
            with c.rule("C10.frozen", n.name):
                ver, why = None, "not a dataclass"
                for d in n.decorator_list:
                    f = d.func if isinstance(d, ast.Call) else d
                    dn = N.dotted(f) or ""
                    if dn.split(".")[-1] == "dataclass":
                        kw = {k.arg: k.value for k in d.keywords} if isinstance(d, ast.Call) else {}
                        fr = kw.get("frozen")
                        if None in kw:
                            ver, why = None, "dataclass options not literal"
                        elif fr is None or isinstance(fr, ast.Constant) and not fr.value:
                            own = any(isinstance(x, ast.FunctionDef) and x.name == "__setattr__" for x in n.body)
                            ver, why = (None if own or n.bases else False), "its fields can be reassigned"
                        elif isinstance(fr, ast.Constant):
                            ver, why = True, "frozen dataclass"
                if any((N.dotted(b) or "").split(".")[-1] == "NamedTuple" for b in n.bases):
                    ver, why = True, "named tuple"
                c.ob("C10.frozen", n.name, ver, why)
    if "Room" not in seen or "SimulationConfig" not in seen:
        raise AnalysisBroken("model classes vanished")
    # a frozen object is only written while it is being built
    INIT = ("__post_init__", "__init__", "__new__", "__setstate__")
    fns = list(all_functions(P))
    names = {}
    for full, m, n, o in fns:
        for w in mentions(n):
            names.setdefault(w, []).append((full, n))

    def building(n, full, seen=()):
        if n.name in INIT:
            return True
        if n.name in seen:
            return True
        users = [(f, k) for f, k in names.get(n.name, []) if k is not n]
        return bool(users) and all(building(k, f, (*seen, n.name)) for f, k in users)
    for full, m, n, o in fns:
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__setattr__" and isinstance(x.func.value, ast.Name) and x.func.value.id == "object" and len(x.args) == 3:
                fld = x.args[1].value if isinstance(x.args[1], ast.Constant) else "*"
                w = f"{full.split('torchrir.')[-1]} writes {fld}"
                fresh = isinstance(x.args[0], ast.Name) and x.args[0].id != "self" and any(isinstance(y, ast.Assign) and isinstance(y.value, ast.Call) and any(isinstance(z, ast.Name) and z.id == x.args[0].id for z in y.targets) for y in ast.walk(n))
                if building(n, full):
                    c.ob("C10.frozen", w, True, "only while the object is being built")
                elif fresh:
                    c.ob("C10.frozen", w, None, "an object made in the same function")
                elif isinstance(x.args[0], ast.Name) and (x.args[0].id == "self" and o is not None and o.name in want or any(isinstance(p, ast.arg) and p.arg == x.args[0].id and p.annotation is not None and mentions(p.annotation) & set(want) for p in ast.walk(n.args))):
                    c.ob("C10.frozen", w, False, "a finished model object is changed")
                else:
                    c.ob("C10.frozen", w, None, "written object not known")


def check(c):
    rooms(c)
    entities(c)
    scenes(c)
    options(c)
    with c.rule("C10.frozen", "models"):
        frozen(c)
