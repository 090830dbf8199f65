"""Canonical forms: generalised polynomials over opaque atoms, with integer/sign/parity facts.

norm(t) maps a value-flow term to a hash-consed canonical term, so equality is identity.  Views,
broadcasting and dtype conversions are transparent; axis alignment is the business of shapes.py."""
from __future__ import annotations
from fractions import Fraction
from .terms import *

ONEP = T("poly", (((), Fraction(1)),))


def mkpoly(d):
    if any(a.op == "fn" and a.args[0] == "abs" and a.args[1].op != "poly" and pconst(e) is not None and pconst(e).denominator == 1 and pconst(e) % 2 == 0
           for m, c in d.items() for a, e in m):
        d2 = {}
        for m, c in d.items():
            q = {}
            for a, e in m:
                if a.op == "fn" and a.args[0] == "abs" and a.args[1].op != "poly" and pconst(e) is not None and pconst(e).denominator == 1 and pconst(e) % 2 == 0:
                    a = a.args[1]
                q[a] = padd(q[a], e) if a in q else e
            k = tuple(sorted(((a, e) for a, e in q.items() if pconst(e) != 0), key=lambda z: z[0].id))
            d2[k] = d2.get(k, 0) + c
        d = d2
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: tuple((a.id, e.id) for a, e in x[0])))
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] is ONEP:
        return items[0][0][0][0]          # a bare atom
    return T("poly", items)


def cpoly(c):
    return T("poly", (((), Fraction(c)),)) if c != 0 else T("poly", ())


def pd(t):
    """poly term -> dict"""
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, ONEP),): Fraction(1)}


def pconst(t):
    if t.op == "poly":
        if not t.args[0]:
            return Fraction(0)
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


def padd(a, b, k=1):
    d = pd(a)
    for m, c in pd(b).items():
        d[m] = d.get(m, 0) + c * k
    return mkpoly(d)


def pmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = padd(d[a], e) if a in d else e
    return tuple(sorted(((a, e) for a, e in d.items() if pconst(e) != 0), key=lambda x: x[0].id))


def pmul(a, b):
    out = {}
    extra = []
    for m1, c1 in pd(a).items():
        for m2, c2 in pd(b).items():
            m = pmono(m1, m2)
            exp = [(x, e) for x, e in m if x.op == "poly" and pconst(e) is not None and pconst(e).denominator == 1 and pconst(e) > 0]
            if exp:
                rest = tuple((x, e) for x, e in m if (x, e) not in exp)
                r = mkpoly({rest: c1 * c2})
                for x, e in exp:
                    for _ in range(int(pconst(e))):
                        r = pmul(r, x)
                extra.append(r)
            else:
                out[m] = out.get(m, 0) + c1 * c2
    r = mkpoly(out)
    for x in extra:
        r = padd(r, x)
    return r


def ppow(a, e):
    """a ** e with e canonical."""
    c = pconst(e)
    if c == 0:
        return ONEP
    if c == 1:
        return a
    ca = pconst(a)
    if ca is not None and c is not None and c.denominator == 1 and (ca != 0 or c > 0):
        return cpoly(ca ** int(c))
    if ca == 1:
        return ONEP
    d = pd(a)
    if c is not None and c.denominator == 1 and 0 < c <= 6:
        r = ONEP
        for _ in range(int(c)):
            r = pmul(r, a)
        return r
    if len(d) == 1:
        (m, k), = d.items()
        if k == 1 or (c is not None and c.denominator == 1):
            coef = k ** int(c) if k != 1 else Fraction(1)
            return mkpoly({tuple(sorted(((x, pmul(ee, e)) for x, ee in m), key=lambda z: z[0].id)): coef})
        if c == Fraction(1, 2) and k > 0:
            n, q = _isqrt(k.numerator), _isqrt(k.denominator)
            base = mkpoly({m: Fraction(1)})
            if n and q:
                return pmul(cpoly(Fraction(n, q)), ppow(base, e))
    # general: pull the leading coefficient out for integer exponents
    if c is not None and c.denominator == 1 and d:
        lead = sorted(d.items(), key=lambda x: tuple((y.id, z.id) for y, z in x[0]))[0][1]
        if lead not in (0, 1):
            return pmul(cpoly(lead ** int(c)), ppow(pmul(a, cpoly(1 / lead)), e))
    return mkpoly({((a, e),): Fraction(1)})


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else 0


def fn(name, *args):
    return T("fn", name, *args)


DROP1 = {"t.to", "t.detach", "t.clone", "t.contiguous", "t.item", "t.unsqueeze", "t.expand", "t.expand_as", "t.broadcast_to", "builtins.float",
         "t.view_as", "t.numpy", "t.from_numpy", "np.asarray", "np.ascontiguousarray", "t.tolist"}
ELEM = {"sin", "cos", "tan", "exp", "log", "log10", "sinc", "isfinite", "isnan", "isinf", "sign"}


def psub(t, m):
    """Rename atoms inside normalised terms, rebuilding polynomials in canonical order."""
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x.op == "poly":
            r = {}
            for mo, c in x.args[0]:
                p = cpoly(1)
                for a, e in mo:
                    p = pmul(p, ppow(go(a), go(e)))
                for m2, c2 in pd(p).items():
                    r[m2] = r.get(m2, 0) + c * c2
            return mkpoly(r)
        if not contains_any(x, m):
            return x
        return T(x.op, *[go(y) for y in x.args])
    return go(t)


def contains_any(x, m):
    return any(contains(x, k) for k in m)


def pshow(t, d=4):
    """Compact text of a normal form."""
    if not isinstance(t, T):
        return str(t)
    if t.op == "poly":
        out = []
        for m, c in t.args[0]:
            fs = [pshow(a, d - 1) + ("" if pconst(e) == 1 else "^" + pshow(e, d - 1)) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        r = " + ".join(out) if out else "0"
        return r if len(out) <= 1 else f"({r})"
    if d <= 0:
        return "…"
    if t.op == "fn":
        a = t.args[1:]
        if str(t.args[0]).startswith("red"):
            return f"{t.args[0][3:]}[{pshow(a[-1], d - 1)}]"
        return f"{t.args[0]}({', '.join(pshow(x, d - 1) for x in a)})"
    if t.op == "at":
        return f"{show(t.args[0], 2)}[{','.join(pshow(x, d - 1) for x in t.args[1:])}]"
    if t.op == "cmp" and t.args[0] in ("0<", "0<="):
        return f"({t.args[0]} {pshow(t.args[1], d)})"
    if t.op in ("and", "or"):
        return "(" + f" {t.op} ".join(pshow(x, d) for x in t.args) + ")"
    if t.op == "phi":
        return f"({pshow(t.args[0], d - 1)} ? {pshow(t.args[1], d - 1)} : {pshow(t.args[2], d - 1)})"
    return show(t, d)


class Norm:
    def __init__(self, I=None, env=None, ints=(), nonneg=(), facts=None, keep=(), epsmax=None, fold=None, same_slices=True):
        self.I = I
        self.env = dict(env or {})       # term -> canonical term
        self.ints = set(ints)            # canonical atoms known integral
        self.nn = set(nonneg)            # canonical atoms known >= 0
        self.facts = dict(facts or {})   # canonical condition -> bool
        self.keep = set(keep)
        self.epsmax = epsmax             # drop max(x, c) guards with 0 < c <= epsmax
        self.memo = {}
        self.fold = fold                 # hook(term) -> term or None
        self.unknown = []
        self.intb, self.nnb = set(), set()   # bases whose entries are integers / non-negative
        self.slices = set()
        self.unit = set()                    # atoms in [0, 1)

    def pow(self, a, e):
        """a ** e; an even power under a root is a root of the magnitude."""
        c = pconst(e)
        if c is not None and c.denominator == 2:
            d = pd(a)
            if len(d) == 1:
                (m, k), = d.items()
                hit = {x for x, ee in m if pconst(ee) is not None and pconst(ee).denominator == 1 and pconst(ee) % 2 == 0 and self.sign(x) not in ("+", "0+")}
                if hit:
                    rest = mkpoly({tuple(z for z in m if z[0] not in hit): k})
                    r = ppow(rest, e)
                    for x, ee in m:
                        if x in hit:
                            r = pmul(r, ppow(fn("abs", x), pmul(ee, e)))
                    return r
        return ppow(a, e)

    # ------------------------------------------------------------ facts
    def isint(self, t):
        if t.op == "poly":
            return all(c.denominator == 1 and all(self.isint(a) and pconst(e) is not None and pconst(e).denominator == 1 and pconst(e) > 0
                                                  for a, e in m) for m, c in t.args[0])
        if t in self.ints:
            return True
        if t.op == "fn" and t.args[0] in ("floor", "trunc", "round", "len", "dim", "bit_length", "argmax", "argmin"):
            return True
        if t.op in ("idx", "bv", "bc"):
            return True
        if t.op in ("at", "item") and t.args[0] in self.intb:
            return True
        if t.op == "fn" and t.args[0] == "arange":
            return all(self.isint(x) for x in t.args[1:])
        if t.op == "phi":
            return self.isint(t.args[1]) and self.isint(t.args[2])
        if t.op == "fn" and t.args[0] in ("max", "min", "abs"):
            return all(self.isint(x) for x in t.args[1:])
        if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "ext" and t.args[0].args[0] in ("m.choice", "random.choice", "np.random.choice"):
            pool = t.args[1][1 if t.args[0].args[0] == "m.choice" else 0:]
            while pool and pool[0].op == "call" and pool[0].args[0].op == "ext" and pool[0].args[0].args[0] in ("np.array", "np.asarray") and pool[0].args[1]:
                pool = pool[0].args[1]
            return bool(pool) and pool[0].op in ("list", "tuple") and len(pool[0].args) > 0 and all(isinstance(x, T) and (self.isint(x) if x.op != "const" else isinstance(x.args[0], int)) for x in pool[0].args)
        return False

    def sign(self, t):
        """'+' (>0), '0+' (>=0), '-' , '0-' or None"""
        c = pconst(t)
        if c is not None:
            return "+" if c > 0 else "-" if c < 0 else "0"
        if t.op == "poly":
            ss = set()
            for m, c in t.args[0]:
                s = "+" if c > 0 else "-"
                for a, e in m:
                    k = self.sign(a)
                    ce = pconst(e)
                    if ce is not None and ce.denominator == 1 and ce % 2 == 0:
                        k = "+" if k in ("+", "-") else "0+"
                    if k is None:
                        return None
                    if k in ("0+", "0"):
                        s = "0" + s[-1]
                    elif k == "-":
                        s = s[:-1] + ("-" if s[-1] == "+" else "+")
                    elif k == "0-":
                        s = "0" + ("-" if s[-1] == "+" else "+")
                ss.add(s)
            if ss <= {"+", "0+", "0"}:
                return "+" if "+" in ss else "0+"
            if ss <= {"-", "0-", "0"}:
                return "-" if "-" in ss else "0-"
            return None
        if t in self.nn:
            return "0+"
        if ("pos", t) in self.nn:
            return "+"
        if t.op == "fn":
            if t.args[0] in ("abs", "norm", "len", "bit_length"):
                return "0+"
            if t.args[0] == "exp":
                return "+"
            if t.args[0] == "max" and any(self.sign(x) in ("+",) for x in t.args[1:]):
                return "+"
            if t.args[0] == "max" and any(self.sign(x) in ("0+", "0") for x in t.args[1:]):
                return "0+"
            if t.args[0] == "min" and all(self.sign(x) == "+" for x in t.args[1:]):
                return "+"
            if t.args[0] == "min" and all(self.sign(x) in ("0+", "0", "+") for x in t.args[1:]):
                return "0+"
            if t.args[0] in ("floor", "trunc") and self.sign(t.args[1]) in ("+", "0+"):
                return "0+"
            if t.args[0] == "sum" and self.sign(t.args[2]) in ("+", "0+"):
                return "0+"
        if t.op in ("idx", "bv", "bc") or t.op in ("at", "item") and t.args[0] in self.nnb:
            return "0+"
        if t.op == "fn" and t.args[0] in ("redsum", "redprod", "redamax", "redmean") and self.sign(t.args[3]) in ("+", "0+"):
            return "0+"
        if t.op == "phi":
            a, b = self.sign(t.args[1]), self.sign(t.args[2])
            if a and b:
                if a == b:
                    return a
                if {a, b} <= {"+", "0+", "0"}:
                    return "0+"
        return None

    # ------------------------------------------------------------ main
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.env.get(t)
            if r is None:
                r = self._norm(t)
            self.memo[t] = r
        return r

    def atom(self, t):
        return t

    def add(self, a, b):
        return padd(a, b)

    def _norm(self, t):
        if not isinstance(t, T):
            return t
        if self.fold is not None:
            f = self.fold(t, self)
            if f is not None:
                return f
        o = t.op
        n = self.norm
        if o in ("poly", "fn"):
            return t
        if o == "const":
            v = t.args[0]
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
                return t
            if isinstance(v, int):
                return cpoly(v)
            if isinstance(v, float):
                if v != v or v in (float("inf"), float("-inf")):
                    return t
                return cpoly(Fraction(repr(v)))
            return t
        if o == "bin":
            op = t.args[0]
            a, b = n(t.args[1]), n(t.args[2])
            return self.arith(op, a, b, t)
        if o == "un":
            if t.args[0] == "-":
                return pmul(cpoly(-1), n(t.args[1]))
            return self.bnot(n(t.args[1]))
        if o == "phi":
            c = self.cnorm(t.args[0])
            if c is TRUE:
                return n(t.args[1])
            if c is FALSE:
                return n(t.args[2])
            return self.mkphi(c, n(t.args[1]), n(t.args[2]))
        if o in ("cmp", "not", "and", "or", "truth", "isinst"):
            return self.cnorm(t)
        if o == "item":
            return self.item(t)
        if o == "call" and t.args[0].op == "ext":
            return self.ncall(t)
        if o == "pick":
            return T("pick", n(t.args[0]), n(t.args[1]))
        if o == "at":
            r = T("at", t.args[0], *[n(x) for x in t.args[1:]])
            return self.env.get(r, r)
        if o == "red":
            k, b, d, body = t.args
            k = {"max": "amax", "min": "amin"}.get(k, k)
            nb_ = n(body)
            if d.op == "const" and isinstance(d.args[0], int) and 1 <= d.args[0] <= 6 and k in ("sum", "prod", "mean", "any", "all", "amax", "amin") and \
                    any(y.op == "phi" and contains(y.args[0], b) for y in subterms(nb_) if isinstance(y, T)):
                xs = [n(subst_free(body, b, const(i))) for i in range(d.args[0])]
                if k in ("any", "all"):
                    return (self.cor if k == "any" else self.cand)(xs)
                if k in ("amax", "amin"):
                    return self.maxmin(k[1:], xs)
                r = xs[0]
                for x in xs[1:]:
                    r = padd(r, x) if k != "prod" else pmul(r, x)
                return r if k != "mean" else pmul(r, cpoly(Fraction(1, len(xs))))
            return self.red(k, b, n(d), nb_)
        if o == "rangelen":
            lo, hi, st = (n(x) for x in t.args)
            d_ = padd(hi, lo, -1)
            if pconst(st) == 1:
                return d_ if self.sign(d_) in ("+", "0+", "0") else self.maxmin("max", [d_, cpoly(0)])
            return fn("rangelen", lo, hi, st)
        if o == "dimslice" and all(z is NONE or z is T("const", 1) for z in t.args[1].args[2:]):
            d, (lo, hi) = self.norm(t.args[0]), t.args[1].args[:2]

            def edge(z):
                z = self.norm(z)
                return padd(d, z) if pconst(z) is not None and pconst(z) < 0 else z
            return padd(d if hi is NONE else self.maxmin("min", [edge(hi), d]), cpoly(0) if lo is NONE else edge(lo), -1)
        if o == "dimprod":
            r = ONEP
            for x in t.args[0]:
                r = pmul(r, n(x))
            return r
        if o == "attr":
            return T("attr", n(t.args[0]), t.args[1])
        if o == "ext" and t.args[0] in ("math.pi", "torch.pi", "np.pi", "numpy.pi"):
            return T("ext", "pi")
        if o == "ext" and t.args[0] in ("math.inf", "torch.inf", "np.inf", "numpy.inf"):
            return const(float("inf"))
        if o in ("sym", "mu", "idx", "ext", "unknown", "gobj", "kwget", "bv", "bc"):
            return t
        na = tuple(self.deep(x) for x in t.args)
        return T(o, *na)

    def deep(self, x):
        if isinstance(x, T):
            return self.norm(x)
        if isinstance(x, tuple):
            return tuple(self.deep(y) for y in x)
        return x

    def mkphi(self, c, a, b):
        if a is b:
            return a
        if c.op == "not":
            return self.mkphi(c.args[0], b, a)
        return phi(c, a, b)

    def bnot(self, a):
        if a.op in BOOLOPS or a.op == "const":
            return neg(a)
        return T("fn", "bnot", a)

    def arith(self, op, a, b, t=None):
        if op in ("+", "-", "*", "/"):
            if a.op in BOOLOPS:
                a = phi(a, ONEP, cpoly(0))
            if b.op in BOOLOPS:
                b = phi(b, ONEP, cpoly(0))
            a, b = (ONEP if z is TRUE else cpoly(0) if z is FALSE else z for z in (a, b))
        if op == "+":
            return padd(a, b)
        if op == "-":
            return padd(a, b, -1)
        if op == "*":
            return pmul(a, b)
        if op == "/":
            return pmul(a, ppow(b, cpoly(-1)))
        if op == "**":
            return self.pow(a, b)
        if op == "//":
            return self.floor(pmul(a, ppow(b, cpoly(-1))))
        if op == "%":
            if a.op == "const" and isinstance(a.args[0], str):
                return T("fn", "strfmt", a, b)
            q = self.floor(pmul(a, ppow(b, cpoly(-1))))
            return padd(a, pmul(b, q), -1)
        if op == "<<":
            return pmul(a, ppow(cpoly(2), b))
        if op in ("&", "|"):
            if a.op in BOOLOPS | {"const"} and b.op in BOOLOPS | {"const"} or True:
                return (self.cand if op == "&" else self.cor)([a, b])
        return T("fn", "op" + op, a, b)

    def floor(self, p):
        whole, rest, k = {}, {}, Fraction(0)
        for m, c in pd(p).items():
            if m == ():
                k += c
            elif c.denominator == 1 and self.isint(mkpoly({m: Fraction(1)})):
                whole[m] = c
            else:
                rest[m] = c
        if not rest:
            import math
            return padd(mkpoly(whole), cpoly(math.floor(k)))
        import math
        kk = math.floor(k)
        rest[()] = k - kk
        if len(rest) == 2 and rest[()] == 0:
            (m, c), = [z for z in rest.items() if z[0] != ()]
            if len(m) == 1 and c == 1 and m[0][0] in self.unit and pconst(m[0][1]) == 1:
                return padd(mkpoly(whole), cpoly(kk))
        return padd(padd(mkpoly(whole), cpoly(kk)), fn("floor", mkpoly(rest)))

    def trunc(self, p):
        if self.isint(p):
            return p
        s = self.sign(p)
        if s in ("+", "0+", "0"):
            return self.floor(p)
        if s in ("-", "0-"):
            return pmul(cpoly(-1), self.floor(pmul(cpoly(-1), p)))
        return fn("trunc", p)

    def maxmin(self, name, xs):
        flat = []
        for x in xs:
            if x.op == "fn" and x.args[0] == name:
                flat += list(x.args[1:])
            elif x not in flat:
                flat.append(x)
        consts = [pconst(x) for x in flat if pconst(x) is not None]
        rest = [x for x in flat if pconst(x) is None]
        if consts:
            c = max(consts) if name == "max" else min(consts)
            if name == "max" and self.epsmax is not None and 0 < c <= self.epsmax and len(rest) == 1:
                return rest[0]
            if not rest:
                return cpoly(c)
            s = [self.sign(padd(x, cpoly(c), -1)) for x in rest]
            if name == "max" and len(rest) == 1 and s[0] in ("+", "0+", "0"):
                return rest[0]
            if name == "max" and len(rest) == 1 and s[0] in ("-", "0-"):
                return cpoly(c)
            if name == "min" and len(rest) == 1 and s[0] in ("-", "0-", "0"):
                return rest[0]
            if name == "min" and len(rest) == 1 and s[0] in ("+", "0+"):
                return cpoly(c)
            rest.append(cpoly(c))
        if len(rest) == 1:
            return rest[0]
        # drop dominated operands
        keep = []
        for i, x in enumerate(rest):
            dom = False
            for j, y in enumerate(rest):
                if i != j:
                    s = self.sign(padd(x, y, -1))
                    if s == "0" or (s in ("0-", "-") if name == "max" else s in ("0+", "+")):
                        dom = dom or not (s == "0" and i < j)
            if not dom:
                keep.append(x)
        rest = keep or rest
        if len(rest) == 1:
            return rest[0]
        return fn(name, *sorted(rest, key=lambda x: x.id))

    # ------------------------------------------------------------ conditions
    def cnorm(self, c):
        r = self._cnorm(c)
        if r in self.facts:
            return const(self.facts[r])
        if r.op == "not" and r.args[0] in self.facts:
            return const(not self.facts[r.args[0]])
        return r

    def _cnorm(self, c):
        o = c.op
        if o == "const":
            return const(bool(c.args[0])) if c.args[0] is not None else FALSE
        if o == "not":
            return neg(self.cnorm(c.args[0]))
        if o == "and":
            return self.cand([self.cnorm(x) for x in c.args])
        if o == "or":
            return self.cor([self.cnorm(x) for x in c.args])
        if o == "truth":
            x = self.norm(c.args[0])
            if x.op in BOOLOPS or x.op == "const":
                return self.cnorm(x) if x.op == "const" else x
            k = pconst(x)
            if k is not None:
                return const(k != 0)
            return T("truth", x)
        if o == "isinst":
            return T("isinst", self.norm(c.args[0]), c.args[1])
        if o == "cmp":
            op = c.args[0]
            a, b = self.norm(c.args[1]), self.norm(c.args[2])
            if op in ("<", "<="):
                d = padd(b, a, -1)
                s = self.sign(d)
                if op == "<":
                    if s == "+":
                        return TRUE
                    if s in ("-", "0-", "0"):
                        return FALSE
                else:
                    if s in ("+", "0+", "0"):
                        return TRUE
                    if s == "-":
                        return FALSE
                # scale positive content away
                if d.op == "poly" and d.args[0]:
                    k = abs(sorted(d.args[0], key=lambda z: tuple((y.id, w.id) for y, w in z[0]))[-1][1])
                    d = pmul(d, cpoly(1 / k))
                return T("cmp", "0" + op, d, NONE)
            if op in ("==", "!="):
                if a is b:
                    r = TRUE
                else:
                    num = all(x.op not in ("const", "tuple", "list", "fstr") for x in (a, b))
                    if num:
                        d = padd(a, b, -1)
                        k = pconst(d)
                        if k is not None:
                            r = const(k == 0)
                        elif self.sign(d) in ("+", "-"):
                            r = FALSE
                        else:
                            if d.op == "poly":
                                k = sorted(d.args[0], key=lambda z: tuple((y.id, w.id) for y, w in z[0]))[-1][1]
                                d = pmul(d, cpoly(1 / k))
                            r = T("cmp", "0==", d, NONE)
                            for f, v in self.facts.items():
                                if v and f.op == "cmp" and f.args[0] == "0==" and f is not r:
                                    dd = padd(d, f.args[1], -1)
                                    if pconst(dd) not in (None, 0):
                                        r = FALSE
                                        break
                    else:
                        if a.op == "const" and b.op == "const":
                            r = const(a.args[0] == b.args[0])
                        else:
                            if a.op == "const" or (b.op != "const" and b.id < a.id):
                                a, b = b, a
                            r = T("cmp", "==", a, b)
                            for f, v in self.facts.items():
                                if v and f.op == "cmp" and f.args[0] == "==" and f.args[1] is a and f is not r and b.op == "const":
                                    r = FALSE
                                    break
                return neg(r) if op == "!=" else r
            return T("cmp", op, a, b)
        if o == "phi":
            x = self.norm(c)
            return x
        return T("truth", self.norm(c))

    def cand(self, cs):
        cs = [x for x in cs]
        out = []
        for x in cs:
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            for y in (x.args if x.op == "and" else (x,)):
                if y not in out:
                    out.append(y)
        out.sort(key=lambda x: x.id)
        if any(neg(x) in out for x in out):
            return FALSE
        return TRUE if not out else out[0] if len(out) == 1 else T("and", *out)

    def cor(self, cs):
        return neg(self.cand([neg(x) if x.op in BOOLOPS or x.op == "const" else T("not", x) for x in cs]))

    # ------------------------------------------------------------ items / calls
    def shp(self, t):
        return self.I.shape(t) if self.I is not None else None

    def item(self, t):
        b, i = t.args
        n = self.norm
        idx = list(i.args) if i.op == "tuple" else [i]
        if all(x is NONE or (x.op == "slice" and all(y is NONE for y in x.args)) or (x.op == "const" and x.args[0] is Ellipsis) for x in idx):
            return n(b)
        # column k of a (d, m) view of a flat vector == stride
        if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == "t.reshape" and len(b.args[1]) > 1 and b.args[1][1].op == "tuple":
            ds = b.args[1][1].args
            if len(ds) == 2 and ds[1].op == "const" and len(idx) == 2 and idx[0].op == "slice" and idx[1].op == "const":
                return T("fn", "stride", n(b.args[1][0]), n(idx[1]), n(ds[1]))
        if len(idx) == 1 and idx[0].op == "slice" and idx[0].args[1] is NONE and idx[0].args[2].op == "const" and idx[0].args[2].args[0] not in (None, 1):
            return T("fn", "stride", n(b), n(idx[0].args[0]) if idx[0].args[0] is not NONE else cpoly(0), n(idx[0].args[2]))
        idx2 = []
        for x in idx:
            if x is NONE:
                continue
            idx2.append(x)
        while idx2 and idx2[-1].op == "slice" and all(y is NONE for y in idx2[-1].args):
            idx2.pop()
        nb = n(b)
        def ni(x):
            if x.op == "slice":
                lo, hi, stp = x.args
                lo = cpoly(0) if lo is NONE else n(lo)
                if stp is not NONE and pconst(n(stp)) == 1:
                    stp = NONE
                return T("slice", lo, hi if hi is NONE else n(hi), stp if stp is NONE else n(stp))
            if x.op == "tuple":
                return T("tuple", *[ni(y) for y in x.args])
            return n(x)
        return T("item", nb, T("tuple", *[ni(x) for x in idx2]))

    def ncall(self, t):
        name, a, k = t.args[0].args[0], t.args[1], dict(t.args[2])
        n = self.norm
        if name in ("t.to", "t.as_tensor", "t.tensor", "builtins.int"):
            if name == "builtins.int":
                return self.trunc(n(a[0]))
            d = k.get("dtype")
            if a and a[0].op == "list":
                return T("fn", "vec", *[n(x) for x in a[0].args])
            x = n(a[0])
            if d is not None and d.op == "ext" and d.args[0] in ("torch.int64", "torch.int32", "torch.int16", "torch.uint8"):
                return self.trunc(x)
            return x
        if name in DROP1 and a:
            return n(a[0])
        if name == "t.squeeze" and a:
            return n(a[0])
        if name in ("t.reshape", "t.flatten") and a:
            s = self.shp(a[0])
            r = self.shp(t)
            if s is not None and r is not None and [x for x in s if x is not const(1)] == [x for x in r if x is not const(1)]:
                return n(a[0])
            if name == "t.reshape" and a[1].op == "tuple":
                ds = a[1].args
                nd = [d for d in ds if d is not const(1)]
                if len(nd) == 1 and nd[0] is const(-1) and s is not None and len([x for x in s if x is not const(1)]) <= 1:
                    return n(a[0])
                return T("fn", "reshape", n(a[0]), T("tuple", *[n(d) for d in ds]))
            return T("fn", "flatten", n(a[0]))
        if name in ("torch.zeros", "t.zeros_like"):
            return cpoly(0)
        if name in ("torch.ones", "t.ones_like"):
            return ONEP
        if name in ("torch.full",):
            return n(a[1])
        if name == "t.full_like":
            return n(k.get("fill_value", a[1] if len(a) > 1 else NONE))
        if name in ("t.where", "np.where"):
            x, y = (k.get("a"), k.get("b")) if "a" in k else (a[1], a[2])
            c = n(a[0])
            c = c if c.op in BOOLOPS or c.op == "const" else self.cnorm(T("truth", a[0]))
            if c.op == "const":
                return n(x) if c.args[0] else n(y)
            return self.mkphi(c, n(x), n(y))
        if name == "vf.hann":
            n_, per, i_ = n(a[0]), a[1], n(a[2])
            den = n_ if per is TRUE else padd(n_, cpoly(1), -1)
            x = pmul(pmul(cpoly(2), pmul(T("ext", "pi"), i_)), ppow(den, cpoly(-1)))
            return padd(cpoly(Fraction(1, 2)), pmul(cpoly(Fraction(1, 2)), self.even("cos", x)), -1)
        short = name.split(".")[-1]
        if name in ("t.deg2rad", "math.radians", "np.deg2rad", "np.radians") and a:
            return pmul(pmul(n(a[0]), T("ext", "pi")), cpoly(Fraction(1, 180)))
        if name in ("t.rad2deg", "math.degrees", "np.rad2deg") and a:
            return pmul(pmul(n(a[0]), ppow(T("ext", "pi"), cpoly(-1))), cpoly(180))
        if short in ("atan2", "arctan2") and name.split(".")[0] in ("t", "math", "np"):
            return fn("atan2", n(a[0]), n(k.get("other", a[1] if len(a) > 1 else NONE)))
        if name == "m.bit_length":
            return fn("bit_length", n(a[0]))
        if short in ELEM and name.split(".")[0] in ("t", "math", "np") and a:
            if short in ("sinc", "cos"):
                return self.even(short, n(a[0]))
            return fn(short, n(a[0]))
        if short in ("floor", "ceil", "trunc", "round", "abs", "sqrt") and name.split(".")[0] in ("t", "math", "np", "builtins") and a:
            x = n(a[0])
            if short == "floor":
                return self.floor(x)
            if short == "ceil":
                return pmul(cpoly(-1), self.floor(pmul(cpoly(-1), x)))
            if short == "trunc":
                return self.trunc(x)
            if short == "round":
                return x if self.isint(x) else fn("round", x)
            if short == "abs":
                s = self.sign(x)
                if s in ("+", "0+", "0"):
                    return x
                if s in ("-", "0-"):
                    return pmul(cpoly(-1), x)
                return fn("abs", x)
            return self.pow(x, cpoly(Fraction(1, 2)))
        if name == "t.rsqrt":
            return ppow(n(a[0]), cpoly(Fraction(-1, 2)))
        if name in ("math.hypot", "t.hypot", "np.hypot"):
            r = cpoly(0)
            for x in list(a) + [v for kk, v in t.args[2] if kk == "other"]:
                r = padd(r, ppow(n(x), cpoly(2)))
            return self.pow(r, cpoly(Fraction(1, 2)))
        if name in ("builtins.max", "builtins.min") and len(a) > 1:
            return self.maxmin(short, [n(x) for x in a])
        if name in ("t.maximum", "t.minimum", "np.maximum", "np.minimum"):
            xs = [n(x) for x in list(a) + list(k.values())]
            return self.maxmin(short[:3], xs)
        if name == "t.nan_to_num":          # values in a law are finite
            return n(a[0])
        if name in ("t.clamp", "np.clamp"):
            x = n(a[0])
            if "min" in k:
                x = self.maxmin("max", [x, n(k["min"])])
            if "max" in k:
                x = self.maxmin("min", [x, n(k["max"])])
            return x
        if name in ("t.sum", "t.prod", "t.mean", "t.amax", "t.amin", "t.max", "t.min", "np.sum", "np.prod"):
            x = n(a[0])
            return fn(short, self.axes(a[0], k.get("dim")), x)
        if name == "t.norm":
            x = n(a[0])
            o = k.get("ord")
            if o is None:
                return ppow(fn("sum", self.axes(a[0], k.get("dim")), ppow(x, cpoly(2))), cpoly(Fraction(1, 2)))
            return fn("norm", self.axes(a[0], k.get("dim")), x, n(o))
        if name == "t.numel" or name == "builtins.len":
            s = self.shp(a[0])
            if s is not None and name == "t.numel":
                r = ONEP
                for d in s:
                    r = pmul(r, n(d))
                return r
            return fn("len", n(a[0]))
        if name == "torch.arange":
            lo, hi, stp = (n(x) for x in a)
            return fn("arange", lo, hi, stp)
        if name == "builtins.range":
            lo, hi, stp = (n(x) for x in a)
            return fn("range", lo, hi, stp)
        if name == "t.floor_divide":
            return self.arith("//", n(a[0]), n(k.get("other", a[1] if len(a) > 1 else NONE)))
        if name == "math.isinf" or name == "math.isfinite":
            return fn(short, n(a[0]))
        if name in ("math.pi", "torch.pi"):
            return T("ext", "pi")
        return T("call", t.args[0], tuple(n(x) for x in a), tuple((kk, n(v)) for kk, v in t.args[2] if kk not in ("device", "dtype")))

    def red(self, k, b, d, body):
        """Reduction over a bound index: factors free of the index move out, the index itself gets a canonical name."""
        if not contains(body, b):
            if k == "sum":
                return pmul(d, body)
            if k in ("mean", "amax", "amin", "any", "all"):
                return body
        if k == "sum" and body.op == "poly":
            groups = {}
            for m, c in body.args[0]:
                out = tuple((a, e) for a, e in m if not contains(a, b) and not contains(e, b))
                inn = tuple((a, e) for a, e in m if contains(a, b) or contains(e, b))
                groups.setdefault(out, {})
                groups[out][inn] = groups[out].get(inn, 0) + c
            if len(groups) > 1 or () not in groups:
                # only a common outer factor is moved out, so that sums of squares stay sums of squares
                if len(groups) == 1:
                    (out, inn), = groups.items()
                    return pmul(mkpoly({out: Fraction(1)}), self.rename("redsum", b, d, mkpoly(inn)))
        return self.rename("red" + k, b, d, body)

    def rename(self, name, b, d, body):
        depth = 1 + max([x.args[0] for x in subterms(body) if isinstance(x, T) and x.op == "bc"], default=-1)
        c = T("bc", depth)
        body = psub(body, {b: c})
        return fn(name, c, d, body)

    def even(self, name, x):
        """Even functions: one sign is the canonical argument."""
        if x.op == "poly" and x.args[0]:
            lead = sorted(x.args[0], key=lambda z: tuple((y.id, w.id) for y, w in z[0]))[-1][1]
            if lead < 0:
                x = pmul(cpoly(-1), x)
        return fn(name, x)

    def axes(self, x, d):
        if d is None:
            return T("axes", "all")
        s = self.shp(x)
        ds = d.args if d.op == "tuple" else [d]
        out = []
        for y in ds:
            if y.op == "const" and isinstance(y.args[0], int) and s is not None:
                i = y.args[0]
                i = i + len(s) if i < 0 else i
                out.append(s[i] if i < len(s) else y)
            else:
                out.append(y)
        return T("axes", *out)


KNOWNFN = {"floor", "ceil", "round", "abs", "sin", "cos", "tan", "exp", "log", "log10", "sinc", "sum", "prod", "mean", "stride", "arange", "range",
           "redsum", "redprod", "redmean", "redamax", "redamin", "redmax", "redmin", "redany", "redall", "vec", "isinf", "isfinite", "isnan", "len", "bit_length", "amax", "amin", "max", "min", "sign", "norm", "atan2"}


def conditions(t, out=None):
    """Undecided atomic conditions under phi nodes, outermost first."""
    out = [] if out is None else out
    for x in subterms(t):
        if isinstance(x, T) and x.op == "phi":
            for c in atoms_of(x.args[0]):
                if c not in out and (not any(isinstance(y, T) and y.op in ("bc", "bv") for y in subterms(c)) or closed(c)):
                    out.append(c)
    return out


def closed(t, bound=frozenset()):
    """No reduction index occurs outside its reduction."""
    if isinstance(t, tuple):
        return all(closed(x, bound) for x in t)
    if not isinstance(t, T):
        return True
    if t.op in ("bc", "bv"):
        return t in bound
    if t.op == "fn" and isinstance(t.args[0], str) and t.args[0].startswith("red") and len(t.args) >= 4:
        return closed(t.args[2], bound) and closed(t.args[3:], bound | {t.args[1]})
    return all(closed(x, bound) for x in t.args)


def atoms_of(c):
    if c.op in ("and", "or"):
        for x in c.args:
            yield from atoms_of(x)
    elif c.op == "not":
        yield from atoms_of(c.args[0])
    elif c.op != "const":
        yield c


def subst_free(t, b, v, memo=None):
    """Replace the bound index b, respecting reductions that bind it again."""
    memo = {} if memo is None else memo
    if t is b:
        return v
    if t in memo:
        return memo[t]
    if not contains(t, b):
        r = t
    elif t.op == "red" and t.args[1] is b:
        r = T("red", t.args[0], b, subst_free(t.args[2], b, v, memo), t.args[3])
    else:
        go = lambda a: subst_free(a, b, v, memo) if isinstance(a, T) else tuple(go(x) for x in a) if isinstance(a, tuple) else a
        r = T(t.op, *[go(a) for a in t.args])
    memo[t] = r
    return r


def pdiv(p, q):
    """Exact polynomial division p / q, or None."""
    def order(m):
        return tuple(sorted(((a.id, pconst(e)) for a, e in m), reverse=True))

    def lead(d):
        return max(d, key=order)
    dq = pd(q)
    if not dq or any(pconst(e) is None for m in list(dq) + list(pd(p)) for a, e in m):
        return None
    lq = lead(dq)
    out, rem = cpoly(0), p
    for _ in range(64):
        dr = pd(rem)
        if not dr:
            return out
        lr = lead(dr)
        have = dict(lr)
        for a, e in lq:
            if a not in have or pconst(have[a]) < pconst(e):
                return None
        m = pmono(lr, tuple((a, pmul(cpoly(-1), e)) for a, e in lq))
        t = mkpoly({m: dr[lr] / dq[lq]})
        out = padd(out, t)
        rem = padd(rem, pmul(t, q), -1)
    return None


def cancel(t):
    """Cancel polynomial factors against their own inverses."""
    for _ in range(4):
        if t.op != "poly":
            return t
        invs = []
        for m, c in t.args[0]:
            for a, e in m:
                if a.op == "poly" and pconst(e) == -1 and a not in invs:
                    invs.append(a)
        done = False
        for q in invs:
            co, rest = {}, {}
            for m, c in t.args[0]:
                if any(a is q and pconst(e) == -1 for a, e in m):
                    co[tuple(z for z in m if z[0] is not q)] = c
                else:
                    rest[m] = c
            r = pdiv(mkpoly(co), q)
            if r is not None:
                t = padd(r, mkpoly(rest))
                done = True
                break
        if not done:
            return t
    return t


def refloor(N, t):
    """Re-evaluate the floors of a canonical form after a substitution."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "poly":
            r = cpoly(0)
            for mo, c in x.args[0]:
                p = cpoly(c)
                for a, e in mo:
                    p = pmul(p, ppow(go(a), go(e)))
                r = padd(r, p)
        elif x.op == "fn" and x.args[0] == "floor":
            r = N.floor(go(x.args[1]))
        else:
            r = T(x.op, *[go(y) for y in x.args])
        memo[x] = r
        return r
    return go(t)


def split(mk, terms, facts=None, limit=256):
    """Normal forms of terms on every combination of the conditions they depend on: (facts, Norm, forms)."""
    todo = [dict(facts or {})]
    n = 0
    while todo:
        f = todo.pop()
        n += 1
        if n > limit:
            return
        N = mk(f)
        xs = [N.norm(t) for t in terms]
        cs = [c for x in xs for c in conditions(x) if c not in f]
        if not cs:
            yield f, N, xs
            continue
        todo.append({**f, cs[0]: False})
        todo.append({**f, cs[0]: True})


class Cmp:
    """Compare two terms for semantic equality: True / False (definitely different) / None."""

    def __init__(self, mk, limit=512, trusted=None):
        self.mk, self.limit, self.trusted = mk, limit, trusted
        self.n = 0
        self.witness = None

    def compare(self, a, b, facts=None):
        self.n = 0
        self.witness = None
        return self._go(a, b, dict(facts or {}))

    def _go(self, a, b, facts):
        self.n += 1
        if self.n > self.limit:
            return None
        N = self.mk(facts)
        x, y = N.norm(a), N.norm(b)
        if x is y:
            return True
        cs = [c for c in conditions(x) + conditions(y) if c not in facts]
        if not cs:
            return self.leaf(x, y, facts)
        c = cs[0]
        res = True
        for v in (True, False):
            f = dict(facts)
            f[c] = v
            r = self._go(a, b, f)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def leaf(self, x, y, facts):
        ok = self.different(x, y)
        if ok:
            from .ident import separated
            s = separated(self.mk(facts), x, y, facts)
            if s:
                self.witness = (facts, x, y)
                return False
            return True if s is False else None
        return None

    def different(self, x, y):
        """Positive evidence of difference: everything involved is understood."""
        for z in (x, y):
            for s in subterms(z):
                if not isinstance(s, T):
                    continue
                if s.op in ("unknown", "phi", "maybe", "mu", "loopout", "undef"):
                    return False
                if s.op == "fn" and s.args[0] not in KNOWNFN:
                    return False
                if s.op == "at" and s.args[0].op in ("bin", "un", "cmp", "list", "listof", "tuple", "upd"):
                    return False        # an element of an expression that could not be lowered
                if s.op == "call" and self.trusted is not None and not self.trusted(s):
                    return False
        fx = {s.args[0] for s in subterms(x) if isinstance(s, T) and s.op == "fn"}
        fy = {s.args[0] for s in subterms(y) if isinstance(s, T) and s.op == "fn"}
        for g in ({"trunc", "floor"}, {"trunc", "round"}):
            if fx ^ fy and (fx ^ fy) & {"trunc"}:
                return False
        return True
