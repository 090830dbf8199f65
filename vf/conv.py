"""Convolution structure: what each accumulated segment convolves, where it lands, and over which loops.

A product of two real transforms taken back to time is lowered to one `conv` node (operand bodies over a bound position,
operand lengths, transform length, output position); reads of zero-initialised buffers are resolved to what the loop that
fills them stored.  Nothing is executed: all obligations are about the symbolic indices."""
from __future__ import annotations
from .law import *
from . import poly, shapes as sh_
from .alg import pconst, padd, mkpoly, cpoly
from .rules import beval, atoms
from .lower import NoLower, add, flat

FQ = S("freq?")
BX = T("bv", 77)
ZEROS = ("torch.zeros", "torch.empty", "t.new_zeros", "t.zeros_like", "t.new_empty")


class ConvLower(Lower):
    def __init__(self, I, bufs=()):
        super().__init__(I)
        self.bufs = set(bufs)

    def _at(self, t, idx):
        if t in self.bufs:
            return T("at", t, *idx)
        return super()._at(t, idx)

    def call(self, t, idx):
        n, a, k = t.args[0].args[0], t.args[1], dict(t.args[2])
        if n in ("t.rfft", "t.irfft") and idx:
            s = self.shape(a[0])
            d = sh_.axis(k.get("dim", const(-1)), len(idx))
            if s is None or d != len(idx) - 1 or k.get("norm", NONE) not in (NONE, const("backward")):
                raise NoLower(t)
            if n == "t.rfft":
                body = self.at(a[0], idx[:-1] + (BX,))
                lx = self.at(s[-1], ())
                nf = self.at(k["n"], ()) if k.get("n", NONE) is not NONE else lx
                return T("dft", body, lx, nf, idx[-1])
            X = self.at(a[0], idx[:-1] + (FQ,))
            nf = k.get("n", NONE)
            if nf is NONE:
                raise NoLower(t)
            r = self.inverse(X, self.at(nf, ()), idx[-1])
            if r is None:
                raise NoLower(t)
            return r
        return super().call(t, idx)

    def inverse(self, X, nf, k):
        if X.op == "red" and X.args[0] == "sum":
            b = self.inverse(X.args[3], nf, k)
            return None if b is None else T("red", "sum", X.args[1], X.args[2], b)
        if X.op == "bin" and X.args[0] in "+-":
            a, b = self.inverse(X.args[1], nf, k), self.inverse(X.args[2], nf, k)
            return None if a is None or b is None else T("bin", X.args[0], a, b)
        fs = []

        def go(x):
            if x.op == "bin" and x.args[0] == "*":
                go(x.args[1])
                go(x.args[2])
            else:
                fs.append(x)
        go(X)
        ds = [x for x in fs if x.op == "dft"]
        rest = [x for x in fs if x.op != "dft"]
        if any(FQ in list(subterms(x)) for x in rest) or any(x.args[3] is not FQ for x in ds):
            return None
        if len(ds) == 1 and not rest:
            return substitute(ds[0].args[0], {BX: k})
        if len(ds) != 2:
            return None
        x, h = ds
        r = T("conv", x.args[0], x.args[1], h.args[0], h.args[1], nf, k, (x.args[2], h.args[2]))
        for q in rest:
            r = T("bin", "*", q, r)
        return r


class Contribution:
    """One accumulation into the output: loops, target microphone, offset, extent, convolved parts."""

    def __init__(self, e):
        self.e = e


def baseof(I, t, views=False):
    """The allocation a loop-carried or merged name stands for (None when not one)."""
    seen = 0
    while t is not None and seen < 40:
        seen += 1
        if t.op in ("mu", "loopout"):
            lid, name = t.args[0], t.args[1]
            li = I.loopinfo.get(lid)
            t = li["init"].get(name) if li else None
            continue
        if t.op == "upd":
            t = t.args[0]
            continue
        if t.op == "phi":
            a, b = baseof(I, t.args[1], views), baseof(I, t.args[2], views)
            return a if a is b else None
        if views and t.op == "item":
            t = t.args[0]
            continue
        n = callname(t)
        if n in ("t.squeeze", "t.contiguous", "t.detach") and cargs(t):
            t = cargs(t)[0]
            continue
        return t
    return None


def events(F):
    return [e for e in F.r.events if e.kind in ("setitem", "mut")]


def one(p):
    return T("bin", "+", p, ONEC)


ONEC, ZEROC = const(1), const(0)


class Study:
    """Every accumulation into the returned tensor, with its symbolic extents."""

    def __init__(self, c, rule, w, F, sig, rir, dims, sigdims, pos=(), extra_ints=(), nnb=(), facts=None):
        self.c, self.rule, self.w, self.F, self.I = c, rule, w, F, F.I
        self.sig, self.rir, self.dims, self.sigdims = sig, rir, dims, sigdims
        I = F.I
        self.evs = events(F)
        self.bufs = []
        for e in self.evs:
            b = baseof(I, e.args[0])
            if b is not None and callname(b) in ZEROS and b not in self.bufs:
                self.bufs.append(b)
        self.L = ConvLower(I, self.bufs)
        self.vars = {}            # loop variable symbol -> (lo, hi, step, loop id)
        self.pos, self.ints, self.nnb, self.facts = tuple(pos), tuple(extra_ints), tuple(nnb), dict(facts or {})
        self.memo = {}
        self.assum = []           # what the partition law gives for the step at hand

    # ---------------------------------------------------------------- terms
    def canon(self, t):
        """Loop positions named by one symbol per loop."""
        if isinstance(t, tuple):
            return tuple(self.canon(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op == "idx":
            r = self.pos_of(t.args[0], t)
        elif t.op == "elem" and callname(t.args[0]) == "builtins.range":
            lo, hi, st = (self.low(x) for x in cargs(t.args[0]))
            v = S(f"i{t.args[1]}")
            self.vars[v] = (lo, hi, st, t.args[1])
            r = v
        else:
            na = tuple(self.canon(x) for x in t.args)
            r = t if na == t.args else (phi(*na) if t.op == "phi" else T(t.op, *na))
        self.memo[t] = r
        return r

    def pos_of(self, lid, t):
        li = self.I.loopinfo.get(lid)
        it = li["iter"] if li else None
        if it is None:
            return t
        while callname(it) == "builtins.enumerate" and len(cargs(it)) == 1:
            it = cargs(it)[0]
        if callname(it) == "builtins.range":
            lo, hi, st = (self.low(x) for x in cargs(it))
            v = S(f"i{lid}")
            self.vars[v] = (lo, hi, st, lid)
            return v if lo is ZEROC and st is ONEC else T("bin", "-", v, lo) if st is ONEC else t
        return t

    def low(self, t):
        return self.canon(self.L.at(t, ()) if t.op != "bv" else t)

    def norms(self):
        ints = set(self.ints) | set(self.vars) | {BX}
        return norms(self.I, ints=ints, nonneg=tuple(self.vars) + (BX,), pos=self.pos, nnb=self.nnb, facts=self.facts)

    def cmp(self, a, b, facts=None):
        cm = Cmp(self.norms())
        r = cm.compare(a, b, facts)
        if r is not True and self.assum and facts is None:
            if self.implies(self.assum, T("cmp", "<=", a, b)) is True and self.implies(self.assum, T("cmp", "<=", b, a)) is True:
                r = True
        self.why = f"{pshow(cm.witness[1], 4)[:120]} instead of {pshow(cm.witness[2], 4)[:120]}" if r is False else ""
        return r

    def ob(self, sub, r, d=""):
        self.c.ob(f"{self.rule}.{sub}", self.w, r, d)

    def leaf(self):
        def go(t):
            if t.op in ("at", "attr", "dimslice", "item") or t.op == "fn" and t.args[0] not in ("max", "min", "floor", "abs"):
                return t
            if t.op == "poly":
                ms = t.args[0]
                if len(ms) == 1 and len(ms[0][0]) > 1:
                    return t
            return None
        return go

    def implies(self, facts, cond):
        N = self.norms()()
        return poly.implies([self.nc(N, f) for f in facts], self.nc(N, cond), self.leaf())

    def nc(self, N, c):
        if c.op in ("and", "or"):
            return T(c.op, *[self.nc(N, x) for x in c.args])
        if c.op == "not":
            return neg(self.nc(N, c.args[0]))
        if c.op == "cmp" and c.args[0] in ("<", "<=", "==", "!="):
            return T("cmp", c.args[0], N.norm(c.args[1]), N.norm(c.args[2]))
        return c

    # ---------------------------------------------------------------- contributions
    def out(self):
        b = baseof(self.I, self.F.ret, True)
        if b is None or callname(b) not in ZEROS:
            return None
        return b

    def contributions(self):
        """(event, target indices, value element, window) of every accumulation into the output; None when not understood."""
        out = self.out()
        if out is None or out not in self.bufs:
            return None
        res = []
        for e in self.evs:
            if baseof(self.I, e.args[0]) is not out:
                continue
            if e.kind != "setitem" or e.fn not in ("+=", "=") or len(e.args) < 3:
                return None
            v = e.args[2]
            if e.fn == "=":
                v = self.added(e, v)
            res.append((e, e.args[1], e.args[2] if v is None else v, v is None))
        return out, res

    def added(self, e, v):
        """out[i] = out[i] + x  ->  x"""
        if v.op == "bin" and v.args[0] == "+":
            for a, b in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
                if a.op == "item" and a.args[1] is e.args[1] and baseof(self.I, a.args[0]) is baseof(self.I, e.args[0]):
                    return b
        return None

    def window(self, out, idx, v):
        """Per output dimension: ('at', index) or ('win', lo, hi, position symbol); and the value element."""
        s = self.I.shape(out)
        its = list(idx.args) if idx.op == "tuple" else [idx]
        if s is None:
            return None
        n = len(s)
        full = []
        for x in its:
            if x is NONE:
                return None
            full += [T("slice", NONE, NONE, NONE)] * (n - len(its) + 1) if x.op == "const" and x.args[0] is Ellipsis else [x]
        full += [T("slice", NONE, NONE, NONE)] * (n - len(full))
        sv = self.I.shape(v)
        if sv is None or len(full) != n:
            return None
        dims, vi, k = [], [], 0
        nw = sum(x.op == "slice" for x in full)
        if len(sv) > nw:
            return None
        lead = nw - len(sv)
        for q, x in enumerate(full):
            if x.op == "slice":
                if x.args[2] not in (NONE, ONEC):
                    return None
                lo = ZEROC if x.args[0] is NONE else self.low(x.args[0])
                hi = self.low(s[q]) if x.args[1] is NONE else self.low(x.args[1])
                p = S(f"p{q}") if s[q] is not ONEC else ZEROC
                ext = None
                if k >= lead:
                    d = sv[k - lead]
                    vi.append(ZEROC if d is ONEC else p)
                    ext = self.low(d)
                dims.append(("win", lo, hi, p, ext))
                k += 1
            else:
                if self.L.tens(x) and self.L.rank(x):
                    return None
                dims.append(("at", self.low(x)))
        el = self.canon(self.L.at(v, tuple(vi)))
        return dims, el

    def parts(self, el):
        """(sums over, conv node) of a lowered contribution."""
        sums = []
        while el.op == "red" and el.args[0] == "sum":
            sums.append((el.args[1], el.args[2]))
            el = el.args[3]
        return (sums, el) if el.op == "conv" else None

    # ---------------------------------------------------------------- obligations
    def fft(self, lx, lh, nf):
        """Transform length is at least the linear length."""
        need = T("bin", "-", T("bin", "+", lx, lh), ONEC)
        rs = [self.fft1(f, N, *fs) for f, N, fs in split(self.norms(), [nf, need, lx, lh], self.facts)]
        return False if False in rs else True if rs and all(r is True for r in rs) else None

    def fft1(self, f, N, got, need, lx, lh):
        Lp = poly.Lin(lambda t: t if t.op in ("at", "attr", "dimslice", "item", "sym") or t.op == "poly" and len(t.args[0]) == 1 and self.pow2(t) is not None else self.leaf()(t))
        try:
            d = poly.ladd(Lp.ex(got), Lp.ex(need), -1)
            cl = [[((poly.lscale(d, -1), True),)]] + [Lp.cond(k if v else neg(k)) for k, v in f.items()]
            for v in list(d[0]):
                q = self.pow2(v)
                if q is not None:
                    cl.append([((poly.ladd(({v: 1}, 0), Lp.ex(N.norm(q)), -1), False),)])
            for p in self.pos:
                cl.append([((poly.ladd(Lp.ex(N.norm(p)), ({}, 1), -1), False),)])
            if not poly.sat(cl + Lp.clauses):
                return True
        except (poly.Big, poly.Nonlinear):
            pass
        big = [x for z in (got, need, lx, lh) for x in subterms(z) if isinstance(x, T) and x.op == "fn" and (x.args[0] in ("trunc",) or x.args[0].startswith("red"))]
        top = {x: S(f"len{i}?") for i, x in enumerate(dict.fromkeys(big)) if not any(x is not y and x in list(subterms(y)) for y in big)}
        got, need, lx, lh = (N.norm(substitute(z, top)) for z in (got, need, lx, lh))
        for v in top.values():
            N.ints.add(v)
            N.nn.add(v)
        if not Cmp(self.norms()).different(got, need):
            return None
        from .ident import Point, Undefined
        import random
        consts = {abs(int(c)) for z in (got, need) + tuple(f) for x in subterms(z) if isinstance(x, T) and x.op == "poly" for _m, c in x.args[0] if c.denominator == 1} | \
                 {c.denominator for z in (got, need) + tuple(f) for x in subterms(z) if isinstance(x, T) and x.op == "poly" for _m, c in x.args[0]}
        atoms_ = [x for x in dict.fromkeys(y for z in (got, need, lx, lh) + tuple(f) for y in subterms(z)) if isinstance(x, T) and x.op == "sym"]
        for sd in range(600):
            P = Point(sd, N, f)
            rnd = random.Random(sd)
            if sd >= 100:          # lengths around the constants of the source, and of every magnitude
                for x in atoms_:
                    P.memo[(x, ())] = max(1, rnd.choice(sorted(consts) or [1]) + rnd.randint(-2, 2)) if rnd.random() < 0.4 else int(10 ** rnd.uniform(0, 5.5))
            try:
                if any(P.cond(k) != v for k, v in f.items()):
                    continue
                a, b, x, y = P.val(got), P.val(need), P.val(lx), P.val(lh)
            except (Undefined, OverflowError, ZeroDivisionError, TypeError, ValueError):
                continue
            if x >= 1 and y >= 1 and a < b:
                return False
        return None

    def pow2(self, v):
        """A lower bound of the variable 2**k: 2**bit_length(q) >= q + 1, 2**ceil(log2 q) >= q."""
        if v.op != "poly" or len(v.args[0]) != 1:
            return None
        (m, co), = v.args[0]
        base = [x for x in m if pconst(x[0]) == 2]
        if len(m) != 1 or not base or co < 1:
            return None
        k = m[0][1]
        best = None
        for x in subterms(k):
            if isinstance(x, T) and x.op == "fn" and x.args[0] == "bit_length":
                rest = padd(k, mkpoly({((x, cpoly(1)),): -1}))
                c = pconst(rest)
                if c is not None and c >= 0:
                    best = T("bin", "+", x.args[1], ONEC)
        return best

    def index(self, sub, got, want, what):
        r = self.cmp(got, want)
        self.ob(sub, r, f"{what}" if r else f"{what}: {self.why or show(got, 3)[:100]}")
        return r

    def cover(self, sub, ix, dim, sums, used, hi=None):
        """The index runs over [0, dim) exactly once."""
        what = f"{sub} index"
        hi = self.low(hi if hi is not None else dim)
        N = self.norms()()
        x = N.norm(ix)
        if dim is ONEC:
            r = self.cmp(ix, ZEROC)
            self.ob(sub, r, f"{what} 0")
            for v in self.vars:
                if v in list(subterms(ix)):
                    used.add(self.vars[v][3])
            return r
        for b, d in sums:
            if x is N.norm(b):
                r = self.cmp(self.low(d), hi)
                self.ob(sub, r, f"{what} summed over {show(d, 2)}" + self.why)
                used.add(b)
                return r
        if x in self.vars:
            v = x
            lo, h, st, lid = self.vars[v]
            used.add(lid)
            if st is not ONEC:
                self.ob(sub, None if st.op != "const" else False, f"{what} advances by {show(st, 2)}")
                return None
            r = self.cmp(lo, ZEROC)
            if r is not True:
                n2 = N.norm(lo)
                if n2 in self.vars:          # chunks [t0, min(t0 + step, n))
                    lo0, h0, st0, lid0 = self.vars[n2]
                    used.add(lid0)
                    rr = [self.cmp(lo0, ZEROC), self.cmp(h0, hi), self.cmp(h, call("builtins.min", T("bin", "+", n2, st0), hi))]
                    r = True if all(q is True for q in rr) else False if False in rr else None
                    self.ob(sub, r, f"{what} in chunks")
                    return r
                self.ob(sub, r, f"{what} starts at {show(lo, 3)[:60]}")
                return r
            r = self.cmp(h, hi)
            self.ob(sub, r, f"{what} runs over all {show(hi, 3)[:60]}" if r else f"{what} range ends at {self.why or show(h, 3)[:80]}")
            return r
        # a constant, or a function that misses or repeats positions
        r = False if pconst(x) is not None else None
        self.ob(sub, r, f"{what} is {pshow(x, 3)[:80]}")
        return r

    def buffer(self, x, lx):
        """What the signal operand reads, through a zero-initialised buffer: (body, effective length)."""
        hit = [a for a in subterms(x) if isinstance(a, T) and a.op == "at" and any(self.canon(b) is a.args[0] or b is a.args[0] for b in self.bufs)]
        if not hit:
            return x, lx
        if len(hit) > 1 or x is not hit[0]:
            return None
        a = hit[0]
        buf = [b for b in self.bufs if self.canon(b) is a.args[0] or b is a.args[0]][0]
        fills = [e for e in self.evs if baseof(self.I, e.args[0]) is buf]
        if len(fills) != 1 or fills[0].kind != "setitem" or fills[0].fn not in ("=", "+=") or len(fills[0].args) < 3:
            return None
        e = fills[0]
        w = self.window(buf, e.args[1], e.args[2])
        if w is None:
            return None
        dims, el = w
        if callname(buf) in ("torch.empty", "t.new_empty"):
            return None
        sub = {}
        read = a.args[1:]
        eff = None
        N = self.norms()()
        for d, i in zip(dims, read):
            if d[0] == "at":
                q = N.norm(d[1])
                vs = [v for v in self.vars if v in list(subterms(q))]
                if len(vs) >= 1:
                    # solve q = i for the innermost loop variable with coefficient one
                    v = max(vs, key=lambda z: self.vars[z][3])
                    rest = N.norm(T("bin", "-", d[1], v))
                    if v in list(subterms(rest)):
                        return None
                    sub[v] = T("bin", "-", i, rest) if pconst(rest) != 0 else i
                    lo, h, st, _ = self.vars[v]
                    self.fillrange = (lo, h, st)
                elif self.cmp(d[1], i) is not True:
                    return None
            else:
                lo, hi, p = d[1:4]
                sub[p] = T("bin", "-", i, lo) if lo is not ZEROC else i
                if BX in list(subterms(i)):
                    eff = (hi, lo, e)
        if eff is None:
            return None
        return substitute(el, sub), substitute(eff[0], sub), e, sub


    # ---------------------------------------------------------------- one contribution
    def accumulate(self, out, e, idx, v, over, law, frames=None):
        """law(t) -> (start, length) of the part that time step t gets (None: the whole signal)."""
        w = self.window(out, idx, v)
        pr = self.parts(w[1]) if w else None
        if pr is None:
            self.ob("sum", None, "accumulated value is not a convolution of two parts")
            return
        dims, el = w
        sums, cv = pr
        x, lx, h, lh, nf, k, nfs = cv.args
        lx, lh, nf = self.low(lx), self.low(lh), self.low(nf)
        if not (h.op == "at" and h.args[0] is self.rir) and x.op == "at" and x.args[0] is self.rir:
            x, lx, h, lh = h, lh, x, lx
        if h.op != "at" or h.args[0] is not self.rir:
            self.ob("response", None, f"response operand {show(h, 3)[:80]}")
            return
        for q in nfs:
            self.ob("fft", self.cmp(self.low(q), nf), "both transforms and the inverse have one length" + self.why)
        if self.I.loopinfo:
            pass
        r = self.fft(lx, lh, nf)
        self.ob("fft", r, "transform no shorter than the linear convolution" if r else "the transform can be shorter than the linear convolution (wrap-around)" if r is False else f"length {show(nf, 4)[:80]}")
        # response indices
        ix = list(h.args[1:])
        dd = dict(zip(self.names, self.dims[:-1]))
        T_, S_, M_, Lr = dd.get("t", ONEC), dd.get("s", ONEC), dd.get("m", ONEC), self.dims[-1]
        used = set()
        rd = self.names
        self.index("response", ix[-1], BX, "whole response is convolved")
        self.index("response", lh, Lr, "response length")
        role = dict(zip([d for d in ("t", "s", "m") if d in rd], ix[:-1]))
        tau, sig, mu = (role.get(q, ZEROC) for q in ("t", "s", "m"))
        if "t" in rd:
            self.cover("steps", tau, T_, sums, used, hi=frames)
        if "s" in rd:
            self.cover("sources", sig, S_, sums, used)
        # microphone: the response's and the output's row agree
        md = dims[0]
        if len(dims) == 2:
            if md[0] == "win":
                p = md[3]
                self.index("mic", mu, p if "m" in rd else ZEROC, "output row and response microphone")
                self.index("mic", md[1], ZEROC, "rows from 0")
                self.index("mic", md[2], self.low(self.I.shape(out)[0]), "all rows")
            else:
                self.index("mic", md[1], mu, "output row and response microphone")
                self.cover("mics", mu if "m" in rd else md[1], M_, sums, used)
        if over:
            for q, d in (("t", T_), ("s", S_)):
                if q in rd and d is not ONEC:
                    x0 = self.norms()().norm(role[q])
                    self.ob("sum", False if x0 in self.vars else None, "each store replaces what the previous source or step left")
        td = dims[-1]
        # signal operand
        bb = self.buffer(x, lx)
        if bb is None:
            self.ob("signal", None, f"signal operand {show(x, 3)[:80]}")
            return
        fill = None
        eff = lx
        if len(bb) == 4:
            x, eff, fill, fsub = bb
            if "t" in rd and getattr(self, "fillrange", None):
                lo, hi, st = self.fillrange
                tl = [v_ for v_ in self.vars if v_ in list(subterms(self.norms()().norm(tau)))]
                if tl:
                    lo2, hi2, st2, _ = self.vars[tl[0]]
                    rr = [self.cmp(lo, lo2), self.cmp(hi, hi2)]
                    self.ob("signal", True if all(q is True for q in rr) else False if False in rr else None, "parts are cut for every step they are convolved with")
            self.readlen(lx, eff, tau)
        if x.op != "at" or x.args[0] is not self.sig:
            self.ob("signal", None, f"signal operand {show(x, 3)[:80]}")
            return
        xi = list(x.args[1:])
        if len(xi) == 2:
            want = ZEROC if self.sigdims[0] is ONEC else sig
            self.index("signal", xi[0], want, "the source's own signal")
        self.start = T("bin", "-", xi[-1], BX)
        st, ln = law(tau)[:2] if law is not None else (ZEROC, self.sigdims[-1])
        self.assum = law(tau)[2] if law is not None else []
        r = self.cmp(self.start, st)
        self.ob("part.start", r, "the part starts where the law says" if r else f"the part starts at {self.why}")
        r = self.cmp(eff, ln, None)
        self.ob("part.length", r, "the part is as long as the law says" if r else f"the part has length {self.why}")
        # where it lands
        if td[0] != "win":
            self.ob("place", None, "single sample stored")
            return
        self.index("place", td[1], self.start, "added at the part's own start")
        self.index("place", k, td[3], "tail aligned")
        full = T("bin", "-", T("bin", "+", eff, Lr), ONEC)
        self.index("tail", T("bin", "-", td[2], td[1]), full, "full tail added")
        # loops without a role repeat the same contribution
        for l in e.loops:
            if l in used:
                continue
            if any(v_[3] == l for k_, v_ in self.vars.items() if k_ in list(subterms(el)) or any(k_ in list(subterms(z)) for d in dims for z in d[1:] if isinstance(z, T))):
                self.ob("once", None, f"loop {l} has no recognised role")
                continue
            it = self.I.loopinfo[l]["iter"] if l in self.I.loopinfo else None
            it = cargs(it)[1] if it is not None and callname(it) == "builtins.range" else None
            r = None if it is None else self.cmp(self.low(it), ONEC)
            self.ob("once", r, "no repetition" if r else "the same contribution is added once per iteration of a further loop")
        self.skips(e, eff, used, law, tau, fill, bb[3] if fill else None)
        return used

    def readlen(self, lx, eff, tau):
        """The read covers what was stored: each bound of it is the part's length or a maximum over all lengths."""
        N = self.norms()()
        x = N.norm(lx)
        alts = list(x.args[1:]) if x.op == "fn" and x.args[0] == "min" else [x]
        for q in alts:
            if self.cmp(q, eff) is True:
                continue
            if any(isinstance(y, T) and y.op == "fn" and y.args[0] in ("redmax", "redamax", "max", "amax") for y in subterms(q)):
                continue
            r = self.implies([T("cmp", "<=", ONEC, eff)], T("cmp", "<=", eff, q))
            self.ob("part.read", True if r else None, "the whole part is read back" if r else f"reads {pshow(q, 4)[:100]} of {show(eff, 4)[:60]}")

    def skips(self, e, ln, used, law, tau, fill, fsub):
        """A part that is skipped is empty."""
        rp = set(self.F.r.state.pc)
        for ev, sub in ((e, None), (fill, fsub)) if fill is not None else ((e, None),):
            for cnd in ev.pc:
                if cnd in rp:
                    continue
                q = self.canon(self.L.cond(cnd))
                if sub:
                    q = substitute(q, sub)
                if not any(v in list(subterms(q)) for v in self.vars):
                    continue
                nz = T("cmp", "<=", ONEC, self.low(ln))
                r = self.redmax(q, tau) or self.implies([nz], q)
                self.ob("skip", r, "only empty parts are skipped" if r else f"a part that is not empty can be skipped: {show(q, 4)[:100]}")
            for l in ev.loops:
                li = self.I.loopinfo.get(l)
                if li and li["breaks"]:
                    self.breaks(l, li, law)

    def redmax(self, q, tau):
        """`largest length is zero` skips nothing."""
        z = q.args[0] if q.op == "not" else None
        if z is not None and z.op == "cmp" and z.args[0] == "==" and z.args[2] is ZEROC:
            return True if any(isinstance(y, T) and y.op == "red" and y.args[0] in ("max", "amax") for y in subterms(z.args[1])) else None
        return None

    def breaks(self, l, li, law):
        v = [x for x, d in self.vars.items() if d[3] == l]
        if not v or law is None:
            self.ob("break", None, "a loop can end early")
            return
        v = v[0]
        w = S("later")
        N = self.norms()
        for pc in li.get("breakpcs", ()):
            cs = [self.canon(self.L.cond(c)) for c in pc]
            l2 = law(w)
            st, ln = law(v)[:2]
            facts = cs + [T("cmp", "<=", one(v), w), T("cmp", "<=", ONEC, l2[1]), T("cmp", "<=", one_end(st, ln), l2[0])]
            r = poly.implies([self.nc(N(), f) for f in facts], FALSE, self.leaf())
            self.ob("break", r, "the loop ends only when nothing is left" if r else "the loop can end while later parts are not empty")


def one_end(st, ln):
    return T("bin", "+", st, ln)
