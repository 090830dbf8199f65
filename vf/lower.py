"""Index lowering: the scalar value of one entry of a tensor-valued term.

`Lower(I).at(t, (i, j, ...))` walks the value-flow term of a tensor and pushes the indices through every layout operation
(views, broadcasting, slicing, masking, stacking, reductions), leaving scalar arithmetic over `at(base, indices)` leaves.
Layout refactorings disappear; exchanged axes, unsliced operands and misaligned masks show up as different indices."""
from __future__ import annotations
from .terms import *
from . import shapes as sh_

INTD = {"torch.int64", "torch.int32", "torch.int16", "torch.int8", "torch.uint8"}
PASS = {"t.detach", "t.clone", "t.contiguous", "t.as_tensor", "t.tensor", "np.ascontiguousarray", "t.requires_grad_", "np.asarray", "np.array", "t.numpy", "t.from_numpy", "torch.from_numpy"}
UNARY = {"t.abs", "t.floor", "t.ceil", "t.round", "t.exp", "t.log", "t.sqrt", "t.sin", "t.cos", "t.tan", "t.sinc", "t.sign", "t.isfinite", "t.isnan",
         "t.trunc", "t.rsqrt", "t.log10", "t.clamp", "t.nan_to_num", "t.deg2rad", "t.rad2deg", "t.acos", "t.asin", "t.atan", "t.log1p", "t.expm1", "t.tanh", "t.sigmoid", "t.log2"}
BINARY = {"t.maximum", "t.minimum", "t.atan2", "t.hypot", "t.floor_divide", "t.remainder", "t.fmod", "np.maximum", "np.minimum", "np.add"}
RED = {"t.sum", "t.prod", "t.mean", "t.norm", "t.amax", "t.amin", "t.any", "t.all", "t.max", "t.min"}
SCALARF = {"builtins.max", "builtins.min", "builtins.abs", "builtins.float", "builtins.int", "builtins.round", "math.sqrt", "math.exp", "math.log", "math.log10", "math.floor", "math.ceil", "math.cos", "math.sin", "math.tan", "math.atan2", "math.radians", "math.isinf", "math.pow", "t.item", "math.hypot"}
ZERO, ONE = const(0), const(1)


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return T("bin", "+", a, b)


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if ZERO in (a, b):
        return ZERO
    return T("bin", "*", a, b)


def mix(*comps):
    comps = [c for c in comps if c[1] is not ONE]
    if len(comps) == 1:
        return comps[0][0]
    return T("mix", tuple(comps)) if comps else ZERO


def flat(i):
    """Numeric value of an index."""
    if i.op != "mix":
        return i
    r = ZERO
    for c, d in i.args[0]:
        r = add(mul(r, d), flat(c))
    return r


def num(t):
    """Replace mixed-radix indices by their numeric value everywhere."""
    m = {x: flat(x) for x in subterms(t) if isinstance(x, T) and x.op == "mix"}
    return substitute(t, m) if m else t


class Lower:
    def __init__(self, I, leaves=(), shapes=None, fold=None, same=None):
        self.I, self.leaves, self.memo = I, dict(leaves) if isinstance(leaves, dict) else {x: x for x in leaves}, {}
        self.bad = []            # (term, why): provable misalignment
        self.opaque = []
        self.extra = dict(shapes or {})
        self.fold = fold
        self.same = same or (lambda a, b: a is b)
        self.reads = []          # (table term, its length, index) of every table lookup

    # ------------------------------------------------------------- helpers
    def shape(self, t):
        s = self.extra.get(t)
        return s if s is not None else self.I.shape(t)

    def tens(self, t):
        return bool({"Tensor", "ndarray"} & set(self.I.ty(t))) or t in self.extra

    def rank(self, t):
        if t.op == "const":
            return 0
        s = self.shape(t)
        if s is not None:
            return len(s)
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in SCALARF and not any(self.rank(x) for x in t.args[1]) and len(t.args[1]) > (t.args[0].args[0] in ("builtins.max", "builtins.min")):
            return 0
        if t.op == "bin" and self.rank(t.args[1]) == 0 and self.rank(t.args[2]) == 0:
            return 0
        ty = self.I.ty(t)
        if ty and not ({"Tensor", "ndarray", "list", "tuple"} & set(ty)):
            return 0
        return None

    def leaf(self, t, idx):
        if not idx:
            return t
        return T("at", t, *idx)

    def give(self, t, idx, why=""):
        if t not in [x for x, _ in self.opaque]:
            self.opaque.append((t, why))
        return self.leaf(t, idx)

    def bcast(self, t, x, idx):
        """Entry of operand x of an elementwise operation with result index idx."""
        r = self.rank(x)
        if r is None:
            raise NoLower(x)
        if r == 0:
            return self.at(x, ())
        s = self.shape(x)
        if r > len(idx):
            raise NoLower(x)
        part = idx[len(idx) - r:]
        return self.at(x, tuple(ZERO if d is ONE else i for i, d in zip(part, s)))

    # ------------------------------------------------------------- main
    def at(self, t, idx=()):
        k = (t, tuple(idx))
        r = self.memo.get(k)
        if r is None:
            try:
                r = self._at(t, tuple(idx))
            except NoLower as e:
                r = self.give(t, idx, str(e))
            self.memo[k] = r
        return r

    def cond(self, c, idx=()):
        if c.op in ("and", "or"):
            return T(c.op, *[self.cond(x, idx) for x in c.args])
        if c.op == "not":
            return neg(self.cond(c.args[0], idx))
        return self.at(c, idx)

    def _at(self, t, idx):
        if self.fold is not None:
            r = self.fold(self, t, idx)
            if r is not None:
                return r
        if t in self.leaves:
            return self.leaf(self.leaves[t], idx)
        o = t.op
        if o == "const":
            return t
        if o == "bin":
            return T("bin", t.args[0], self.bcast(t, t.args[1], idx), self.bcast(t, t.args[2], idx))
        if o == "cmp":
            if t.args[0] in ("is", "in", "not in"):
                return t
            if not idx and any(self.rank(x) is None for x in t.args[1:3]):
                return t
            return T("cmp", t.args[0], self.bcast(t, t.args[1], idx), self.bcast(t, t.args[2], idx))
        if o == "un":
            return T("un", t.args[0], self.at(t.args[1], idx))
        if o == "phi":
            u = uncache(t)
            if u is not None:
                return self.at(u, idx)
            if t.args[1].op == "undef":
                return self.at(t.args[2], idx)
            if t.args[2].op == "undef":
                return self.at(t.args[1], idx)
            ra, rb = self.rank(t.args[1]), self.rank(t.args[2])
            if ra == rb or ra is None or rb is None:
                return phi(self.cond(t.args[0]), self.at(t.args[1], idx), self.at(t.args[2], idx))
            return phi(self.cond(t.args[0]), self.bcast(t, t.args[1], idx), self.bcast(t, t.args[2], idx))
        if o in ("and", "or", "not"):
            return self.cond(t, idx)
        if o == "truth":
            return t if idx else T("truth", self.at(t.args[0], ()))
        if o == "elem":
            if not self.tens(t.args[0]) or self.shape(t.args[0]) is None:
                if idx:
                    return self.leaf(t, idx)
                b = t.args[0]
                if b.op == "call" and b.args[0] is T("ext", "builtins.range"):
                    return T("elem", T("call", b.args[0], tuple(self.at(x, ()) for x in b.args[1]), b.args[2]), t.args[1])
                return t
            return self.at(t.args[0], (T("idx", t.args[1]),) + idx)
        if o == "upd":
            return self.upd(t, idx)
        if o == "item":
            return self.item(t, idx)
        if o in ("list", "tuple"):
            if idx:
                return self.sel([(lambda x: (lambda: self.at(x, idx[1:])))(x) for x in t.args], idx[0])
            return t
        if o == "call" and t.args[0].op == "ext":
            return self.call(t, idx)
        if o == "pick" and not idx:
            return t
        if o == "dimslice" and not idx and t.args[1].op == "slice":
            g = lambda x: x if x is NONE else self.at(x, ()) if self.rank(x) == 0 else x
            return T("dimslice", g(t.args[0]), T("slice", *[g(x) for x in t.args[1].args]), *t.args[2:])
        return self.leaf(t, idx)

    def sel(self, fs, i):
        if i.op == "const" and isinstance(i.args[0], int) and -len(fs) <= i.args[0] < len(fs):
            return fs[i.args[0]]()
        vals = [f() for f in fs]
        if len(set(vals)) == 1:
            return vals[0]
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = phi(T("cmp", "==", i, const(k)), vals[k], r)
        return r

    # ------------------------------------------------------------- indexing
    def item(self, t, idx):
        b, i = t.args
        while b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in ("t.tolist", "builtins.list", "builtins.tuple") and b.args[1] and self.shape(b.args[1][0]) is not None:
            b = b.args[1][0]
        s = self.shape(b)
        if s is None or b.op in ("tuple", "list", "listof", "dict"):
            if not idx and i.op == "const" and b.op == "attr" and b.args[1] == "shape":
                return t
            if not idx and b.op in ("tuple", "list", "listof", "dict", "attr", "kwget"):
                return t
            # unknown rank: a masked selection of an unknown base is a leaf of its own
            raise NoLower(b)
        its = list(i.args) if i.op == "tuple" else [i]
        nd = 0
        for x in its:
            if x is NONE or (x.op == "const" and x.args[0] is Ellipsis):
                continue
            m = self.mask(x)
            nd += len(m) if m else 1
        out, k, p = [], 0, 0
        adv = None

        def take():
            nonlocal p
            if p >= len(idx):
                raise NoLower(t)
            p += 1
            return idx[p - 1]
        for x in its:
            if x is NONE:
                take()
            elif x.op == "const" and x.args[0] is Ellipsis:
                for _ in range(len(s) - nd):
                    out.append(take())
                    k += 1
            elif x.op == "slice":
                lo, hi, st = x.args
                j = take()
                d = s[k]
                if st is NONE or st is ONE:
                    st = ONE
                elif not (st.op == "const" and isinstance(st.args[0], int) and st.args[0] > 0):
                    st = self.at(st, ())
                if lo is NONE:
                    lo = ZERO
                elif lo.op == "const" and isinstance(lo.args[0], int) and lo.args[0] < 0:
                    lo = T("bin", "+", d, lo)
                elif lo.op == "un" and lo.args[0] == "-":
                    lo = T("bin", "+", d, self.at(lo, ()))
                else:
                    lo = self.at(lo, ())
                out.append(add(lo, mul(flat(j) if (lo is not ZERO or st is not ONE) else j, st)))
                k += 1
            else:
                m = self.mask(x)
                if m:
                    if adv is not None:
                        raise NoLower(t)
                    j = take()
                    if j.op != "sel" or len(j.args[1]) != len(m):
                        if len(m) == 1 and len(its) == 1:
                            return T("at", T("item", b, i), j, *idx[p:]) if idx else t
                        raise NoLower(t)
                    a, c = self.at(x, j.args[1]), self.at(j.args[0], j.args[1])
                    if not self.same(a, c):
                        self.bad.append((t, f"values and positions are selected by different masks"))
                    out += list(j.args[1])
                    k += len(m)
                    adv = ()
                elif self.tens(x) and self.rank(x):
                    r = self.rank(x)
                    if adv is None:
                        adv = tuple(take() for _ in range(r))
                    i = self.bcast(t, x, adv)
                    out.append(i)
                    if len(s) == 1:
                        self.reads.append((b, self.at(s[0], ()), i))
                    k += 1
                else:
                    if x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                        v = x if x.args[0] >= 0 else (const(s[k].args[0] + x.args[0]) if s[k].op == "const" else T("bin", "+", s[k], x))
                    else:
                        v = self.at(x, ())
                        if v.op == "un" and v.args[0] == "-":
                            v = T("bin", "+", s[k], v)
                    out.append(v)
                    k += 1
        while k < len(s):
            out.append(take())
            k += 1
        if p != len(idx):
            raise NoLower(t)
        return self.at(b, tuple(out))

    def upd(self, t, idx):
        """Entry after a store: the stored value where the index is covered, the old entry elsewhere."""
        b, i, v = t.args
        s = self.shape(b)
        its = list(i.args) if i.op == "tuple" else [i]
        if s is None or len(idx) != len(s) or any(x is NONE for x in its):
            raise NoLower(t)
        nd = sum(len(self.mask(x) or (0,)) for x in its if not (x.op == "const" and x.args[0] is Ellipsis))
        full = []
        for x in its:
            full += [T("slice", NONE, NONE, NONE)] * (len(s) - nd) if x.op == "const" and x.args[0] is Ellipsis else [x]
        full += [T("slice", NONE, NONE, NONE)] * (len(s) - sum(len(self.mask(x) or (0,)) for x in full))
        conds, vi, k = [], [], 0
        for x in full:
            m = self.mask(x)
            if m:
                conds.append(self.at(x, idx[k:k + len(m)]))
                if self.rank(v) == 0:
                    pass
                elif len(full) == 1 and self.rank(v) == 1:
                    vi.append(T("sel", x, tuple(idx[k:k + len(m)])))
                else:
                    raise NoLower(t)
                k += len(m)
                continue
            j, d = idx[k], s[k]
            if x.op == "slice":
                lo, hi, st = x.args
                if st is not NONE and st is not ONE:
                    raise NoLower(t)

                def edge(z):
                    if z.op == "const" and isinstance(z.args[0], int):
                        return z if z.args[0] >= 0 else const(d.args[0] + z.args[0]) if d.op == "const" else T("bin", "+", d, z)
                    return self.at(z, ())
                l = ZERO if lo is NONE else edge(lo)
                if l is not ZERO:
                    conds.append(T("cmp", "<=", l, flat(j)))
                if hi is not NONE:
                    conds.append(T("cmp", "<", flat(j), edge(hi)))
                vi.append(j if l is ZERO else T("bin", "-", flat(j), l))
            elif self.tens(x) and self.rank(x):
                raise NoLower(t)
            else:
                q = self.at(x, ())
                if q.op == "const" and isinstance(q.args[0], int) and q.args[0] < 0:
                    q = const(d.args[0] + q.args[0]) if d.op == "const" else T("bin", "+", d, q)
                conds.append(T("cmp", "==", flat(j), q))
            k += 1
        if self.rank(v) is None:
            raise NoLower(v)
        new = self.bcast(t, v, tuple(vi)) if self.rank(v) else self.at(v, ())
        old = self.at(b, idx)
        conds = [c for c in conds if c is not TRUE]
        out = []
        for c in conds:
            if c.op == "cmp" and c.args[1].op == "const" and c.args[2].op == "const":
                x, y = c.args[1].args[0], c.args[2].args[0]
                r = {"==": x == y, "<": x < y, "<=": x <= y}[c.args[0]]
                if not r:
                    return old
                continue
            out.append(c)
        if not out:
            return new
        return phi(T("and", *out) if len(out) > 1 else out[0], new, old)

    def mask(self, x):
        if not self.tens(x) or x.op == "const":
            return None
        if sh_.is_bool(self.I, x):
            return self.shape(x)
        return None

    # ------------------------------------------------------------- calls
    def call(self, t, idx):
        n, a, k = t.args[0].args[0], t.args[1], dict(t.args[2])
        n = sh_.NPT.get(n, n)
        if n == "t.to":
            x = self.at(a[0], idx)
            d = k.get("dtype") or k.get("device_or_dtype")
            if d is not None and d.op == "ext" and d.args[0] in INTD:
                return T("call", t.args[0], (x,), (("dtype", d),))
            if d is not None and d.op == "ext" and d.args[0] == "torch.bool":
                return T("cmp", "!=", x, ZERO) if x.op not in BOOLOPS else x
            return x
        if n in PASS and a or n == "t.tolist" and idx and self.shape(a[0]) is not None:
            return self.at(a[0], idx)
        if n in ("builtins.float", "t.item") and a and not idx:
            r = self.rank(a[0])
            return self.at(a[0], (ZERO,) * (r or 0))
        if n in UNARY:
            x = self.at(a[0], idx)
            kk = tuple((q, self.bcast(t, v, idx) if self.rank(v) else self.at(v, ())) for q, v in t.args[2])
            rest = tuple(self.at(v, ()) for v in a[1:])
            return T("call", t.args[0], (x,) + rest, kk)
        if n in BINARY:
            return T("call", t.args[0], tuple(self.bcast(t, x, idx) for x in a), tuple((q, self.bcast(t, v, idx)) for q, v in t.args[2]))
        if n in ("t.where", "np.where"):
            x, y = (k["a"], k["b"]) if "a" in k else (a[1], a[2])
            return T("call", t.args[0], (self.bcast(t, a[0], idx), self.bcast(t, x, idx), self.bcast(t, y, idx)), ())
        if n in ("torch.zeros", "t.zeros_like", "torch.empty", "t.empty_like"):
            return const(0.0) if "zeros" in n else self.leaf(t, idx)
        if n in ("torch.ones", "t.ones_like"):
            return const(1.0)
        if n == "torch.full":
            return self.at(a[1], ())
        if n == "t.full_like":
            return self.at(k.get("fill_value", a[1] if len(a) > 1 else NONE), ())
        if n == "torch.eye" and len(idx) == 2:
            return phi(T("cmp", "==", idx[0], idx[1]), const(1.0), const(0.0))
        if n == "torch.arange" and len(idx) == 1:
            lo, hi, st = (self.at(x, ()) for x in a)
            return add(lo, mul(idx[0] if lo is ZERO and st is ONE else flat(idx[0]), st))
        if n == "vf.grid":
            k0 = a[0].args[0]
            return self.at(a[1 + k0], (idx[k0],))
        if n == "torch.linspace" and len(idx) == 1:
            lo, hi, m = (self.at(x, ()) for x in a)
            if m is ONE:
                return lo
            return T("bin", "+", lo, T("bin", "/", T("bin", "*", flat(idx[0]), T("bin", "-", hi, lo)), T("bin", "-", m, ONE)))
        if n == "np.linspace" and len(idx) == 1 and len(a) >= 2 and not {"endpoint", "axis", "retstep"} & set(k):
            lo, hi = self.at(a[0], ()), self.at(a[1], ())
            m = self.at(k["num"] if "num" in k else a[2], ())
            if m is ONE:
                return lo
            return T("bin", "+", lo, T("bin", "/", T("bin", "*", flat(idx[0]), T("bin", "-", hi, lo)), T("bin", "-", m, ONE)))
        if n == "np.repeat" and idx:
            s, d = self.shape(a[0]), sh_.axis(k.get("axis", a[2] if len(a) > 2 else None), len(idx))
            if s is None or d is None or s[d] is not ONE:
                raise NoLower(t)
            return self.at(a[0], idx[:d] + (ZERO,) + idx[d + 1:])
        if n == "np.tile" and idx:
            s = self.shape(a[0])
            r = sh_.tile(a, k, s)
            if r is None or len(r) != len(idx):
                raise NoLower(t)
            return self.at(a[0], tuple(i if y is ONE else ZERO for i, y in zip(idx, r)))
        if n in ("m.copy", "m.astype") and "ndarray" in self.I.ty(t):
            return self.at(a[0], idx)
        if n == "torch.hann_window" and len(idx) == 1:
            return T("call", T("ext", "vf.hann"), (self.at(a[0], ()), k.get("periodic", a[1] if len(a) > 1 else TRUE), flat(idx[0])), ())
        if n == "t.reshape" or n == "t.flatten":
            return self.reshape(t, a[0], idx)
        if n == "t.unsqueeze":
            d = sh_.axis(k.get("dim"), len(idx))
            if d is None:
                raise NoLower(t)
            return self.at(a[0], idx[:d] + idx[d + 1:])
        if n == "t.squeeze":
            s = self.shape(a[0])
            if s is None:
                raise NoLower(t)
            if "dim" in k:
                d = sh_.axis(k["dim"], len(s))
                if d is None:
                    raise NoLower(t)
                return self.at(a[0], idx[:d] + (ZERO,) + idx[d:]) if len(idx) == len(s) - 1 else self.at(a[0], idx)
            it = iter(idx)
            return self.at(a[0], tuple(ZERO if d is ONE else next(it) for d in s))
        if n in ("t.expand", "t.repeat", "t.broadcast_to"):
            s = self.shape(a[0])
            if s is None:
                raise NoLower(t)
            ds = list(a[1].args) if len(a) > 1 and a[1].op == "tuple" else None
            part = idx[len(idx) - len(s):]
            out = []
            for q, (i, d) in enumerate(zip(part, s)):
                if d is ONE:
                    out.append(ZERO)
                elif n == "t.repeat":
                    rep = ds[len(ds) - len(s) + q] if ds else None
                    if rep is ONE:
                        out.append(i)
                    elif i.op == "mix" and len(i.args[0]) == 2 and i.args[0][1][1] is d:
                        out.append(i.args[0][1][0])
                    else:
                        raise NoLower(t)
                else:
                    out.append(i)
            return self.at(a[0], tuple(out))
        if n == "t.transpose":
            d0, d1 = sh_.axis(k.get("dim0"), len(idx)), sh_.axis(k.get("dim1"), len(idx))
            if d0 is None or d1 is None or max(d0, d1) >= len(idx):
                raise NoLower(t)
            l = list(idx)
            l[d0], l[d1] = l[d1], l[d0]
            return self.at(a[0], tuple(l))
        if n == "t.permute":
            ds = [sh_.axis(d, len(idx)) for d in a[1].args]
            if None in ds:
                raise NoLower(t)
            l = [None] * len(idx)
            for i, d in zip(idx, ds):
                l[d] = i
            return self.at(a[0], tuple(l))
        if n == "t.diff" and len(a) == 1 and idx and not ({"prepend", "append"} & set(k)) and k.get("n", ONE) is ONE:
            d = sh_.axis(k.get("dim", T("const", -1)), len(idx))
            if d is None:
                raise NoLower(t)
            up = tuple(T("bin", "+", i, ONE) if q == d else i for q, i in enumerate(idx))
            return T("bin", "-", self.at(a[0], up), self.at(a[0], idx))
        if n == "t.flip":
            s = self.shape(a[0])
            d = k.get("dims") or (a[1] if len(a) > 1 else None)
            ds = [d] if d is not None and d.op == "const" else list(d.args) if d is not None and d.op in ("tuple", "list") else None
            if s is None or ds is None:
                raise NoLower(t)
            ax = [sh_.axis(x, len(s)) for x in ds]
            return self.at(a[0], tuple(T("bin", "-", T("bin", "-", s[q], ONE), flat(i)) if q in ax else i for q, i in enumerate(idx)))
        if n == "t.stack" and a[0].op == "list":
            d = sh_.axis(k.get("dim", ZERO), len(idx))
            if d is None:
                raise NoLower(t)
            rest = idx[:d] + idx[d + 1:]
            return self.sel([(lambda x: (lambda: self.at(x, rest)))(x) for x in a[0].args], idx[d])
        if n in ("t.stack", "t.tensor") and a[0].op == "listof":
            r = sh_.comprow(self.I, a[0])
            d = sh_.axis(k.get("dim", ZERO), len(idx)) if r is not None and idx else None
            if d is None:
                raise NoLower(t)
            row, el = self.at(r[0], idx[:d] + idx[d + 1:]), self.at(r[1], ())
            return substitute(row, {el: idx[d] if r[3] is ZERO else T("bin", "+", self.at(r[3], ()), idx[d])})
        if n == "t.cat" and a[0].op == "list":
            return self.cat(t, a[0].args, k, idx)
        if n in RED:
            return self.red(t, n, a, k, idx)
        if n == "t.take" and ("index" in k or len(a) > 1):
            ix = k.get("index", a[1] if len(a) > 1 else None)
            if self.rank(a[0]) == 1:
                i = self.at(ix, idx)
                self.reads.append((a[0], self.at(self.shape(a[0])[0], ()), i))
                return self.at(a[0], (i,))
            raise NoLower(t)
        if n == "t.index_select":
            d = sh_.axis(k.get("dim"), len(idx))
            ix = k.get("index")
            if d is None or ix is None:
                raise NoLower(t)
            return self.at(a[0], idx[:d] + (self.at(ix, (idx[d],)),) + idx[d + 1:])
        if n == "t.masked_select":
            return self.item(T("item", a[0], k.get("mask", a[1] if len(a) > 1 else NONE)), idx)
        if n == "t.cross" and idx:
            y = k.get("other", a[1] if len(a) > 1 else None)
            s = self.shape(t)
            d = sh_.axis(k.get("dim", const(-1)), len(idx))
            if y is None or s is None or d is None or s[d] is not const(3):
                raise NoLower(t)
            e = lambda x, q: self.bcast(t, x, idx[:d] + (const(q),) + idx[d + 1:])
            return self.sel([(lambda p, q: (lambda: T("bin", "-", T("bin", "*", e(a[0], p), e(y, q)), T("bin", "*", e(a[0], q), e(y, p)))))(p, q)
                             for p, q in ((1, 2), (2, 0), (0, 1))], idx[d])
        if n == "t.outer" and len(idx) == 2:
            y = k.get("vec2", a[1] if len(a) > 1 else None)
            return T("bin", "*", self.at(a[0], (idx[0],)), self.at(y, (idx[1],)))
        if not idx:
            if n.startswith(("math.", "builtins.")) or n == "m.bit_length":
                return T("call", t.args[0], tuple(self.at(x, ()) if not self.rank(x) else x for x in a), t.args[2])
            return t
        raise NoLower(t)

    def cat(self, t, xs, k, idx):
        d = sh_.axis(k.get("dim", ZERO), len(idx))
        if d is None:
            raise NoLower(t)
        off, r = ZERO, None
        parts = []
        for x in xs:
            s = self.shape(x)
            if s is None or len(s) != len(idx):
                raise NoLower(t)
            parts.append((x, off, s[d]))
            off = add(off, s[d])
        for x, o, n in reversed(parts):
            j = T("bin", "-", flat(idx[d]), o) if o is not ZERO else idx[d]
            v = self.at(x, idx[:d] + (j,) + idx[d + 1:])
            r = v if r is None else phi(T("cmp", "<", flat(idx[d]), T("bin", "+", o, n)), v, r)
        return r

    def red(self, t, n, a, k, idx):
        x = a[0]
        s = self.shape(x)
        if s is None:
            raise NoLower(t)
        if n in ("t.max", "t.min") and "dim" in k:
            raise NoLower(t)
        if n == "t.norm" and "ord" in k:
            raise NoLower(t)
        if "dim" in k:
            ds = k["dim"].args if k["dim"].op in ("tuple", "list") else [k["dim"]]
            ax = [sh_.axis(d, len(s)) for d in ds]
            if None in ax:
                raise NoLower(t)
        else:
            ax = list(range(len(s)))
        keep = k.get("keepdim", FALSE) is TRUE
        it = iter(idx)
        nb = 1 + max([b.args[0] for i in idx for b in subterms(i) if isinstance(b, T) and b.op == "bv"], default=-1)
        out, bvs = [], []
        for q, d in enumerate(s):
            if q in ax:
                if keep:
                    next(it)
                b = T("bv", nb + len(bvs))
                bvs.append((b, d))
                out.append(b if d is not ONE else ZERO)
            else:
                out.append(next(it))
        body = self.at(x, tuple(out))
        kind = n[2:]
        if kind == "norm":
            body = T("bin", "**", body, const(2))
            kind = "sum"
        for b, d in reversed(bvs):
            if d is ONE:
                continue
            body = T("red", kind, b, d, body)
        return T("bin", "**", body, const(0.5)) if n == "t.norm" else body

    # ------------------------------------------------------------- reshape
    def reshape(self, t, x, idx):
        s, o = self.shape(x), self.shape(t)
        if s is None or o is None or len(o) != len(idx):
            raise NoLower(t)
        # output index as an ordered list of (component, size)
        comps = []
        for i, d in zip(idx, o):
            if d is ONE:
                continue
            if i.op == "mix":
                comps += list(i.args[0])
            else:
                comps.append((i, d))
        rest = list(comps)
        out = []
        for q, d in enumerate(s):
            if d is ONE:
                out.append(ZERO)
                continue
            got = self.eat(rest, d)
            if got is None:
                want = sorted(x.id for x in self.fac(d))
                if len(rest) >= 1:
                    # the leading component has another extent than this axis: entries are regrouped across axes
                    have = [f.id for _, z in rest for f in self.fac(z)]
                    full = sorted(f.id for y in s[q:] for f in self.fac(y))
                    if sorted(have) == full and all(y.op in ("sym", "const", "dimprod", "mulit", "dimslice", "rangelen", "nz", "bin") for y in s[q:]):
                        self.bad.append((t, f"reshape from ({', '.join(show(y, 3) for y in s)}) regroups entries across axes of extent ({', '.join(show(z, 3) for _, z in comps)})"))
                raise NoLower(t)
            out.append(got)
        if any(d is not ONE for _, d in rest):
            raise NoLower(t)
        return self.at(x, tuple(out))

    def fac(self, d):
        return sh_.factors(d)

    def eat(self, rest, d):
        """Take leading components whose sizes multiply to d."""
        if not rest:
            return None
        if rest[0][1] is d:
            return rest.pop(0)[0]
        if d.op == "const" and rest[0][1].op == "const" and d.args[0] > rest[0][1].args[0]:
            p, k = 1, 0
            while k < len(rest) and rest[k][1].op == "const" and p < d.args[0]:
                p *= rest[k][1].args[0]
                k += 1
            if p == d.args[0]:
                got = mix(*rest[:k])
                del rest[:k]
                return got
        if d.op == "const" and rest[0][1].op == "const" and rest[0][1].args[0] % d.args[0] == 0:
            i, z = rest[0]
            inner = const(z.args[0] // d.args[0])
            rest[0] = (T("bin", "%", flat(i), inner), inner)
            return T("bin", "//", flat(i), inner)
        need = list(self.fac(d))
        mine = self.fac(rest[0][1])
        if len(need) < len(mine):
            # one index has to be split: only constant-size symbolic division
            i, z = rest[0]
            left = list(mine)
            for f in need:
                if f in left:
                    left.remove(f)
                else:
                    return None
            inner = sh_.prod(left)
            rest[0] = (T("bin", "%", flat(i), inner), inner)
            return T("bin", "//", flat(i), inner)
        got = []
        while need:
            if not rest:
                return None
            i, z = rest[0]
            fz = self.fac(z)
            for f in fz:
                if f in need:
                    need.remove(f)
                else:
                    return None
            got.append((i, z))
            rest.pop(0)
        return mix(*got)


class NoLower(Exception):
    pass
