"""Where a tensor lives and what it is made of: device and dtype of every term, with the operations that mix them."""
from __future__ import annotations
from .terms import *
from .rules import beval, callname, cargs, ckw

CPU = const("cpu")
DEFAULT = T("ext", "default")
I64, BOOL, F64 = T("ext", "torch.int64"), T("ext", "torch.bool"), T("ext", "torch.float64")
INTS = {"torch.int64", "torch.long", "torch.int32", "torch.int", "torch.int16", "torch.short", "torch.uint8", "torch.int8"}
FLOATS = {"torch.float32", "torch.float", "torch.float64", "torch.double", "torch.float16", "torch.half", "torch.bfloat16", "default"}
LOW = {"torch.float32", "torch.float", "torch.float16", "torch.half", "torch.bfloat16", "default"}
SAME = {"torch.long": I64, "torch.double": F64, "torch.float": T("ext", "torch.float32"), "torch.half": T("ext", "torch.float16")}
FRESH = {"zeros", "ones", "empty", "full", "arange", "linspace", "logspace", "eye", "rand", "randn", "randint", "randperm", "normal", "hann_window", "hamming_window", "blackman_window",
         "bartlett_window", "kaiser_window", "tril_indices", "triu_indices", "fftfreq", "rfftfreq", "range"}
GIVEN = {"tensor", "as_tensor", "asarray"}
LIKE = {"zeros_like", "ones_like", "empty_like", "full_like", "rand_like", "randn_like", "randint_like"}
PREDS = {"isfinite", "isnan", "isinf", "any", "all", "eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "logical_not", "logical_xor", "signbit", "isclose"}
TOPY = {"item", "tolist", "numel", "dim", "ndim", "float", "int", "len", "bool", "size", "is_floating_point", "allclose", "equal", "stride", "is_complex", "get_default_dtype", "bit_length", "element_size", "nelement", "is_tensor"}
TOINT = {"argmax", "argmin", "argsort", "count_nonzero", "searchsorted", "bucketize", "nonzero"}
FIRST = {"take", "gather", "index_select", "scatter", "scatter_add", "index_add", "index_copy", "masked_fill", "masked_select", "take_along_dim", "scatter_add_", "index_add_", "scatter_", "index_copy_", "index_put_", "copy_", "fill_", "masked_fill_"}
INEXACT = {"linspace", "logspace", "hann_window", "hamming_window", "blackman_window", "bartlett_window", "kaiser_window", "sinc", "sin", "cos", "exp", "sqrt", "log", "tan", "deg2rad", "rsqrt", "fftfreq", "rfftfreq"}
UNARY_OK = {"reshape", "unsqueeze", "squeeze", "detach", "clone", "contiguous", "expand", "expand_as", "repeat", "permute", "transpose", "flatten", "clamp", "abs", "floor", "ceil", "round", "trunc", "frac", "exp", "log", "log2", "log10",
            "sqrt", "rsqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "tanh", "sinc", "sign", "neg", "norm", "vector_norm", "sum", "mean", "prod", "cumsum", "cumprod", "max", "min", "amax", "amin", "std", "var", "median", "sort",
            "flip", "roll", "rfft", "irfft", "fft", "ifft", "pad", "view", "squeeze_", "deg2rad", "rad2deg", "floor_divide", "remainder", "fmod", "pow", "mul", "add", "sub", "div", "true_divide", "maximum", "minimum", "matmul", "mm", "bmm", "dot", "outer",
            "einsum", "cross", "lerp", "nan_to_num", "select", "narrow", "unfold", "movedim", "split", "chunk", "unbind", "stack", "cat", "hypot", "square", "reciprocal", "diff", "broadcast_to", "conj", "real", "imag", "angle", "cov", "triu", "tril", "addcmul", "inverse", "conv1d", "interpolate", "normalize", "to_dense", "t", "mT", "index", "meshgrid", "view_as", "reshape_as", "ravel", "swapaxes", "clip", "relu", "softmax", "sigmoid", "logsumexp", "take_", "add_", "mul_", "sub_", "div_", "clamp_", "zero_", "copysign", "float_power", "exp2", "expm1", "log1p", "arctan2", "heaviside", "dist", "cdist", "tile", "repeat_interleave", "concat", "hstack", "vstack", "dstack", "column_stack", "norm_", "mean_", "multiply", "subtract", "divide", "negative"}


class P:
    __slots__ = ("dev", "dt", "py", "np")

    def __init__(self, dev=None, dt=None, py=None, np=False):
        self.dev, self.dt, self.py, self.np = dev, dt, py, np

    def __eq__(self, o):
        return isinstance(o, P) and (self.dev, self.dt, self.py, self.np) == (o.dev, o.dt, o.py, o.np)

    def __repr__(self):
        s = lambda x: show(x, 3) if isinstance(x, T) else str(x)
        return f"py:{self.py}" if self.py else f"({s(self.dev)}, {s(self.dt)})"


UNK = P()
PYF, PYI, PYB, PYX = P(py="float"), P(py="int"), P(py="bool"), P(py="other")


def cat(dt):
    if dt is None:
        return None
    if dt.op == "ext":
        n = dt.args[0]
        return "bool" if n == "torch.bool" else "int" if n in INTS else "float" if n in FLOATS else None
    return "float"


class Places:
    def __init__(self, I, alias=None, decide=None, ints=()):
        self.I, self.alias, self.decide, self.ints = I, dict(alias or {}), decide, set(ints)
        self.memo, self.bad = {}, []
        self.splits = []

    # ------------------------------------------------------------ tags
    def dev(self, t):
        if not isinstance(t, T):
            return None
        if t in self.alias:
            return self.alias[t]
        if t.op == "const":
            return CPU if isinstance(t.args[0], str) and t.args[0].startswith("cpu") else None
        if t.op == "sym":
            return t
        if t.op == "attr" and t.args[1] == "device":
            p = self.of(t.args[0])
            return p.dev
        if t.op == "phi":
            d = self.cond(t.args[0])
            if d is not None:
                return self.dev(t.args[1 if d else 2])
            a, b = self.dev(t.args[1]), self.dev(t.args[2])
            return a if a is b else None
        if t.op == "call" and callname(t) == "torch.device" and cargs(t):
            return self.dev(cargs(t)[0])
        return None

    def dtype(self, t):
        if not isinstance(t, T):
            return None
        if t in self.alias:
            return self.alias[t]
        if t.op == "ext":
            return SAME.get(t.args[0], t) if t.args[0].startswith("torch.") else None
        if t.op == "sym":
            return t
        if t.op == "attr" and t.args[1] == "dtype":
            return self.of(t.args[0]).dt
        if t.op == "phi":
            d = self.cond(t.args[0])
            if d is not None:
                return self.dtype(t.args[1 if d else 2])
            a, b = self.dtype(t.args[1]), self.dtype(t.args[2])
            return a if a is b else None
        if t.op == "call" and callname(t) == "torch.get_default_dtype":
            return DEFAULT
        return None

    def assuming(self, c, value):
        """The same analysis in the runs where condition c has the given value."""
        old = self.decide
        r = Places(self.I, self.alias, lambda x: value if x is c else old(x) if old else None, self.ints)
        r.absent(c, value)
        return r

    def absent(self, c, value):
        while c.op == "not":
            c, value = c.args[0], not value
        if value and c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
            self.memo[c.args[1]] = PYX

    def cond(self, c):
        return beval(c, self.atom)

    def atom(self, c):
        if self.decide is not None:
            r = self.decide(c)
            if r is not None:
                return r
        if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
            x = c.args[1]
            while x.op == "phi":
                d = self.cond(x.args[0])
                if d is None:
                    return None
                x = x.args[1 if d else 2]
            return True if x is NONE else False if x.op == "attr" and x.args[1] in ("device", "dtype") or x.op == "ext" else None
        if c.op == "truth":
            c = c.args[0]
        if c.op == "call" and (callname(c) or "").split(".")[-1] == "is_floating_point" and cargs(c):
            k = cat(self.of(cargs(c)[0]).dt)
            return None if k is None else k == "float"
        return None

    # ------------------------------------------------------------ terms
    def of(self, t):
        if not isinstance(t, T):
            return UNK
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = UNK
            r = self.memo[t] = self._of(t)
        return r

    def rank0(self, t):
        return self.I.shape(t) == ()

    def vec(self, t):
        """Certainly more than a scalar tensor?"""
        s = self.I.shape(t)
        if s is not None:
            return len(s) > 0
        if t.op == "call":
            n = (callname(t) or "").split(".")[-1]
            a = cargs(t)
            if n in ("arange", "linspace", "logspace") or n.endswith("_window") or n in ("stack", "cat", "meshgrid"):
                return True
            if n in ("zeros", "ones", "empty", "full", "rand", "randn") and a and a[0].op == "tuple":
                return len(a[0].args) > 0
            if n in GIVEN and a and a[0].op in ("list", "listof"):
                return True
            if n in UNARY_OK and a and n not in ("norm", "sum", "mean", "max", "min", "prod", "dot", "std", "var", "median", "amax", "amin", "reshape", "select", "vector_norm") or n in ("to", "where") and a:
                return any(self.vec(x) for x in a[:3])
        if t.op in ("bin", "cmp"):
            return self.vec(t.args[1]) or self.vec(t.args[2])
        if t.op == "un":
            return self.vec(t.args[-1])
        if t.op == "phi":
            d = self.cond(t.args[0])
            if d is not None:
                return self.vec(t.args[1 if d else 2])
            for x, y in (t.args[1:], t.args[:0:-1]):
                if self.cached(x):
                    return self.vec(y)
            return self.vec(t.args[1]) and self.vec(t.args[2])
        if t.op == "item" and t.args[1].op == "slice":
            return True
        if t.op == "item" and t.args[1].op == "tuple" and any(x.op == "slice" for x in t.args[1].args):
            return True
        if t.op == "item" and self.vec(t.args[0]) and self.vec(t.args[1]):
            return True
        return False

    def note(self, kind, t, a, b):
        if not any(x[0] == kind and x[1] is t for x in self.bad):
            self.bad.append((kind, t, a, b))

    def join(self, t, parts, dtypes=True):
        """Common place of the operands of t."""
        ps = [(x, self.of(x)) for x in parts if isinstance(x, T)]
        tens = [(x, p) for x, p in ps if not p.py]
        if not tens:
            if ps and all(p.py for _, p in ps):
                return PYF if any(p.py == "float" for _, p in ps) else ps[0][1]
            return UNK
        if any(p.np for _, p in tens):
            return P(np=True)
        devs = []
        unknown = False
        for x, p in tens:
            if self.rank0(x) and p.dev is CPU:
                continue
            if p.dev is None:
                unknown = True
            elif p.dev not in [d for _, d in devs]:
                devs.append((x, p.dev))
        dev = devs[0][1] if len(devs) == 1 and not unknown else None
        if len(devs) > 1:
            cpu = [x for x, d in devs if d is CPU]
            if not cpu or all(self.vec(x) for x in cpu):
                self.note("device", t, devs[0][1], devs[1][1])
            dev = None
        if not devs and not unknown:
            dev = CPU
        if not dtypes:
            return P(dev, None)
        if any(p.dt is None for _, p in tens):
            return P(dev, None)
        cats = {cat(p.dt) for _, p in tens}
        if None in cats:
            return P(dev, None)
        order = ("bool", "int", "float")
        top = max(cats, key=order.index)
        pyf = any(p.py == "float" for _, p in ps)
        if any(p.py not in (None, "float", "int", "bool") for _, p in ps) and top != "float":
            return P(dev, None)
        if top != "float" and pyf:
            return P(dev, DEFAULT)
        if top != "float" and any(p.py == "int" for _, p in ps) and top == "bool":
            return P(dev, I64)
        ts = []
        for x, p in tens:
            if cat(p.dt) == top and not self.rank0(x) and p.dt not in [d for _, d in ts]:
                ts.append((x, p.dt))
        if not ts:
            ts = [(x, p.dt) for x, p in tens if cat(p.dt) == top][:1]
            if any(self.I.shape(x) != () for x, p in tens) and any(self.I.shape(x) is None for x, p in tens):
                pass
        if len(ts) == 1:
            return P(dev, ts[0][1])
        if top == "float":
            sym = [d for _, d in ts if d.op != "ext"]
            fix = [(x, d) for x, d in ts if d.op == "ext"]
            if sym and fix and all(self.vec(x) for x, d in fix) and any(d.args[0] in LOW for x, d in fix):
                self.note("dtype", t, sym[0], fix[0][1])
            elif len(sym) > 1:
                self.note("dtypes", t, sym[0], sym[1])
        return P(dev, None)

    def pytype(self, t):
        ty = self.I.ty(t)
        if "Tensor" in ty or "ndarray" in ty:
            return None
        ty = frozenset(ty) - {"None"} or ty
        for n, p in (("float", PYF), ("int", PYI), ("bool", PYB)):
            if ty and ty <= {n}:
                return p
        if ty and ty <= {"int", "float", "bool", "number"}:
            return P(py="num")
        if ty and not ty & {"Tensor", "list", "tuple", "ndarray", "Sequence", "Iterable", "object", "Any"}:
            return PYX
        return None

    def literal(self, t):
        """(dtype, tensors) of nested literal data."""
        if t.op in ("list", "tuple", "listof", "set"):
            parts = t.args if t.op != "listof" else tuple(t.args[1]) + tuple(t.args[2])
            dts, ten = [], []
            for x in parts:
                d, tt = self.literal(x)
                dts.append(d)
                ten += tt
            if not dts or None in dts:
                return None, ten
            return (DEFAULT if DEFAULT in dts else I64 if I64 in dts else dts[0]), ten
        p = self.of(t)
        if p.py == "float":
            return DEFAULT, []
        if p.py == "int":
            return I64, []
        if p.py == "bool":
            return BOOL, []
        if p.py is None and not p.np and (p.dev is not None or p.dt is not None):
            return p.dt, [p]
        return None, []

    def _of(self, t):
        o = t.op
        if o == "const":
            v = t.args[0]
            return PYB if isinstance(v, bool) else PYI if isinstance(v, int) else PYF if isinstance(v, (float, complex)) else PYX
        if o == "phi":
            d = self.cond(t.args[0])
            if d is not None:
                return self.of(t.args[1 if d else 2])
            a, b = t.args[1], t.args[2]
            for x, y in ((a, b), (b, a)):
                if self.cached(x) or x is UNDEF_:
                    return self.of(y)
            pa, pb = self.of(a), self.of(b)
            if not pa.py and not pb.py and (None not in (pa.dev, pb.dev) and pa.dev is not pb.dev or None not in (pa.dt, pb.dt) and pa.dt is not pb.dt):
                if t.args[0] not in self.splits:
                    self.splits.append(t.args[0])
            return self.both(pa, pb)
        if o in ("cmp",):
            j = self.join(t, t.args[1:], False)
            return PYB if j.py else P(j.dev, BOOL)
        if o in ("and", "or", "not", "truth", "isinst"):
            return PYB
        if o == "bin":
            j = self.join(t, t.args[1:])
            if t.args[0] == "/" and not j.py and cat(j.dt) in ("int", "bool"):
                return P(j.dev, DEFAULT)
            if t.args[0] == "/" and j.py:
                return PYF
            return j
        if o == "un":
            return self.of(t.args[-1])
        if o == "upd":
            return self.of(t.args[0])
        if o in ("elem", "pick", "item") and isinstance(t.args[0], T):
            b = t.args[0]
            if o == "elem" and b.op == "call" and callname(b) == "builtins.range":
                return PYI
            if b.op == "attr" and b.args[1] == "shape":
                return PYI
            if b.op in ("tuple", "list") and o == "item" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int) and -len(b.args) <= t.args[1].args[0] < len(b.args):
                return self.of(b.args[t.args[1].args[0]])
            if b.op == "phi" and o == "item" and all(x.op in ("tuple", "list") or x.op == "attr" and x.args[1] == "shape" for x in self.leaves(b)):
                d = self.cond(b.args[0])
                if d is not None:
                    return self.of(T("item", b.args[1 if d else 2], t.args[1]))
                return self.both(self.of(T("item", b.args[1], t.args[1])), self.of(T("item", b.args[2], t.args[1])))
            if b.op in ("tuple", "list", "listof") or o == "pick":
                xs = [b] if o == "pick" else b.args if b.op != "listof" else tuple(b.args[1]) + tuple(b.args[2])
                r = None
                for x in xs:
                    p = self.of(x)
                    r = p if r is None else self.both(r, p)
                return r or UNK
            if b.op == "call" and (callname(b) or "").split(".")[-1] in ("max", "min", "sort", "median", "topk", "mode") and o == "item" and t.args[1] is const(1) and "dim" in ckw(b):
                p = self.of(b)
                return P(p.dev, I64)
            py = self.pytype(t)
            if py is not None:
                return py
            p = self.of(b)
            if o == "item" and not p.py and not p.np and p.dev is not None and p.dev is not CPU:
                pass
            if p.py and p.py != "other":
                return p
            if p.dev is not None or p.dt is not None or p.np:
                return p
            return self.root(t)
        if o in ("mu", "loopout"):
            if o == "mu":
                li = self.I.loopinfo.get(t.args[0], {})
                x = li.get("init", {}).get(t.args[1])
                return self.of(x) if isinstance(x, T) else UNK
            r = None
            for x in (t.args[2],) + tuple(t.args[3]):
                if isinstance(x, T) and x.op not in ("mu", "undef"):
                    p = self.of(x)
                    r = p if r is None else self.both(r, p)
            return r or UNK
        if o == "idx":
            return PYI
        if o == "call":
            return self.call(t)
        if o in ("tuple", "list", "listof"):
            return self.join(t, t.args if o != "listof" else tuple(t.args[1]) + tuple(t.args[2])) if t.args else UNK
        if o == "star":
            return self.of(t.args[0])
        return self.root(t)

    def root(self, t):
        ty = self.I.ty(t)
        if self.given(t) and "Tensor" in ty and ty <= {"Tensor", "None"}:
            a, b = T("attr", t, "device"), T("attr", t, "dtype")
            if t in self.ints:
                return P(self.alias.get(a, a), I64)
            return P(self.alias.get(a, a), self.alias.get(b, b))
        return self.pytype(t) or UNK

    def leaves(self, t):
        return self.leaves(t.args[1]) + self.leaves(t.args[2]) if t.op == "phi" else [t]

    def given(self, t):
        """Is the term an input: a parameter, a field of one, or an element of such a container?"""
        if t.op == "sym":
            return True
        if t.op == "attr":
            return self.given(t.args[0])
        if t.op in ("item", "elem"):
            return self.given(t.args[0]) and "Tensor" not in self.I.ty(t.args[0])
        return False

    def cached(self, x):
        if x.op == "call" and (callname(x) or "").split(".")[-1] == "get" and cargs(x):
            return cargs(x)[0].op == "gobj"
        return x.op == "item" and x.args[0].op == "gobj"

    def both(self, a, b):
        if a == b:
            return a
        if a.py and b.py:
            return P(py="num")
        if a.py == "other" or b.py == "other":
            return b if a.py == "other" else a
        if a.py or b.py or a.np or b.np:
            return UNK
        return P(a.dev if a.dev is b.dev else None, a.dt if a.dt is b.dt else None)

    def call(self, t):
        full = callname(t)
        if full is None:
            return UNK
        n = full.split(".")[-1]
        a, k = cargs(t), ckw(t)
        lib = full.startswith(("torch.", "t."))
        if full in ("builtins.int", "builtins.len", "builtins.round"):
            return PYI
        if full == "builtins.float" or full.startswith("math."):
            return PYI if n in ("ceil", "floor") else PYF
        if full in ("builtins.min", "builtins.max", "builtins.abs", "builtins.sum"):
            j = self.join(t, a)
            return j
        if full.startswith(("np.", "numpy.", "scipy.")):
            return P(np=True)
        if n in ("listrep", "builtins.list", "builtins.tuple", "list", "tuple", "reversed", "sorted") and a:
            return self.of(a[0])
        if self.cached(t) or not lib:
            return self.pytype(t) or UNK
        dev, dt = (self.dev(k["device"]) if "device" in k else None), (self.dtype(k["dtype"]) if "dtype" in k else None)
        if n in FRESH:
            if "device" not in k:
                dev = CPU
            if "dtype" not in k:
                dt = DEFAULT
                if n in ("randint", "randperm", "tril_indices", "triu_indices"):
                    dt = I64
                if n in ("arange", "range"):
                    ps = [self.of(x) for x in a]
                    dt = I64 if all(p.py == "int" for p in ps) else DEFAULT if any(p.py == "float" for p in ps) else None
                if n == "full":
                    p = self.of(a[1]) if len(a) > 1 else self.of(k.get("fill_value", NONE))
                    dt = DEFAULT if p.py == "float" else I64 if p.py == "int" else BOOL if p.py == "bool" else None
            g = k.get("generator")
            if g is not None and g.op == "call" and (callname(g) or "").endswith("Generator"):
                gd = self.dev(ckw(g)["device"]) if "device" in ckw(g) else self.dev(cargs(g)[0]) if cargs(g) else CPU
                if gd is not None and dev is not None and gd is not dev:
                    self.note("generator", t, gd, dev)
            return P(dev, dt)
        if n in GIVEN:
            d0, ten = self.literal(a[0]) if a else (None, [])
            src = self.of(a[0]) if a else UNK
            if a and a[0].op not in ("list", "tuple", "listof"):
                if src.py is None and not src.np and (src.dev is not None or src.dt is not None):
                    ten = [src]
            if "device" not in k:
                dev = ten[0].dev if ten and n != "tensor" else CPU if (d0 is not None and not ten or src.np) else None
                if ten and n == "tensor":
                    dev = ten[0].dev if a[0].op not in ("list", "tuple", "listof") else CPU
            if "dtype" not in k:
                dt = d0
            elif ten and d0 is not None:
                self.narrow(t, a[0], d0, dt)
            return P(dev, dt)
        if n == "from_numpy":
            return P(CPU, None)
        if n == "to":
            p = self.of(a[0]) if a else UNK
            if p.np or p.py == "other":
                return UNK
            if "device_or_dtype" in k:
                x = k["device_or_dtype"]
                d, y = self.dev(x), self.dtype(x)
                ty = self.I.ty(x)
                if ty and ty <= {"device", "str", "None"}:
                    return P(d, p.dt)
                if ty and ty <= {"dtype", "None"} or x.op == "call" and callname(x) == "torch.get_default_dtype":
                    return P(p.dev, y)
                return UNK
            r = P(dev if "device" in k else p.dev, dt if "dtype" in k else p.dt)
            if "dtype" in k and p.dt is not None and dt is not None:
                self.narrow(t, a[0], p.dt, dt)
            return r
        if n in LIKE:
            p = self.of(a[0]) if a else UNK
            return P(dev if "device" in k else p.dev, dt if "dtype" in k else p.dt)
        if n == "numpy":
            p = self.of(a[0])
            if p.dev is not None and p.dev is not CPU:
                self.note("numpy", t, p.dev, CPU)
            return P(np=True)
        if n in TOPY:
            return PYF if n in ("item", "float") else PYI if n in ("numel", "dim", "ndim", "int", "len", "size", "bit_length") else PYB if n in ("bool", "is_floating_point", "allclose", "equal", "is_tensor") else PYX if n != "tolist" else P(py="num")
        if n in PREDS:
            j = self.join(t, a, False)
            return P(j.dev, BOOL)
        if n in TOINT:
            return P(self.of(a[0]).dev, I64) if a else UNK
        if n == "where" and len(a) == 3:
            j = self.join(t, a, False)
            v = self.join(t, a[1:])
            if v.py:
                return P(self.of(a[0]).dev, DEFAULT if v.py == "float" else I64 if v.py == "int" else None)
            return P(j.dev, v.dt)
        if n in FIRST:
            j = self.join(t, tuple(a) + tuple(v for q, v in k.items() if q in ("index", "src", "source", "mask", "tensor")), False)
            p = self.of(a[0]) if a else UNK
            return P(j.dev, p.dt)
        if n in UNARY_OK:
            parts = []
            for x in a:
                parts += tuple(x.args[1]) + tuple(x.args[2]) if x.op == "listof" else list(x.args) if x.op in ("list", "tuple") and n in ("stack", "cat", "meshgrid", "einsum", "concat", "hstack", "vstack") else [x.args[0]] if x.op == "star" else [x]
            parts += [v for q, v in k.items() if q in ("other", "min", "max", "out", "exponent", "end", "weight", "kernel")]
            parts = [x for x in parts if not (self.of(x).py == "other" or x.op == "slice")]
            if n in ("reshape", "view", "expand", "repeat", "permute", "transpose", "unsqueeze", "squeeze", "flatten", "roll", "flip", "tile", "narrow", "select"):
                parts = parts[:1]
            j = self.join(t, parts)
            if n in ("sum", "prod", "cumsum") and cat(j.dt) in ("int", "bool"):
                j = P(j.dev, I64)
            elif cat(j.dt) in ("int", "bool") and n in INEXACT | {"mean", "norm", "std", "var", "true_divide", "div", "tanh", "acos", "asin", "atan2", "rfft"}:
                j = P(j.dev, DEFAULT)
            if "dtype" in k and not j.py:
                j = P(j.dev, dt)
            return j
        return self.root(t)

    def narrow(self, t, x, old, new):
        """Conversions between a fixed low precision and the data's own."""
        if cat(old) != "float" or cat(new) != "float":
            return
        if old.op != "ext" and new.op == "ext" and new.args[0] in LOW:
            self.note("narrow", t, old, new)
        if old.op == "ext" and old.args[0] in LOW and new.op != "ext":
            if any(y.op == "call" and (callname(y) or "").startswith(("t.", "torch.")) and (callname(y) or "").split(".")[-1] in INEXACT and self.of(y).dt is old for y in subterms(x)):
                self.note("helper", t, old, new)


UNDEF_ = T("undef")
