"""External calls: one canonical spelling per operation, types, list/dict methods."""
from __future__ import annotations
import ast
from .terms import *
from .state import *

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}

REQ = object()
# canonical tensor operations: name -> [(parameter, default)] after the tensor operand
SIG = {
    "sum": [("dim", None), ("keepdim", False), ("dtype", None)], "mean": [("dim", None), ("keepdim", False), ("dtype", None)],
    "prod": [("dim", None), ("keepdim", False), ("dtype", None)], "any": [("dim", None), ("keepdim", False)],
    "all": [("dim", None), ("keepdim", False)], "amax": [("dim", None), ("keepdim", False)], "amin": [("dim", None), ("keepdim", False)],
    "argmax": [("dim", None), ("keepdim", False)], "argmin": [("dim", None), ("keepdim", False)],
    "cumsum": [("dim", REQ)], "squeeze": [("dim", None)], "unsqueeze": [("dim", REQ)],
    "clamp": [("min", None), ("max", None)], "norm": [("ord", None), ("dim", None), ("keepdim", False), ("dtype", None)],
    "transpose": [("dim0", REQ), ("dim1", REQ)], "flip": [("dims", REQ)], "roll": [("shifts", REQ), ("dims", None)],
    "flatten": [("start_dim", 0), ("end_dim", -1)], "stack": [("dim", 0)], "cat": [("dim", 0)], "diff": [("n", 1), ("dim", -1)],
    "index_select": [("dim", REQ), ("index", REQ)], "gather": [("dim", REQ), ("index", REQ)], "take": [("index", REQ)],
    "where": [("a", REQ), ("b", REQ)], "floor_divide": [("other", REQ)], "remainder": [("other", REQ)],
    "numel": [], "item": [], "tolist": [], "abs": [], "floor": [], "ceil": [], "round": [], "trunc": [], "exp": [], "log": [],
    "deg2rad": [], "rad2deg": [], "log10": [], "sqrt": [], "rsqrt": [], "sin": [], "cos": [], "tan": [], "atan2": [("other", REQ)], "hypot": [("other", REQ)], "sinc": [], "sign": [],
    "isfinite": [], "isnan": [], "isinf": [], "detach": [], "clone": [], "contiguous": [], "numpy": [], "is_floating_point": [],
    "expand_as": [("other", REQ)], "view_as": [("other", REQ)], "maximum": [("other", REQ)], "minimum": [("other", REQ)],
    "max": [("dim", None), ("keepdim", False)], "min": [("dim", None), ("keepdim", False)], "select": [("dim", REQ), ("index", REQ)],
    "narrow": [("dim", REQ), ("start", REQ), ("length", REQ)], "rfft": [("n", None), ("dim", -1), ("norm", None)],
    "irfft": [("n", None), ("dim", -1), ("norm", None)], "fft": [("n", None), ("dim", -1), ("norm", None)],
    "ifft": [("n", None), ("dim", -1), ("norm", None)], "tensor": [("dtype", None), ("device", None), ("requires_grad", False)],
    "as_tensor": [("dtype", None), ("device", None)], "from_numpy": [], "zeros_like": [("dtype", None), ("device", None)],
    "ones_like": [("dtype", None), ("device", None)], "full_like": [("fill_value", REQ), ("dtype", None), ("device", None)],
    "empty_like": [("dtype", None), ("device", None)], "randn_like": [("dtype", None), ("device", None)],
    "movedim": [("source", REQ), ("destination", REQ)], "nonzero": [("as_tuple", False)], "equal": [("other", REQ)],
    "cross": [("other", REQ), ("dim", -1)], "dot": [("other", REQ)], "matmul": [("other", REQ)], "allclose": [("other", REQ), ("rtol", 1e-5), ("atol", 1e-8), ("equal_nan", False)],
    "nan_to_num": [("nan", 0.0), ("posinf", None), ("neginf", None)], "logical_and": [("other", REQ)], "logical_or": [("other", REQ)],
    "logical_not": [], "bincount": [], "sort": [("dim", -1), ("descending", False)], "vector_norm": [("ord", 2), ("dim", None), ("keepdim", False)],
    "reciprocal": [], "pow": [("exponent", REQ)], "mul": [("other", REQ)], "add": [("other", REQ)], "sub": [("other", REQ)],
    "div": [("other", REQ)], "neg": [], "square": [], "pad": [("pad", REQ), ("mode", "constant"), ("value", None)],
    "isclose": [("other", REQ)], "repeat_interleave": [("repeats", REQ), ("dim", None)], "addcmul": [], "lerp": [("end", REQ), ("weight", REQ)],
    "new_zeros": None, "new_full": None, "new_tensor": None, "cpu": [], "storage": [], "data_ptr": [], "element_size": [],
    "scatter_add": [("dim", REQ), ("index", REQ), ("src", REQ)], "index_add": [("dim", REQ), ("index", REQ), ("source", REQ)],
    "count_nonzero": [("dim", None)], "unbind": [("dim", 0)], "broadcast_to": [("size", REQ)],
}
SHAPEARGS = {"reshape", "view", "expand", "repeat", "permute", "tile"}
TENSOR_METHODS = set(SIG) | SHAPEARGS | {"to", "float", "double", "half", "long", "int", "bool", "type_as", "dim", "size", "clip", "clamp_min", "clamp_max"}
FACTORY = {"zeros", "ones", "empty", "rand", "randn"}
DTYPES = {"float": "torch.float32", "double": "torch.float64", "half": "torch.float16", "long": "torch.int64", "int": "torch.int32", "bool": "torch.bool"}
DTNAMES = {"float32": "float32", "float": "float32", "float64": "float64", "double": "float64", "float16": "float16", "half": "float16",
           "int64": "int64", "long": "int64", "int32": "int32", "int": "int32", "bool": "bool", "bfloat16": "bfloat16", "int16": "int16", "uint8": "uint8",
           "complex64": "complex64", "complex128": "complex128"}
AXIS = {"axis": "dim", "keepdims": "keepdim", "input": "self", "a_min": "min", "a_max": "max", "x": "self"}
ARITH = {"mul": "*", "multiply": "*", "add": "+", "sub": "-", "subtract": "-", "div": "/", "divide": "/", "true_divide": "/",
         "pow": "**", "remainder": "%", "floor_divide": "//", "matmul": "@", "mm": "@"}
TCMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
IMPURE = {"m.uniform", "m.random", "m.choice", "m.choices", "m.randint", "m.randrange", "m.sample", "m.gauss", "m.normal", "m.integers",
          "torch.randn", "torch.rand", "torch.randint", "torch.randperm", "torch.normal", "random.uniform", "random.random", "random.choice",
          "random.randint", "random.sample", "random.gauss", "np.random.randn", "np.random.rand", "np.random.uniform", "builtins.open", "m.open",
          "urllib.request.urlopen", "m.read", "tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory",
          "tarfile.open", "matplotlib.pyplot.figure", "matplotlib.pyplot.subplots", "m.add_subplot", "m.popleft", "builtins.next", "m.normalvariate",
          "torch.Generator", "random.Random", "torch.empty", "time.time", "time.perf_counter", "uuid.uuid4", "builtins.iter", "m.readline",
          "m.getmembers", "m.gettempdir"}


def canon_name(n):
    if n == "numpy" or n.startswith("numpy."):
        n = "np" + n[5:]
    for a, b in (("torch.Tensor.", "t."), ("pathlib.Path.", "pathlib.Path.")):
        if n.startswith(a):
            n = b + n[len(a):]
    p = n.split(".")
    if len(p) == 2 and p[0] == "torch" and p[1] in DTNAMES:
        return "torch." + DTNAMES[p[1]]
    return n


def ann_tags(a):
    if a is None:
        return frozenset()
    if isinstance(a, ast.Constant):
        if a.value is None:
            return frozenset({"None"})
        if isinstance(a.value, str):
            try:
                return ann_tags(ast.parse(a.value, mode="eval").body)
            except SyntaxError:
                return frozenset()
        return frozenset()
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        l, r = ann_tags(a.left), ann_tags(a.right)
        return l | r if l and r else frozenset()
    if isinstance(a, ast.Subscript):
        h = ast.unparse(a.value).split(".")[-1]
        if h == "Optional":
            x = ann_tags(a.slice)
            return x | {"None"} if x else frozenset()
        if h == "Union":
            out = frozenset()
            for e in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]):
                x = ann_tags(e)
                if not x:
                    return frozenset()
                out |= x
            return out
        if h == "Literal":
            return frozenset({"str"})
        if h in ("Final", "Annotated"):
            return ann_tags(a.slice.elts[0] if isinstance(a.slice, ast.Tuple) else a.slice)
        return ann_tags(a.value)
    if isinstance(a, (ast.Name, ast.Attribute)):
        n = ast.unparse(a).split(".")[-1]
        n = {"List": "list", "Tuple": "tuple", "Dict": "dict", "Set": "set", "PathLike": "Path", "Sequence": "Sequence"}.get(n, n)
        if n in ("Any", "object", "Iterable", "Iterator", "Callable", "Mapping", "MutableMapping"):
            return frozenset()
        if n == "SceneLike":
            return frozenset({"StaticScene", "DynamicScene", "Scene"})
        return frozenset({n})
    return frozenset()


PYTYPES = {int: "int", float: "float", str: "str", bool: "bool", bytes: "bytes", type(None): "None", type(Ellipsis): "ellipsis", tuple: "tuple"}
TENSOR = frozenset({"Tensor"})
NONTENSOR = {"t.item": "number", "t.numel": "int", "t.tolist": "list", "t.is_floating_point": "bool", "t.numpy": "ndarray", "t.equal": "bool",
             "t.allclose": "bool", "t.dim": "int", "t.data_ptr": "int", "t.element_size": "int"}
BUILTYPES = {"builtins.int": "int", "builtins.float": "float", "builtins.str": "str", "builtins.bool": "bool", "builtins.len": "int",
             "builtins.tuple": "tuple", "builtins.list": "list", "builtins.dict": "dict", "builtins.sorted": "list", "math.ceil": "int",
             "math.floor": "int", "math.sqrt": "float", "math.log": "float", "math.cos": "float", "math.sin": "float", "builtins.round": "number",
             "pathlib.Path": "Path", "torch.device": "device", "random.Random": "Random", "torch.Generator": "Generator", "builtins.sum": "number",
             "builtins.abs": "number", "builtins.range": "range", "logging.getLogger": "Logger", "m.relative_to": "Path", "m.with_suffix": "Path",
             "m.resolve": "Path", "m.expanduser": "Path", "m.absolute": "Path", "m.joinpath": "Path", "m.lower": "str", "m.upper": "str",
             "m.strip": "str", "m.is_dir": "bool", "m.exists": "bool", "m.is_file": "bool", "math.isfinite": "bool", "math.isinf": "bool",
             "m.uniform": "float", "m.randint": "int", "m.random": "float", "math.hypot": "float", "math.radians": "float", "m.bit_length": "int",
             "builtins.divmod": "tuple", "m.glob": "list", "m.rglob": "list", "m.iterdir": "list", "m.split": "list", "m.splitlines": "list",
             "m.read_text": "str", "m.as_posix": "str", "m.join": "str", "m.format": "str", "m.replace": "str"}


TENSORATTRS = {"dtype", "device", "ndim", "shape", "T", "mT", "H", "data", "real", "imag", "grad", "size", "itemsize", "nbytes", "is_cuda", "requires_grad", "layout", "names", "values", "indices", "type", "name"}


def type_of(I, t):
    o = t.op
    if o == "sym" or o == "kwget":
        return I.symty.get(t, frozenset())
    if o == "const":
        return frozenset({PYTYPES.get(type(t.args[0]), "?")})
    if o in ("tuple", "list", "dict", "set"):
        return frozenset({o})
    if o == "listof":
        return frozenset({t.args[0]})
    if o == "dictof":
        return frozenset({"dict"})
    if o == "inst":
        return frozenset({t.args[0].split(".")[-1]})
    if o in ("fstr", "fmt"):
        return frozenset({"str"})
    if o in ("dimprod", "dimslice", "rangelen", "nz"):
        return frozenset({"int"})
    if o == "upd":
        return I.ty(t.args[0])
    if o == "phi":
        u = uncache(t)
        if u is not None:
            return I.ty(u)
        if t.args[1].op == "undef" or t.args[2].op == "undef":
            return I.ty(t.args[2] if t.args[1].op == "undef" else t.args[1])
        a, b = I.ty(t.args[1]), I.ty(t.args[2])
        return a | b if a and b else frozenset()
    if o == "maybe":
        a, b = I.ty(t.args[1]), I.ty(t.args[2])
        return a | b if a and b else frozenset()
    if o == "loopout":
        out = frozenset()
        for x in (t.args[2],) + t.args[3]:
            if x is UNDEF or x.op == "mu":
                continue
            y = I.ty(x)
            if not y:
                return frozenset()
            out |= y
        return out
    if o == "pick":
        return I.ty(t.args[0])
    if o == "ext":
        n = t.args[0]
        p = n.split(".")
        if p[0] == "torch" and len(p) == 2 and p[1] in DTNAMES:
            return frozenset({"dtype"})
        if n in ("np.pi", "math.pi", "torch.pi", "np.e", "math.e", "math.tau", "np.inf", "math.inf", "torch.inf"):
            return frozenset({"float"})
        return frozenset({"extern"})
    if o in ("func", "bound"):
        return frozenset({"function"})
    if o == "cls":
        return frozenset({"type"})
    if o == "attr":
        n = t.args[1]
        bt = I.ty(t.args[0])
        cls = [I.objs[I.pkgcls[k]] for k in bt if k in I.pkgcls]
        if cls and (len(bt - {"None"}) == len(cls) or bt - {"None"} - {k for k in bt if k in I.pkgcls} <= {"Tensor", "ndarray", "list", "tuple", "dict"} and n not in TENSORATTRS and any(n in m.ann for c in cls for m in I.mro(c))):
            out = frozenset()
            for c in cls:
                for m in I.mro(c):
                    if n in m.ann:
                        out |= ann_tags(m.ann[n]) if I.trust else frozenset()
                        break
            return out
        if n == "dtype":
            return frozenset({"dtype"})
        if n == "device":
            return frozenset({"device"})
        if n == "ndim":
            return frozenset({"int"})
        if n == "shape":
            return frozenset({"tuple"})
        if "Tensor" in bt and n in ("T", "mT", "real", "imag"):
            return TENSOR
        if "Path" in bt:
            return frozenset({"Path"}) if n == "parent" else frozenset({"str"}) if n in ("name", "stem", "suffix") else frozenset()
        return frozenset()
    if o == "call":
        f = t.args[0]
        if f.op == "cls":
            return frozenset({f.args[0].split(".")[-1]})
        if f.op != "ext":
            return frozenset()
        n = f.args[0]
        if n in NONTENSOR:
            return frozenset({NONTENSOR[n]})
        if n.startswith("t.") or n in ("torch.zeros", "torch.ones", "torch.empty", "torch.full", "torch.arange", "torch.linspace", "torch.randn",
                                       "torch.rand", "vf.grid", "torch.cartesian_prod", "torch.eye", "torch.hann_window", "torch.randint", "torch.randperm", "torch.logspace"):
            return TENSOR
        if n.startswith("np."):
            return frozenset({"ndarray"}) if n not in ("np.isscalar", "np.random.default_rng") else frozenset()
        if n == "scipy.signal.sosfiltfilt":
            return frozenset({"ndarray"})
        if n == "m.astype" or n == "m.copy" and t.args[1] and I.ty(t.args[1][0]) in ({"ndarray"}, {"Tensor"}):
            return frozenset({"ndarray"})
        if n in ("builtins.max", "builtins.min") and (len(t.args[1]) > 1 or t.args[1] and t.args[1][0].op in ("list", "tuple") and t.args[1][0].args):
            ts = [I.ty(x) for x in (t.args[1] if len(t.args[1]) > 1 else t.args[1][0].args)]
            if all(z and z <= {"int", "float", "number", "bool"} for z in ts):
                return frozenset().union(*ts)
        if n in BUILTYPES:
            return frozenset({BUILTYPES[n]})
        return frozenset()
    if o == "bin":
        a, b = I.ty(t.args[1]), I.ty(t.args[2])
        if "Tensor" in a or "Tensor" in b:
            return TENSOR
        if "ndarray" in a or "ndarray" in b:
            return frozenset({"ndarray"})
        if t.args[0] == "/" and ("Path" in a or "Path" in b):
            return frozenset({"Path"})
        if t.args[0] == "/":
            return frozenset({"float"}) if a and b else frozenset()
        if a and b:
            if a == b:
                return a
            if a | b <= {"int", "float", "number"}:
                return frozenset({"float"}) if "float" in a | b else frozenset({"number"})
        return frozenset()
    if o == "un":
        return I.ty(t.args[1])
    if o in ("cmp", "not", "and", "or", "truth", "isinst"):
        if o == "cmp" and t.args[0] not in ("is", "in"):
            for x in t.args[1:]:
                if "Tensor" in I.ty(x):
                    return TENSOR
                if "ndarray" in I.ty(x):
                    return frozenset({"ndarray"})
        return frozenset({"bool"})
    if o in ("item", "elem"):
        b = I.ty(t.args[0])
        if b == TENSOR:
            return TENSOR
        if b == frozenset({"ndarray"}):
            return b
        if b == frozenset({"range"}):
            return frozenset({"int"})
        x = t.args[0]
        if x.op == "attr" and x.args[1] == "shape":
            return frozenset({"int"})
        if x.op == "call" and x.args[0].op == "ext":
            n = x.args[0].args[0]
            if n in ("m.glob", "m.rglob", "m.iterdir"):
                return frozenset({"Path"})
            if n in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed") and x.args[1]:
                return I.ty(T("elem", x.args[1][0], 0))
        if x.op == "listof" and not x.args[1] and len(x.args[2]) == 1:
            return I.ty(x.args[2][0])
        return frozenset()
    if o == "idx":
        return frozenset({"int"})
    return frozenset()


CONCRETE = {"None", "int", "float", "str", "bool", "Tensor", "ndarray", "Path", "tuple", "list", "dict", "set", "bytes", "device", "dtype",
            "Random", "Generator", "function", "Logger", "range"}


def isinstance_term(I, x, names, st):
    names = tuple(sorted(set(names)))
    if x.op == "ref":
        o = I.obj(st, x)
        if o is not None:
            if o.kind == "inst":
                return const(any(c.name in names for c in I.mro(o.cls)))
            if o.kind in ("list", "dict", "set"):
                return const(o.kind in names or (o.kind == "list" and "Sequence" in names) or (o.kind == "dict" and "Mapping" in names))
    ty = I.ty(x)
    if st is not None and ty:
        for c in st.pc:
            if c.op == "not" and c.args[0].op == "isinst" and c.args[0].args[0] is x:
                ty = ty - set(c.args[0].args[1])
            elif c.op == "isinst" and c.args[0] is x:
                ty2 = ty & set(c.args[1])
                ty = ty2 or ty
            elif c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] == "is" and c.args[0].args[1] is x and c.args[0].args[2] is NONE:
                ty = ty - {"None"}
    if ty:
        def sub(k):
            if k in names:
                return True
            if k in I.pkgcls:
                return any(c.name in names for c in I.mro(I.objs[I.pkgcls[k]]))
            if k == "bool" and "int" in names:
                return True
            if k in ("Tensor",) and "Tensor" in names:
                return True
            if k in ("list", "tuple") and "Sequence" in names:
                return True
            if k == "dict" and "Mapping" in names:
                return True
            if k in CONCRETE:
                return False
            return None
        rs = [sub(k) for k in ty]
        if all(r is True for r in rs):
            return TRUE
        if all(r is False for r in rs):
            return FALSE
    if x.op == "phi":
        a, b = isinstance_term(I, x.args[1], names, st), isinstance_term(I, x.args[2], names, st)
        if a.op == "const" and b.op == "const" and a is not b:
            return x.args[0] if a is TRUE else neg(x.args[0])
    return T("isinst", x, names)


# ------------------------------------------------------------------ external calls
def fz(I, st, args, kw):
    return [I.freeze(st, x) for x in args], {k: I.freeze(st, v) for k, v in kw.items()}


def mk(I, name, args, kw, st, raw, emit=True):
    kw = {k: v for k, v in kw.items()}
    if name in IMPURE:
        I.nimp = getattr(I, "nimp", 0) + 1
        kt = tuple(sorted(kw.items())) + (("#", const(I.nimp)),)
    else:
        kt = tuple(sorted(kw.items()))
    t = T("call", T("ext", name), tuple(args), kt)
    if emit:
        I.event("call", name, args, kw, t, st, raw=raw)
    return t


def named(name, args, kw, skip=1):
    """Canonical positional-to-keyword mapping for SIG operations; defaults dropped."""
    sig = SIG.get(name)
    kw = {AXIS.get(k, k): v for k, v in kw.items()}
    args = list(args)
    if skip and not args and "self" in kw:
        args = [kw.pop("self")]
    if name in ("stack", "cat") and "tensors" in kw:
        args = [kw.pop("tensors")] + args
    if name in ("tensor", "as_tensor") and "data" in kw:
        args = [kw.pop("data")] + args
    if sig is None:
        return args, kw
    head, tail = args[:skip], args[skip:]
    for (p, _), v in zip(sig, tail):
        kw[p] = v
    tail = tail[len(sig):]
    for p, d in sig:
        if p in kw and d is not REQ and is_const(kw[p], d):
            del kw[p]
    return head + tail, kw


def _to(I, x, args, kw, st):
    out = {}
    for k, v in kw.items():
        if k in ("device", "dtype"):
            out[k] = v
    for a in args:
        ty = I.ty(a)
        if a.op == "ext" and "dtype" in ty:
            out["dtype"] = a
        elif "dtype" in ty and ty <= {"dtype", "None"}:
            out["dtype"] = a
        elif "device" in ty or ty <= {"str", "device", "None"} and ty:
            out["device"] = a
        elif ty == TENSOR:
            out["device"], out["dtype"] = T("attr", a, "device"), T("attr", a, "dtype")
        elif a.op == "const" and isinstance(a.args[0], str):
            out["device"] = a
        else:
            out["device_or_dtype"] = a
    for k in list(out):
        if out[k] is NONE:
            del out[k]
    return out


def tensor_op(I, name, args, kw, st, raw):
    """Operation `name` on tensor args[0] (function or method spelling)."""
    if name == "is_floating_point" and len(args) == 1:
        x = I.freeze(st, args[0])
        d = dict(x.args[2]).get("dtype") if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("t.as_tensor", "t.tensor", "t.to", "torch.zeros", "torch.ones", "torch.full", "torch.empty", "torch.randn", "torch.rand") else None
        if d is not None and d.op == "ext" and d.args[0] in ("torch.float64", "torch.float32", "torch.float16", "torch.bfloat16"):
            return TRUE
    if name in ("clamp_min", "clamp_max"):
        k = name[6:]
        if len(args) == 2 and not kw:
            args, kw = args[:1], {k: args[1]}
        name = "clamp"
    if name == "clip":
        name = "clamp"
    if name in ("absolute",):
        name = "abs"
    if name in ("concat", "concatenate", "hstack_"):
        name = "cat"
    if name in DTYPES and len(args) == 1 and not kw:
        kw = {"dtype": T("ext", DTYPES[name])}
        name = "to"
        args = args[:1]
    if name == "cpu":
        return mk(I, "t.to", args[:1], {"device": const("cpu")}, st, raw)
    if name == "type" and len(args) == 2:
        name = "to"
    if name == "type_as":
        return mk(I, "t.to", args[:1], {"dtype": T("attr", args[1], "dtype"), "device": T("attr", args[1], "device")}, st, raw)
    if name == "to":
        k = _to(I, args[0], args[1:], kw, st)
        if not k:
            return args[0]
        return mk(I, "t.to", args[:1], k, st, raw)
    if name == "dim" and len(args) == 1:
        return attr(I, args[0], "ndim", st)
    if name == "ndimension":
        return attr(I, args[0], "ndim", st)
    if name in ("numel", "nelement") and len(args) == 1:
        sh = I.shape(I.freeze(st, args[0]))
        if sh is not None:
            r = const(1)
            for d in sh:
                r = d if r is const(1) else r if d is const(1) else I.binop("*", r, d, st)
            return r
    if name == "size":
        s = attr(I, args[0], "shape", st)
        if len(args) == 1 and not kw:
            return s
        return I.getitem(s, args[1] if len(args) > 1 else kw["dim"], st)
    if name in ("max", "min") and len(args) == 2 and "Tensor" in I.ty(args[1]):
        name = name + "imum"
    if name in ("max", "min") and "other" in kw:
        args, kw, name = [args[0], kw["other"]], {}, name + "imum"
    if name == "view":
        name = "reshape"
    if name in SHAPEARGS:
        rest = args[1:]
        for k in ("shape", "size", "sizes", "dims", "repeats"):
            if k in kw:
                rest = [kw[k]]
        if len(rest) == 1:
            its = I.known_items(rest[0], st)
            if its is not None:
                rest = its
            elif rest[0].op in ("attr", "ref", "listof", "sym"):
                return mk(I, "t." + name, [args[0], I.freeze(st, rest[0])], {}, st, raw)
        return mk(I, "t." + name, [args[0], T("tuple", *[I.freeze(st, x) for x in rest])], {}, st, raw)
    if name in ("norm", "vector_norm"):
        args2, kw2 = args, dict(kw)
        if name == "norm" and "p" in kw2:
            kw2["ord"] = kw2.pop("p")
        a, k = named("norm", args2, kw2)
        if "ord" in k and k["ord"].op == "const" and k["ord"].args[0] in (2, 2.0):
            del k["ord"]
        return mk(I, "t.norm", a, k, st, raw)
    a, k = named(name, args, kw)
    if name in ARITH:
        other = k.get("other", k.get("exponent", a[1] if len(a) > 1 else None))
        if other is not None and not (set(k) - {"other", "exponent"}):
            I.event("call", "t." + name, a, k, None, st, raw=raw)
            return I.binop(ARITH[name], a[0], other, st)
        if other is not None and set(k) - {"other"} == {"alpha"} and name in ("add", "sub"):
            return I.binop(ARITH[name], a[0], I.binop("*", k["alpha"], other, st), st)
        if other is not None and set(k) - {"other"} == {"rounding_mode"} and ARITH[name] == "/":
            rm = k["rounding_mode"]
            if rm is NONE:
                return I.binop("/", a[0], other, st)
            if rm is const("floor"):
                return I.binop("//", a[0], other, st)
            if rm is const("trunc"):
                return mk(I, "t.trunc", [I.binop("/", a[0], other, st)], {}, st, raw)
    if name in TCMP:
        other = a[1] if len(a) > 1 else k.get("other")
        if other is not None:
            return I.cmp(TCMP[name], a[0], other, st)
    if name == "neg" or name == "negative":
        return T("un", "-", a[0])
    if name == "square":
        return I.binop("**", a[0], const(2), st)
    if name == "reciprocal":
        return I.binop("/", const(1.0), a[0], st)
    if name == "logical_not":
        return T("un", "~", a[0])
    if name in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
        other = k.get("other", a[1] if len(a) > 1 else None)
        if other is not None:
            return I.binop("&" if "and" in name else "|", a[0], other, st)
    if name in ("stack", "cat"):
        a = [a[0]]
        its = I.known_items(a[0], st)
        if its is not None:
            a = [T("list", *[I.freeze(st, x) for x in its])]
        else:
            a = [I.freeze(st, a[0])]
    if name in ("tensor", "as_tensor"):
        its = I.known_items(a[0], st) if a[0].op in ("ref", "tuple") else None
        if its is not None:
            a = [T("list", *[I.freeze(st, x) for x in its])] + list(a[1:])
        if name == "as_tensor" and I.ty(a[0]) == TENSOR and not k:
            return a[0]
        k = {x: y for x, y in k.items() if y is not NONE}
        if name == "as_tensor" and I.ty(a[0]) == TENSOR:
            return mk(I, "t.to", a, k, st, raw) if k else a[0]
    k = {x: y for x, y in k.items() if not (y is NONE and x in ("dim", "dtype", "device", "n", "norm", "min", "max"))}
    return mk(I, "t." + name, [I.freeze(st, x) for x in a], {x: I.freeze(st, y) for x, y in k.items()}, st, raw)


def attr(I, b, name, st):
    b = I.freeze(st, b)
    if name in ("suffix", "name", "stem") and b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == "pathlib.Path" and len(b.args[1]) == 1 \
            and b.args[1][0].op == "const" and isinstance(b.args[1][0].args[0], str):
        from pathlib import PurePosixPath
        return const(getattr(PurePosixPath(b.args[1][0].args[0]), name))
    if name in ("shape", "ndim"):
        sh = I.shape(b)
        if sh is not None:
            return T("tuple", *sh) if name == "shape" else const(len(sh))
    if name == "H" or name == "T" and ("Tensor" in I.ty(b) or I.ty(b) == {"ndarray"} and len(I.shape(b) or ()) == 2):
        return T("call", T("ext", "t.transpose"), (b,), (("dim0", const(0)), ("dim1", const(1))))
    if name in ("device", "dtype"):
        # elementwise results inherit from the operand they are built from
        x = b
        while x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in PASS_DD and x.args[1]:
            x = x.args[1][0]
        if x.op == "call" and x.args[0].op == "ext":
            k = dict(x.args[2])
            n = x.args[0].args[0]
            if name in k and (n == "t.to" or n.startswith("torch.") or n in ("t.tensor", "t.as_tensor", "t.zeros_like")):
                d = k[name]
                if d.op == "ext" or name == "dtype" or "device" in I.ty(d) and len(I.ty(d)) == 1:
                    return d
            if n == "t.to" and name not in k and "device_or_dtype" not in k:
                return attr(I, x.args[1][0], name, st)
        b = x
    if name == "length":
        I.event("attr", name, (b,), {}, None, st)
    return T("attr", b, name)


PASS_DD = {"t.reshape", "t.unsqueeze", "t.squeeze", "t.detach", "t.clone", "t.contiguous", "t.expand", "t.repeat", "t.permute", "t.transpose",
           "t.flatten", "t.clamp", "t.abs_"}


def item(I, b, i, st):
    if b.op == "attr" and b.args[1] == "shape" and i is const(0):
        # leading extent of a stack of a list of known length
        x = b.args[0]
        while x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("t.to", "t.detach", "t.clone", "t.contiguous") and x.args[1]:
            x = x.args[1][0]
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in ("t.stack", "np.stack") and x.args[1] and x.args[1][0].op in ("list", "tuple"):
            k = dict(x.args[2])
            d = k.get("dim", k.get("axis", x.args[1][1] if len(x.args[1]) > 1 else const(0)))
            if d is const(0):
                return const(len(x.args[1][0].args))
    if b.op == "call" and b.args[0].op == "ext":
        n = b.args[0].args[0]
        if n in ("builtins.tuple", "builtins.list") and len(b.args[1]) == 1 and i.op == "const":
            return I.getitem(b.args[1][0], i, st)
        if n == "t.tolist" and i.op == "const":
            return T("call", T("ext", "t.item"), (I.getitem(b.args[1][0], i, st),), ())
        if n == "builtins.sorted" and False:
            return b
    if b.op == "listof" and not b.args[1] and len(b.args[2]) == 1 and i.op != "slice":
        return T("pick", b.args[2][0], i)
    return T("item", b, i)


def method_call(self, b, name, args, kw, st):
    rw = self.rewrite.get("m." + name)
    if rw is not None:
        r = rw(self, [b] + list(args), kw, st)
        if r is not None:
            return r
    I = self
    raw = ([b] + list(args), kw)
    fb = I.freeze(st, b)
    a, k = fz(I, st, args, kw)
    if "out" in k:
        I.event("mut", "out=", (k["out"],), {}, None, st, raw=raw)
    ty = I.ty(fb)
    if name == "__init__":
        return NONE
    if name in ("items", "keys", "values") and not a and not k:
        x = {"items": T("dkv", fb), "keys": T("dkeys", fb), "values": T("dvals", fb)}[name]
        if fb.op == "dict":
            return T("tuple", *[T("tuple", p.args[0], p.args[1]) if name == "items" else p.args[0 if name == "keys" else 1] for p in fb.args])
        return x
    if name.endswith("_") and not name.startswith("_") and name not in ("requires_grad_",):
        opn = name[:-1]
        an, kn = named(opn, [fb] + a, k)
        I.event("mut", name, [fb] + a, k, None, st, raw=raw, extra=(an, kn))
        if I.updates and (opn in TENSOR_METHODS or opn in ARITH) and opn not in ("scatter_add", "index_add", "index_put", "index_copy"):
            return tensor_op(I, opn, [fb] + a, k, st, raw)
        return T("call", T("ext", "t." + name), tuple([fb] + a), tuple(sorted(k.items())))
    if name == "requires_grad_":
        I.event("mut", name, [fb] + a, k, None, st, raw=raw)
        return fb
    if "Tensor" in ty or "ndarray" in ty or (not (ty & set(CONCRETE)) and name in TENSOR_METHODS and name not in (
            "bool", "int", "float", "add", "sub", "mul", "size", "type", "sort", "sum", "view", "any", "all", "copy", "diff", "storage", "pad", "take", "where", "round")):
        if name == "astype":
            return mk(I, "t.to", [fb], {"dtype": (a + list(k.values()))[0]}, st, raw)
        if name in TENSOR_METHODS or name in ARITH or name in TCMP:
            return tensor_op(I, name, [fb] + a, k, st, raw)
        if name in ("new_zeros", "new_ones", "new_full", "new_empty"):
            k.setdefault("device", attr(I, fb, "device", st))
            k.setdefault("dtype", attr(I, fb, "dtype", st))
            return ext_call(I, "torch." + name[4:], args, k, st)
        if name in ("new_tensor",):
            k.setdefault("device", attr(I, fb, "device", st))
            k.setdefault("dtype", attr(I, fb, "dtype", st))
            return tensor_op(I, "tensor", a, k, st, raw)
    if fb.op == "const" and isinstance(fb.args[0], str) and all(x.op == "const" or x.op == "tuple" and all(z.op == "const" for z in x.args) for x in a) and not k and name in (
            "lower", "upper", "strip", "startswith", "endswith", "split", "replace", "lstrip", "rstrip", "title", "casefold", "removeprefix", "removesuffix",
            "partition", "rpartition", "rsplit", "isdigit", "isalpha", "find", "count", "capitalize"):
        try:
            r = getattr(fb.args[0], name)(*[x.args[0] if x.op == "const" else tuple(z.args[0] for z in x.args) for x in a])
            return const(r) if not isinstance(r, (list, tuple)) else T("list" if isinstance(r, list) else "tuple", *[const(z) for z in r])
        except Exception:
            pass
    if fb.op == "const" and isinstance(fb.args[0], int) and name == "bit_length":
        return const(fb.args[0].bit_length())
    if fb.op in ("tuple", "list") and name == "index" and a and all(x.op == "const" for x in fb.args) and a[0].op == "const" and a[0] in fb.args:
        return const(fb.args.index(a[0]))
    if name in ("append", "extend", "insert", "add", "update", "remove", "discard", "pop", "clear", "setdefault", "sort", "reverse", "popitem",
                "appendleft", "popleft"):
        I.event("mut", name, [fb] + a, k, None, st, raw=raw)
    n = "m." + name
    if name == "joinpath":
        r = fb
        for x in a:
            r = T("bin", "/", r, x)
        return r
    if name in ("manual_seed", "seed"):
        I.event("seed", n, [fb] + a, k, None, st, raw=raw)
        mk(I, n, [fb] + a, k, st, raw)
        return fb
    return mk(I, n, [fb] + a, k, st, raw)


def ext_call(self, name, args, kw, st):
    I = self
    name = canon_name(name)
    raw = (list(args), dict(kw))
    short = name.split(".")[-1]
    if name.startswith("builtins."):
        r = builtin(I, short, args, kw, st, raw)
        if r is not None:
            return r
    if name == "builtins.object.__setattr__" and len(args) == 3 and args[1].op == "const":
        I.setattr(args[0], args[1].args[0], args[2], st)
        return NONE
    if name in ("dataclasses.replace", "copy.replace") and args:
        b = args[0]
        cv = I.objs_cls(b, st)
        if cv is not None:
            r = I.run_dataclass_init(cv, [], kw, st, base=b)
            I.event("replace", cv.full, (I.freeze(st, b),), {k: I.freeze(st, v) for k, v in kw.items()}, r, st)
            return r
    if name == "dataclasses.is_dataclass" and len(args) == 1:
        cv = I.objs_cls(args[0], st)
        if cv is not None:
            return const(any(x.is_dataclass for x in I.mro(cv)))
        x = args[0]
        o = I.obj(st, x) if x.op == "ref" else None
        ty = I.ty(x)
        if x.op in ("const", "tuple", "list", "dict") or o is not None and o.kind != "inst" or ty and all(k in CONCRETE for k in ty):
            return FALSE
    if name == "dataclasses.fields" and len(args) == 1:
        cv = I.objs_cls(args[0], st)
        if cv is not None and any(x.is_dataclass for x in I.mro(cv)):
            return T("tuple", *[T("inst", "dataclasses.Field", (("name", const(n)),)) for n, _, _ in I.all_fields(cv)])
    if name in ("typing.cast",) and len(args) == 2:
        return args[1]
    if name == "functools.partial" and args:
        return T("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
    if name in ("functools.lru_cache", "functools.cache", "functools.wraps"):
        pass
    if name == "copy.copy" or name == "copy.deepcopy":
        b = args[0]
        o = I.obj(st, b) if b.op == "ref" else None
        if o is not None:
            c = o.copy()
            c.label = None
            c.depth = 0
            return I.new(st, c)
        return mk(I, name, [I.freeze(st, b)], {}, st, raw)
    if name == "itertools.product" or name == "itertools.chain":
        pass
    if name == "collections.deque":
        its = I.known_items(args[0], st) if args else []
        if its is not None:
            return I.new(st, Obj("deque", elems=its))
    if name in ("collections.OrderedDict", "collections.defaultdict"):
        return I.new(st, Obj("dict"))
    if name == "torch.is_tensor" and len(args) == 1:
        return isinstance_term(I, args[0], ("Tensor",), st)
    if name == "torch.device" and len(args) == 1 and args[0].op == "call" and args[0].args[0].op == "ext" and args[0].args[0].args[0] == "torch.device":
        return args[0]
    a, k = fz(I, st, args, kw)
    if "out" in k and k["out"] is not NONE:
        I.event("mut", "out=", (k["out"],), {}, None, st, raw=raw)
        k2 = {x: y for x, y in k.items() if x != "out"}
    else:
        k2 = {x: y for x, y in k.items() if x != "out"}
    root = name.split(".")[0]
    if short == "meshgrid" and root in ("torch", "t", "np") and a and (kw.get("indexing") is const("ij") or root in ("torch", "t") and "indexing" not in kw):
        gs = list(args)
        if len(gs) == 1 and "Tensor" not in I.ty(gs[0]):
            gs = I.known_items(gs[0], st)
        if gs and not any(x.op == "star" for x in gs):
            gs = [I.freeze(st, x) for x in gs]
            I.event("call", "torch.meshgrid", gs, {}, None, st, raw=raw)
            return T("tuple", *[T("call", T("ext", "vf.grid"), (const(k),) + tuple(gs), ()) for k in range(len(gs))])
    if name in ("torch.fft.rfft", "torch.fft.irfft", "torch.fft.fft", "torch.fft.ifft", "np.fft.rfft", "np.fft.irfft"):
        return tensor_op(I, short, a, k2, st, raw)
    if name in ("torch.linalg.norm", "torch.norm", "torch.linalg.vector_norm", "np.linalg.norm"):
        return tensor_op(I, "norm", a, k2, st, raw)
    if name == "torch.linalg.cross":
        return tensor_op(I, "cross", a, k2, st, raw)
    if name == "torch.nn.functional.pad" or name == "torch.nn.functional.normalize":
        return tensor_op(I, short, a, k2, st, raw)
    if root == "torch" and name.count(".") == 1:
        if short in ("bool", "int"):
            pass
        if short in FACTORY or short == "full":
            n0 = 1
            shp = k2.pop("size", None)
            rest = a
            fill = None
            if short == "full":
                if shp is None:
                    shp, rest = a[0], a[1:]
                fill = k2.pop("fill_value", rest[0] if rest else NONE)
            elif shp is None:
                if len(a) == 1 and a[0].op in ("tuple", "list", "attr", "listof", "call", "phi", "bin", "item", "sym") and not (
                        I.ty(a[0]) & {"int", "number", "float"}):
                    shp = a[0]
                else:
                    shp = T("tuple", *a)
            its = I.known_items(shp, st)
            if its is not None:
                shp = T("tuple", *its)
            k2 = {x: y for x, y in k2.items() if y is not NONE and not (x == "requires_grad" and y is FALSE)}
            return mk(I, name, [shp] + ([fill] if fill is not None else []), k2, st, raw)
        if short == "arange":
            lo, hi, step = const(0), None, const(1)
            for key in ("start", "end", "step"):
                pass
            pa = list(a)
            if len(pa) == 1:
                hi = pa[0]
            elif len(pa) >= 2:
                lo, hi = pa[0], pa[1]
                if len(pa) > 2:
                    step = pa[2]
            lo, hi, step = k2.pop("start", lo), k2.pop("end", hi), k2.pop("step", step)
            k2 = {x: y for x, y in k2.items() if y is not NONE}
            return mk(I, name, [lo, hi if hi is not None else NONE, step], k2, st, raw)
        if short == "linspace":
            pa = list(a)
            for i, key in enumerate(("start", "end", "steps")):
                if key in k2:
                    pa.insert(i, k2.pop(key))
            return mk(I, name, pa, k2, st, raw)
        if short == "where":
            if len(a) == 3:
                return mk(I, "t.where", a, k2, st, raw)
        if short == "hann_window":
            pa = list(a)
            if "window_length" in k2:
                pa = [k2.pop("window_length")] + pa
            if len(pa) > 1:
                k2["periodic"] = pa[1]
                pa = pa[:1]
            if k2.get("periodic") is TRUE:
                del k2["periodic"]
            return mk(I, name, pa, k2, st, raw)
        if short in TENSOR_METHODS or short in ARITH or short in TCMP or short in SIG or short in ("clip", "clamp_min", "clamp_max", "absolute", "concat", "square", "negative"):
            return tensor_op(I, short, a, k2, st, raw)
        if short.endswith("_") and a:
            I.event("mut", short, a, k2, None, st, raw=raw)
            return T("call", T("ext", "t." + short), tuple(a), tuple(sorted(k2.items())))
    if root == "np" and name.count(".") == 1 and short in ("clip", "abs", "floor", "ceil", "sqrt", "exp", "log", "sin", "cos", "sum", "mean", "stack",
                                                           "isfinite", "sinc", "max", "min", "maximum", "minimum", "prod", "where", "concatenate"):
        short = {"clip": "clamp", "concatenate": "cat"}.get(short, short)
        an, kn = named(short, a, k2)
        return mk(I, "np." + short, an, kn, st, raw)
    if name == "math.pow" and len(a) == 2:
        return I.binop("**", a[0], a[1], st)
    if name == "math.prod" and len(a) == 1:
        pass
    if name.startswith("operator.") and len(a) == 2 and short in ARITH:
        return I.binop(ARITH[short], a[0], a[1], st)
    if all(x.op == "const" for x in a) and not k2 and root == "math" and a:
        import math
        try:
            return const(getattr(math, short)(*[x.args[0] for x in a]))
        except Exception:
            pass
    if name.startswith("t.") and a:
        return method_call(I, args[0], name[2:], args[1:], kw, st)
    if name.startswith("pathlib.Path.") and a and short not in ("home", "cwd"):
        return method_call(I, args[0], short, args[1:], kw, st)
    if name == "pathlib.Path" and len(a) == 1 and "Path" in I.ty(a[0]) and I.ty(a[0]) == frozenset({"Path"}):
        return a[0]
    if name == "pathlib.Path" and len(a) > 1:
        r = mk(I, name, a[:1], {}, st, raw)
        for x in a[1:]:
            r = T("bin", "/", r, x)
        return r
    if name == "os.path.join" and a:
        r = a[0]
        for x in a[1:]:
            r = T("bin", "/", r, x)
        return r
    return mk(I, name, a, k, st, raw)


def builtin(I, n, args, kw, st, raw):
    if n == "isinstance" and len(args) == 2:
        ts = I.known_items(args[1], st) if args[1].op in ("tuple", "ref") else [args[1]]
        names = []
        for t in ts or []:
            if t.op in ("bin",) and t.args[0] == "|":
                stack = [t]
                while stack:
                    x = stack.pop()
                    if x.op == "bin":
                        stack += list(x.args[1:])
                    else:
                        names.append(_tname(x))
                continue
            names.append(_tname(t))
        return isinstance_term(I, I.freeze(st, args[0]) if args[0].op != "ref" else args[0], names, st)
    if n == "len" and len(args) == 1:
        its = I.known_items(args[0], st)
        so = I.obj(st, args[0]) if args[0].op == "ref" else None
        if so is not None and so.kind == "set" and its is not None:
            its = list(dict.fromkeys(its))
            if len(its) == 2:
                return phi(I.cmp("==", its[0], its[1], st), const(1), const(2))
            if len(its) > 2 and not all(x.op == "const" for x in its):
                its = None
        if its is not None and args[0].op != "call":
            return const(len(its))
        x = I.freeze(st, args[0])
        sh = I.shape(x)
        if sh:
            return sh[0]
        if x.op == "const" and isinstance(x.args[0], str):
            return const(len(x.args[0]))
        if "Tensor" in I.ty(x):
            return T("item", attr(I, x, "shape", st), const(0))
        cv = I.cls_of(x, st) if x.op != "ref" else None
        if cv is None and args[0].op == "ref":
            o = I.obj(st, args[0])
            cv = o.cls if o is not None and o.kind == "inst" else None
        if cv is not None:
            m = I.cls_attr(cv, "__len__", I.mkclass(cv))
            if m is not None:
                return I.apply(I.bind(m, args[0]), [], {}, st)
        return T("call", T("ext", "builtins.len"), (x,), ())
    if n in ("list", "tuple", "set") and not kw:
        if not args:
            return I.new(st, Obj(n)) if n != "tuple" else T("tuple")
        x = args[0]
        its = I.known_items(x, st)
        if its is not None:
            return T("tuple", *its) if n == "tuple" else I.new(st, Obj(n, elems=its))
        o = I.obj(st, x) if x.op == "ref" else None
        if o is not None and o.kind in ("list", "set") and n == "list":
            return I.new(st, Obj("list", elems=o.elems, rest=o.rest)) if o.kind == "list" else mk(I, "builtins.list", [I.freeze(st, x)], {}, st, raw)
        if n == "tuple" and x.op in ("sym", "attr") and "tuple" in I.ty(x):
            return x
        return mk(I, "builtins." + n, [I.freeze(st, x)], {}, st, raw)
    if n == "dict":
        elems, rest = [], []
        if args:
            x = args[0]
            o = I.obj(st, x) if x.op == "ref" else None
            if o is not None and o.kind == "dict":
                elems, rest = list(o.elems), list(o.rest)
            elif x.op == "dict":
                elems = [(p.args[0], p.args[1]) for p in x.args]
            elif x.op == "ref" and o is not None and o.kind == "list":
                for p in o.elems:
                    elems.append((I.getitem(p, const(0), st), I.getitem(p, const(1), st)))
                for p in o.rest:
                    rest.append((I.getitem(p, const(0), st), I.getitem(p, const(1), st)))
            else:
                f = I.freeze(st, x)
                rest.append((T("elem", T("dkeys", f), 0), T("elem", T("dvals", f), 0)))
        for k, v in kw.items():
            if k == "**":
                rest.append((T("elem", T("dkeys", v), 0), T("elem", T("dvals", v), 0)))
            else:
                elems = [p for p in elems if p[0] is not const(k)] + [(const(k), v)]
        r = I.new(st, Obj("dict", elems=elems, rest=rest))
        if len(args) == 1 and not kw and not elems and rest:
            # a copy of an opaque mapping keeps its identity for lookups
            I.dictcopy = getattr(I, "dictcopy", {})
            I.dictcopy[r] = I.freeze(st, args[0])
        return r
    if n in ("int", "float", "str", "bool") and len(args) == 1 and not kw:
        x = I.freeze(st, args[0])
        if x.op == "const":
            try:
                return const({"int": int, "float": float, "str": str, "bool": bool}[n](x.args[0]))
            except Exception:
                pass
        ty = I.ty(x)
        if ty == frozenset({n}) and n != "bool":
            return x
        if n == "bool":
            return I.truth(x)
        if n == "int" and ty == frozenset({"int"}):
            return x
        return mk(I, "builtins." + n, [x], {}, st, raw, emit=True)
    if n in ("min", "max") and len(args) >= 2 and not kw:
        a = [I.freeze(st, x) for x in args]
        if all(x.op == "const" for x in a):
            return const((min if n == "min" else max)(x.args[0] for x in a))
        flat = []
        for x in a:
            if x.op == "call" and x.args[0] is T("ext", "builtins." + n) and len(x.args[1]) > 1:
                flat += list(x.args[1])
            else:
                flat.append(x)
        flat = sorted(set(flat), key=lambda t: t.id)
        return T("call", T("ext", "builtins." + n), tuple(flat), ())
    if n in ("all", "any") and len(args) == 1:
        its = I.known_items(args[0], st)
        if its is not None and len(its) <= 64:
            cs = [I.truth(I.freeze(st, x)) for x in its]
            return conj(cs) if n == "all" else disj(cs)
        ci = I.comp_fact(args[0], st) if args[0].op == "ref" else None
        if ci is not None:
            lid, flt, val = ci
            tv = I.truth(I.freeze(st, val))
            if n == "all":
                return T("forall", lid, disj([neg(flt), tv]))
            return neg(T("forall", lid, disj([neg(flt), neg(tv)])))
        return None
    if n == "sum" and 1 <= len(args) <= 2 and not kw:
        its = I.known_items(args[0], st)
        if its is not None and its:
            r = args[1] if len(args) > 1 else None
            for x in its:
                r = x if r is None else I.binop("+", r, x, st)
            return r
        return None
    if n in ("enumerate", "zip", "reversed", "range"):
        a = list(args)
        if n == "range":
            a = [I.freeze(st, x) for x in a]
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
        return T("call", T("ext", "builtins." + n), tuple(a), tuple(sorted(kw.items())))
    if n == "map" and len(args) == 2:
        its = I.known_items(args[1], st)
        if its is not None and len(its) <= 16:
            return I.new(st, Obj("list", elems=[I.apply(args[0], [x], {}, st) for x in its]))
        I.nloop += 1
        lid = I.nloop
        I.loopinfo[lid] = dict(kind="comp", iter=args[1], node=I.curnode, mod="", breaks=0, cond=TRUE, facts=[], step={}, init={}, conts=0,
                               outpc=None, basepc=st.pc, breakpcs=[])
        saved, I.loopsnow = I.loopsnow, I.loopsnow + (lid,)
        v = I.apply(args[0], [I.elem_of(args[1], lid, st)], {}, st)
        I.loopsnow = saved
        return I.new(st, Obj("list", rest=[v]))
    if n == "hasattr" and len(args) == 2 and args[1].op == "const" and args[1].args[0] in ("tolist", "item", "shape", "ndim", "dtype"):
        ty = I.ty(I.freeze(st, args[0]))
        if ty and ty <= {"Tensor", "ndarray", "generic"}:
            return TRUE
        if ty and ty <= {"None", "int", "float", "str", "bool", "Path", "tuple", "list", "dict", "set", "bytes", "device", "dtype"}:
            return FALSE
    if n == "getattr" and len(args) >= 2 and args[1].op == "const":
        o = I.obj(st, args[0]) if args[0].op == "ref" else None
        if o is not None and o.kind == "inst" and args[1].args[0] not in o.fields and I.cls_attr(o.cls, args[1].args[0], I.mkclass(o.cls)) is None and len(args) > 2:
            return args[2]
        if len(args) == 2 or (o is not None) or I.cls_of(args[0], st) is not None:
            return I.getattr(args[0], args[1].args[0], st)
        return T("call", T("ext", "builtins.getattr"), tuple(I.freeze(st, x) for x in args), ())
    if n == "setattr" and len(args) == 3 and args[1].op == "const":
        I.setattr(args[0], args[1].args[0], args[2], st)
        return NONE
    if n == "callable" and len(args) == 1 and args[0].op in ("func", "bound", "cls"):
        return TRUE
    if n == "sorted" and args:
        a, k = fz(I, st, args, kw)
        x = args[0]
        its = I.known_items(x, st) if len(args) == 1 and set(k) <= {"reverse"} else None
        if its is not None and all(y.op == "const" for y in its) and k.get("reverse", FALSE).op == "const":
            vs = [y.args[0] for y in its]
            if all(type(v) is str for v in vs) or all(type(v) is int for v in vs):
                return I.new(st, Obj("list", elems=tuple(const(v) for v in sorted(vs, reverse=bool(k.get("reverse", FALSE).args[0])))))
        return mk(I, "builtins.sorted", a, k, st, raw)
    if n == "iter" and len(args) == 1:
        return None
    if n == "pow" and len(args) == 2:
        return I.binop("**", args[0], args[1], st)
    if n == "abs" and len(args) == 1:
        x = I.freeze(st, args[0])
        if x.op == "const":
            return const(abs(x.args[0]))
        if "Tensor" in I.ty(x):
            return tensor_op(I, "abs", [x], {}, st, raw)
    if n == "print":
        return NONE
    return None


def _tname(t):
    if t.op == "cls":
        return t.args[0].split(".")[-1]
    if t.op == "ext":
        return t.args[0].split(".")[-1]
    if t is NONE:
        return "None"
    return "?" + t.op


# ------------------------------------------------------------------ containers
def list_method(self, st, r, o, name, args, kw):
    I = self
    loop = o.depth < len(I.loopsnow) or o.depth == -1
    o = o.copy()
    k = o.kind
    raw = (args, kw)
    if k in ("list", "deque"):
        if name not in ("copy", "index", "count"):
            o.fields.pop("#some", None)
        if name in ("append", "appendleft", "insert"):
            v = args[-1]
            I.event("append", name, (r, I.freeze(st, v)), {}, None, st, raw=v, extra=o.label)
            if loop:
                if v not in o.rest:
                    o.rest = o.rest + (v,)
            elif name == "append" and not o.rest:
                o.elems = o.elems + (v,)
            elif name == "appendleft" or (name == "insert" and args[0].op == "const" and args[0].args[0] == 0):
                o.elems = (v,) + o.elems
            elif name == "append":
                o.rest = o.rest + (v,)
            else:
                o.rest = o.elems + o.rest + (v,)
                o.elems = ()
            if not loop and o.rest:
                o.fields["#some"] = T("some", TRUE, o.rest)
            I.put(st, r, o)
            return NONE
        if name == "extend":
            its = I.known_items(args[0], st)
            I.event("append", "extend", (r, I.freeze(st, args[0])), {}, None, st, raw=args[0], extra=o.label)
            if its is not None and not loop and not o.rest:
                o.elems = o.elems + tuple(its)
            else:
                src = I.obj(st, args[0]) if args[0].op == "ref" else None
                add = list(its) if its is not None else list(src.elems + src.rest) if src is not None else [T("elem", I.freeze(st, args[0]), 0)]
                o.rest = o.rest + tuple(x for x in add if x not in o.rest)
            I.put(st, r, o)
            return NONE
        if name in ("pop", "popleft"):
            I.event("mut", name, (I.freeze(st, r),), {}, None, st, raw=raw, extra=o.label)
            if not loop and not o.rest and o.elems:
                i = 0 if name == "popleft" else (args[0].args[0] if args and args[0].op == "const" else -1)
                e = list(o.elems)
                v = e.pop(i)
                o.elems = tuple(e)
            else:
                f = I.freeze(st, r)
                v = T("item", f, args[0] if args else const(-1 if name == "pop" else 0))
                o.rest = o.elems + o.rest
                o.elems = ()
            I.put(st, r, o)
            return v
        if name in ("sort", "reverse"):
            f = I.freeze(st, r)
            I.event("call", "m." + name, (f,), {x: I.freeze(st, y) for x, y in kw.items()}, NONE, st, raw=raw)
            o.rest = (T("elem", T("call", T("ext", "builtins.sorted" if name == "sort" else "builtins.reversed"), (f,),
                                  tuple(sorted((x, I.freeze(st, y)) for x, y in kw.items()))), 0),)
            o.elems = ()
            I.put(st, r, o)
            return NONE
        if name == "clear":
            o.elems = o.rest = ()
            I.put(st, r, o)
            return NONE
        if name == "copy":
            return I.new(st, Obj(k, elems=o.elems, rest=o.rest))
        if name in ("remove",):
            o.rest = o.elems + o.rest
            o.elems = ()
            I.put(st, r, o)
            return NONE
    if k == "set":
        if name in ("add", "update", "discard", "remove"):
            add = args if name == "add" else (I.known_items(args[0], st) or [T("elem", I.freeze(st, args[0]), 0)]) if name == "update" else []
            I.event("append", name, (r, I.freeze(st, args[0])), {}, None, st, raw=args[0], extra=o.label)
            if loop:
                o.rest = o.rest + tuple(x for x in add if x not in o.rest)
            else:
                o.elems = o.elems + tuple(x for x in add if x not in o.elems)
            I.put(st, r, o)
            return NONE
    if k == "dict":
        if name in ("items", "keys", "values"):
            return T("dictview", name, r)
        if name == "get":
            key, d = args[0], (args[1] if len(args) > 1 else NONE)
            if o.depth != -1:
                for x, v in o.elems:
                    if x is key:
                        return v if not o.rest else T("call", T("ext", "m.get"), (I.freeze(st, r), I.freeze(st, key), I.freeze(st, d)), ())
                if not o.rest and key.op == "const" and all(x.op == "const" for x, _ in o.elems):
                    return d
            g = I.freeze(st, r)
            t = T("call", T("ext", "m.get"), (g, I.freeze(st, key), I.freeze(st, d)) if d is not NONE else (g, I.freeze(st, key)), ())
            I.event("call", "m.get", t.args[1], {}, t, st, raw=raw)
            return t
        if name in ("update",):
            src = args[0] if args else None
            so = I.obj(st, src) if src is not None and src.op == "ref" else None
            I.event("mut", "update", (T("gobj", o.label) if o.label else I.freeze(st, r), I.freeze(st, src) if src is not None else NONE), {}, None, st, raw=raw)
            if so is not None:
                for x, v in so.elems:
                    o.elems = tuple(p for p in o.elems if p[0] is not x) + ((x, v),)
                o.rest = o.rest + tuple(p for p in so.rest if p not in o.rest)
            elif src is not None:
                f = I.freeze(st, src)
                o.rest = o.rest + ((T("elem", T("dkeys", f), 0), T("elem", T("dvals", f), 0)),)
            for x, v in kw.items():
                o.elems = tuple(p for p in o.elems if p[0] is not const(x)) + ((const(x), v),)
            I.put(st, r, o)
            return NONE
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            g = I.freeze(st, r)
            hit = [v for x, v in o.elems if x is args[0]]
            if hit:
                return hit[0]
            I.setitem(r, args[0], d, st)
            if o.depth == -1 or o.rest:
                return T("call", T("ext", "m.setdefault"), (g, I.freeze(st, args[0]), I.freeze(st, d)), ())
            if isinstance(d, T) and d.op == "ref":
                return d
            return d
        if name == "pop":
            hit = [v for x, v in o.elems if x is args[0]]
            g = I.freeze(st, r)
            src = getattr(I, "dictcopy", {}).get(r)
            if src is not None:
                g = src
            o.elems = tuple(p for p in o.elems if p[0] is not args[0])
            I.put(st, r, o)
            if hit and not o.rest:
                return hit[0]
            if not o.rest and len(args) > 1 and all(x.op == "const" for x, _ in o.elems) and o.depth != -1:
                return args[1]
            return T("call", T("ext", "m.get"), tuple([g] + [I.freeze(st, x) for x in args]), ())
        if name == "copy":
            return I.new(st, Obj("dict", elems=o.elems, rest=o.rest))
        if name == "clear":
            I.event("mut", "clear", (I.freeze(st, r),), {}, None, st)
            o.elems = o.rest = ()
            I.put(st, r, o)
            return NONE
    fa, fk = fz(I, st, args, kw)
    return mk(I, "m." + name, [I.freeze(st, r)] + fa, fk, st, ([r] + list(args), kw))


def shape_of(I, t):
    from . import shapes
    return shapes.shape_of(I, t)
