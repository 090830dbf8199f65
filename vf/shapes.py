"""Symbolic shapes (tuple of dimension terms) for tensor terms; None when unknown."""
from __future__ import annotations
from .terms import *

ELEM1 = {"t.to", "t.detach", "t.clone", "t.contiguous", "t.abs", "t.floor", "t.ceil", "t.round", "t.exp", "t.log", "t.sqrt", "t.sin", "t.cos", "t.deg2rad", "t.rad2deg",
         "t.sinc", "t.sign", "t.isfinite", "t.isnan", "t.clamp", "t.zeros_like", "t.ones_like", "t.full_like", "t.empty_like", "t.trunc",
         "t.nan_to_num", "t.flip", "t.roll", "t.numpy", "t.as_tensor", "torch.as_tensor", "torch.from_numpy", "t.from_numpy", "np.ascontiguousarray", "np.asarray", "np.array", "np.flip", "np.copy", "m.copy", "m.astype", "t.cumsum", "t.rsqrt", "t.reciprocal", "t.log10", "t.randn_like"}
# NumPy functions with the layout of the tensor function of the same name
NPT = {"np." + x: "t." + x for x in ("squeeze", "stack", "sum", "prod", "mean", "abs", "reshape", "broadcast_to", "max", "min", "sin", "cos", "sqrt", "floor", "deg2rad", "rad2deg", "zeros_like", "ones_like", "full_like")}
NPT.update({"np.clamp": "t.clamp", "np.clip": "t.clamp", "np.where": "t.where", "np.maximum": "t.maximum", "np.minimum": "t.minimum", "np.hypot": "t.hypot", "np.arctan2": "t.atan2"})
NPT.update({"np.concatenate": "t.cat", "np.zeros": "torch.zeros", "np.ones": "torch.ones", "np.full": "torch.full"})
ONE = const(1)


def comprow(I, t):
    """[f(k) for k in range(lo, hi)] -> (f(k), elem term, hi - lo, lo): a list whose rows are known by index."""
    if t.op != "listof" or t.args[1] or len(t.args[2]) != 1:
        return None
    x = t.args[2][0]
    if x.op in ("list", "ref"):
        return None
    el = [u for u in subterms(x) if u.op == "elem" and len(u.args) == 2]
    if len(el) != 1:
        return None
    it, lid = el[0].args
    info = I.loopinfo.get(lid)
    if info is None or info["iter"] is not it or info.get("filter", TRUE) is not TRUE or info.get("breaks"):
        return None
    if info["kind"] != "comp":
        if info.get("conts"):
            return None
        ev = [e for e in I.events if e.kind == "append" and e.args[1] is x]
        if len(ev) != 1 or ev[0].loops != (lid,) or any(f not in info["basepc"] for f in ev[0].pc):
            return None
    if it.op != "call" or it.args[0] is not T("ext", "builtins.range"):
        return None
    a = it.args[1]
    lo, hi, st = (const(0), a[0], const(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else const(1))
    if st is not const(1):
        return None
    return x, el[0], hi if lo is const(0) else T("bin", "-", hi, lo), lo


def broadcast(I, shs, t=None):
    n = max(len(s) for s in shs)
    out = []
    for k in range(1, n + 1):
        ds = []
        for s in shs:
            if k <= len(s):
                d = s[-k]
                if d is not ONE and d not in ds:
                    ds.append(d)
        if not ds:
            out.append(ONE)
        elif len(ds) == 1:
            out.append(ds[0])
        else:
            if t is not None and all(d.op in ("sym", "const") for d in ds):
                I.shape_conflicts.append((t, tuple(ds)))
            out.append(ds[0])
    return tuple(reversed(out))


def prod(ds):
    ds = [d for d in ds if d is not ONE]
    if not ds:
        return ONE
    if len(ds) == 1:
        return ds[0]
    flat = []
    for d in ds:
        flat += list(d.args[0]) if d.op == "dimprod" else [d]
    return T("dimprod", tuple(sorted(flat, key=lambda x: x.id)))


def factors(d):
    if d is ONE:
        return []
    if d.op == "dimprod":
        return list(d.args[0])
    if d.op == "bin" and d.args[0] == "*":
        return factors(d.args[1]) + factors(d.args[2])
    return [d]


def reshape(src, dims):
    dims = list(dims)
    if any(d is const(-1) for d in dims):
        tot = []
        for d in src:
            tot += factors(d)
        i = dims.index(const(-1))
        for j, d in enumerate(dims):
            if j != i:
                for f in factors(d):
                    if f in tot:
                        tot.remove(f)
                    else:
                        dims[i] = T("dim?", tuple(src), tuple(dims))
                        return tuple(dims)
        dims[i] = prod(tot)
    return tuple(prod(factors(d)) for d in dims)


def nested(I, x):
    if x.op in ("list", "tuple"):
        subs = [nested(I, y) for y in x.args]
        return (const(len(subs)),) + subs[0] if subs and None not in subs and all(y == subs[0] for y in subs) else None
    if x.op == "const":
        return ()
    ty = I.ty(x)
    if "Tensor" in ty:
        return I.shape(x)
    return () if ty and not ({"list", "tuple"} & set(ty)) else None


def axis(i, n):
    if i is None or i.op != "const" or not isinstance(i.args[0], int):
        return None
    k = i.args[0]
    return k + n if k < 0 else k


def tile(a, k, s):
    """Repetitions of np.tile along each axis, where every repeated axis has length 1."""
    r = k.get("reps", a[1] if len(a) > 1 else None)
    if s is None or r is None:
        return None
    r = r.args if r.op in ("tuple", "list") else (r,)
    if len(r) > len(s):
        return None
    r = (ONE,) * (len(s) - len(r)) + tuple(r)
    return r if all(y is ONE or x is ONE for x, y in zip(s, r)) else None


def index_shape(I, sh, i):
    idx = list(i.args) if i.op == "tuple" else [i]
    n = sum(1 for x in idx if x is not NONE and not (x.op == "const" and x.args[0] is Ellipsis))
    out, k = [], 0
    adv = None
    for x in idx:
        if x is NONE:
            out.append(ONE)
        elif x.op == "const" and x.args[0] is Ellipsis:
            m = len(sh) - n
            out += list(sh[k:k + m])
            k += m
        elif x.op == "slice":
            if k >= len(sh):
                return None
            if x.args[0] is NONE and x.args[1] is NONE and x.args[2] is NONE:
                out.append(sh[k])
            else:
                lo, hi, stp = x.args
                if sh[k].op == "const" and all(z.op == "const" for z in x.args):
                    out.append(const(len(range(*slice(lo.args[0], hi.args[0], stp.args[0]).indices(sh[k].args[0])))))
                elif all(z.op == "const" for z in (lo, hi)) and lo.args[0] in (None, 0) and hi.args[0] == 1:
                    out.append(ONE)
                elif stp in (NONE, ONE) and (lo is T("bin", "-", hi, ONE) or hi is T("bin", "+", lo, ONE) or hi is T("bin", "+", ONE, lo)):
                    out.append(ONE)
                else:
                    out.append(T("dimslice", sh[k], x))
            k += 1
        else:
            if k >= len(sh):
                return None
            ty = I.ty(x)
            arr = "Tensor" in ty or "ndarray" in ty
            s = I.shape(x) if arr else None
            if arr:
                if s is None:
                    return None
                isb = is_bool(I, x)
                if isb is None:
                    return None
                if isb:
                    if adv is None:
                        out.append(T("nz", x))
                        adv = 1
                    k += len(s)
                    continue
                if adv is None:
                    out += list(s)
                    adv = 1
                k += 1
            else:
                k += 1
    out += list(sh[k:])
    return tuple(out)


def is_bool(I, x):
    if x.op == "cmp":
        return True
    if x.op == "bin" and x.args[0] in ("&", "|"):
        return is_bool(I, x.args[1])
    if x.op == "un" and x.args[0] == "~":
        return is_bool(I, x.args[1])
    if x.op == "call" and x.args[0].op == "ext":
        n = x.args[0].args[0]
        if n in ("t.isfinite", "t.isnan", "t.isinf"):
            return True
        if n == "t.to":
            d = dict(x.args[2]).get("dtype")
            if d is not None and d.op == "ext":
                return d.args[0] == "torch.bool"
    if x.op == "sym":
        return None
    return False


def shape_of(I, t):
    s = I.shapes.get(t)
    if s is not None:
        return tuple(s)
    o = t.op
    if o == "const":
        return () if isinstance(t.args[0], (int, float, bool)) else None
    if o == "phi":
        u = uncache(t)
        if u is not None:
            return I.shape(u)
        if t.args[1].op == "undef":
            return I.shape(t.args[2])
        if t.args[2].op == "undef":
            return I.shape(t.args[1])
        a, b = I.shape(t.args[1]), I.shape(t.args[2])
        return a if a is not None and a == b else None
    if o == "upd":
        return I.shape(t.args[0])
    if o in ("bin",):
        a, b = _sh(I, t.args[1]), _sh(I, t.args[2])
        if a is None or b is None:
            return None
        if not {"Tensor", "ndarray"} & set(I.ty(t)):
            return None
        return broadcast(I, [a, b], t)
    if o == "cmp":
        if not any({"Tensor", "ndarray"} & set(I.ty(x)) for x in t.args[1:]):
            return None
        a, b = _sh(I, t.args[1]), _sh(I, t.args[2])
        return broadcast(I, [a, b], t) if a is not None and b is not None else None
    if o == "un":
        return I.shape(t.args[1])
    if o == "elem":
        s = I.shape(t.args[0])
        return s[1:] if s else None
    if o == "item":
        s = I.shape(t.args[0])
        return index_shape(I, s, t.args[1]) if s is not None else None
    if o != "call" or t.args[0].op != "ext":
        return None
    n, a, k = t.args[0].args[0], t.args[1], dict(t.args[2])
    n = NPT.get(n, n)
    if n in ("torch.zeros", "torch.ones", "torch.full") and t.args[0].args[0].startswith("np.") and a and a[0].op not in ("tuple", "list") and I.ty(a[0]) == {"int"}:
        return (a[0],)
    if n in ("torch.zeros", "torch.ones", "torch.empty", "torch.full", "torch.randn", "torch.rand"):
        its = a[0].args if a[0].op in ("tuple", "list") else None
        return tuple(prod(factors(d)) for d in its) if its is not None else None
    if n == "torch.arange":
        lo, hi, stp = a
        if lo is const(0) and stp is const(1):
            return (prod(factors(hi)),)
        return (T("rangelen", lo, hi, stp),)
    if n == "torch.linspace":
        return (a[2],)
    if n == "torch.hann_window":
        return (a[0],)
    if n == "vf.grid":
        shs = [I.shape(x) for x in a[1:]]
        return tuple(x[0] for x in shs) if all(x is not None and len(x) == 1 for x in shs) else None
    if n == "torch.cartesian_prod":
        shs = [I.shape(x) for x in a]
        if len(a) > 1 and all(x is not None and len(x) == 1 for x in shs):
            return (prod([f for x in shs for f in factors(x[0])]), const(len(a)))
        return None
    if n == "np.linspace":
        m = k.get("num", a[2] if len(a) > 2 else None)
        return (m,) if m is not None else None
    if not a:
        return None
    if n in ("np.array", "np.asarray", "t.as_tensor", "torch.as_tensor", "t.tensor") and a[0].op == "call" and a[0].args[0].op == "ext" and a[0].args[0].args[0] == "t.tolist" and a[0].args[1]:
        return I.shape(a[0].args[1][0])
    if n in ("np.array", "np.asarray", "t.as_tensor", "torch.as_tensor") and a[0].op in ("list", "tuple") and a[0].args:
        n = "t.tensor"
        if a[0].op == "tuple":
            return None
    s = I.shape(a[0])
    if n == "np.repeat":
        d = axis(k.get("axis", a[2] if len(a) > 2 else None), len(s)) if s is not None else None
        if d is None or s[d] is not ONE or len(a) < 2:
            return None
        return s[:d] + (a[1],) + s[d + 1:]
    if n == "np.tile":
        r = tile(a, k, s)
        return tuple(x if y is ONE else y for x, y in zip(s, r)) if r is not None else None
    if n in ("scipy.signal.sosfiltfilt", "scipy.signal.sosfilt") and len(a) > 1:
        return I.shape(a[1])
    if n in ELEM1:
        return s if s is not None else () if t.args[0].args[0].startswith("np.") and I.ty(a[0]) and I.ty(a[0]) <= {"int", "float", "number"} else None
    if n == "t.where":
        shs = [_sh(I, x) for x in a] + [_sh(I, x) for x in k.values()]
        return broadcast(I, shs, t) if all(x is not None for x in shs) else None
    if n in ("t.maximum", "t.minimum", "t.atan2", "t.hypot"):
        shs = [_sh(I, x) for x in a] + [_sh(I, x) for x in k.values()]
        return broadcast(I, shs, t) if all(x is not None for x in shs) else None
    if n == "t.take":
        return I.shape(k["index"]) if "index" in k else None
    if n == "t.diff" and s and not ({"prepend", "append"} & set(k)) and k.get("n", const(1)) is const(1):
        d = axis(k.get("dim", const(-1)), len(s))
        return s[:d] + (const(s[d].args[0] - 1) if s[d].op == "const" else T("bin", "-", s[d], const(1)),) + s[d + 1:] if d is not None else None
    if n == "t.stack":
        if a[0].op == "list" and a[0].args:
            s0 = I.shape(a[0].args[0])
            if s0 is None:
                return None
            d = axis(k.get("dim", const(0)), len(s0) + 1)
            return s0[:d] + (const(len(a[0].args)),) + s0[d:] if d is not None else None
        r = comprow(I, a[0])
        if r is not None:
            s0 = I.shape(r[0])
            s0 = () if s0 is None and not I.ty(r[0]) - {"int", "float", "bool"} and I.ty(r[0]) else s0
            d = axis(k.get("dim", const(0)), len(s0) + 1) if s0 is not None else None
            return s0[:d] + (r[2],) + s0[d:] if d is not None else None
        return None
    if n == "t.cat":
        ss = [I.shape(x) for x in a[0].args] if a[0].op in ("list", "tuple") and a[0].args else [None]
        if None in ss or len({len(x) for x in ss}) != 1 or not ss[0]:
            return None
        d = axis(k.get("dim", const(0)), len(ss[0]))
        if d is None:
            return None
        tot = ss[0][d]
        for x in ss[1:]:
            tot = const(tot.args[0] + x[d].args[0]) if tot.op == "const" and x[d].op == "const" else T("bin", "+", tot, x[d])
        return ss[0][:d] + (tot,) + ss[0][d + 1:]
    if n == "t.tensor" or n == "t.as_tensor":
        if a[0].op == "list":
            if all(x.op in ("const",) or not ({"Tensor", "list", "tuple"} & set(I.ty(x))) and I.ty(x) for x in a[0].args):
                return (const(len(a[0].args)),)
            subs = [nested(I, x) for x in a[0].args]
            if subs and None not in subs and all(x == subs[0] for x in subs):
                return (const(len(subs)),) + subs[0]
            return None
        return s
    if s is None:
        return None
    if n == "t.reshape":
        if len(a) > 1 and a[1].op == "tuple":
            return reshape(s, a[1].args)
        return None
    if n == "t.cross":
        return broadcast(I, [s, I.shape(k.get("other", a[1] if len(a) > 1 else NONE))], t) if I.shape(k.get("other", a[1] if len(a) > 1 else NONE)) is not None else None
    if n == "t.unsqueeze":
        d = axis(k.get("dim"), len(s) + 1)
        return s[:d] + (ONE,) + s[d:] if d is not None else None
    if n == "t.squeeze":
        if "dim" not in k:
            return tuple(x for x in s if x is not ONE)
        d = axis(k["dim"], len(s))
        if d is None or d >= len(s):
            return None
        if s[d] is ONE:
            return s[:d] + s[d + 1:]
        return s if s[d].op == "const" else None
    if n in ("t.sum", "t.mean", "t.prod", "t.any", "t.all", "t.norm", "t.amax", "t.amin", "t.argmax", "t.argmin"):
        if "dim" not in k:
            return ()
        ds = k["dim"].args if k["dim"].op == "tuple" else [k["dim"]]
        ax = [axis(d, len(s)) for d in ds]
        if any(d is None for d in ax):
            return None
        keep = k.get("keepdim", FALSE) is TRUE
        return tuple(ONE if i in ax else d for i, d in enumerate(s) if keep or i not in ax)
    if n in ("t.max", "t.min"):
        return () if "dim" not in k else None
    if n == "t.expand":
        if len(a) > 1 and a[1].op == "tuple":
            ds = list(a[1].args)
            off = len(ds) - len(s)
            if off < 0:
                return None
            return tuple(s[i - off] if d is const(-1) and i >= off else d for i, d in enumerate(ds))
        return None
    if n == "t.repeat":
        if len(a) > 1 and a[1].op == "tuple":
            ds = list(a[1].args)
            off = len(ds) - len(s)
            if off < 0:
                return None
            full = (ONE,) * off + tuple(s)
            return tuple(prod(factors(x) + factors(d)) for x, d in zip(full, ds))
        return None
    if n == "t.transpose":
        d0, d1 = axis(k.get("dim0"), len(s)), axis(k.get("dim1"), len(s))
        if d0 is None or d1 is None or max(d0, d1) >= len(s):
            return None
        l = list(s)
        l[d0], l[d1] = l[d1], l[d0]
        return tuple(l)
    if n == "t.permute":
        ds = [axis(d, len(s)) for d in a[1].args]
        return tuple(s[d] for d in ds) if all(d is not None and d < len(s) for d in ds) else None
    if n == "t.flatten" and not k:
        return (prod([f for d in s for f in factors(d)]),)
    if n in ("t.rfft", "t.irfft", "t.fft", "t.ifft"):
        d = axis(k.get("dim", const(-1)), len(s))
        if d is None:
            return None
        if n in ("t.irfft", "t.fft", "t.ifft") and k.get("n", NONE) is not NONE:
            return s[:d] + (k["n"],) + s[d + 1:]
        return s[:d] + (T("fftdim", n, k.get("n", s[d])),) + s[d + 1:]
    return None


def _sh(I, t):
    if t.op == "const":
        return ()
    ty = I.ty(t)
    if ty and not ({"Tensor", "ndarray"} & ty):
        return ()
    return I.shape(t)
