"""C17: loop-coverage analysis of every chunked accumulation (range bounds, slice ends, early exits), dependence of the lowered arrival terms on performance options, and key completeness of compiled-function caches."""
from vf.simconf import *

OPTS = ("image_chunk_size", "accumulate_chunk_size", "use_compile")


def check(c):
    for dyn in (False, True):
        for D in (3, 2):
            with c.rule("C17.chunks", f"dyn={dyn} D={D}"):
                X = sim(c, dyn, D)
                for v in arrival_views(X):
                    chunks(c, X, v)
                exits(c, X)
                compiled(c, X)


def chunks(c, X, v):
    w = f"{site(v['e'])} ({X.label})"
    if v["why"]:
        c.ob("C17.cover", w, None, v["why"])
        return
    if len(v["images"]) > 1:
        c.ob("C17.cover", w, False, "operands of one arrival are taken from different images: " + "; ".join(show(i, 3)[:90] for i in v["images"]))
        return
    dims = set()
    e, base, dim, idx, src = next(a for a in X.arrivals() if a[0] is v["e"])
    for x in (idx, src):
        sh = X.I.shape(x)
        if sh and len(sh) == 1 and sh[0].op == "nz":
            sh = X.I.shape(sh[0].args[0])
        if sh and len(sh) == 3:
            dims.add(sh[1])
    if len(dims) != 1:
        c.ob("C17.cover", w, None, "extent of the image axis not understood")
        return
    seen = cover(c, X, dims.pop(), w, v)
    miss = [l for l in v["e"].loops if l not in seen]
    c.ob("C17.once", w, True if not miss else None, f"loops {sorted(seen)} partition the images" if not miss else "accumulated inside a loop that does not partition the images")
    for k in ("pos", "val", "mask"):
        t = v.get(k)
        if t is None:
            continue
        hit = [o for o in OPTS if any(y.op == "attr" and y.args == (CFG, o) for y in subterms(t) if isinstance(y, T))]
        if hit:
            N = mknorm(X.I, "even>=0")()
            hit = [o for o in hit if contains(N.norm(t), attr(CFG, o))]
        c.ob("C17.value", f"{w} {k}", True if not hit else None, f"depends on {hit}" if hit else "independent of chunk sizes and compilation")


def cover(c, X, d, w, v):
    """Check that slices taken in nested chunk loops partition [0, K)."""
    seen = set()
    N = Norm(X.I, ints={KK}, nonneg={KK})
    while d is not KK and d.op == "dimslice":
        base, sl = d.args[0], d.args[1]
        lo, hi = sl.args[0], sl.args[1]
        L = lo
        if L.op != "elem" or callname(L.args[0]) != "builtins.range":
            c.ob("C17.cover", w, None, "slice does not start at a loop variable: " + show(lo, 3)[:80])
            return seen
        a, b, st = L.args[0].args[1]
        lid = L.args[1]
        seen.add(lid)
        na, nb, ns, nbase, nlo = N.norm(a), N.norm(b), N.norm(st), N.norm(base), N.norm(L)
        nh = N.norm(hi) if hi is not NONE else nbase
        alts = [nbase, N.maxmin("min", [padd(nlo, ns), nbase]), N.maxmin("min", [padd(nlo, ns), nb]), padd(nlo, ns)]
        if pconst(na) == 0 and nb is nbase and nh in alts[1:]:
            c.ob("C17.cover", f"{w} loop {lid}", True, f"chunks [{pshow(nlo, 2)}, {pshow(nh, 3)}) for steps of {pshow(ns, 2)} partition the images")
        else:
            bad = sampled(N, na, nb, ns, nh, nlo, nbase)
            c.ob("C17.cover", f"{w} loop {lid}", False if bad else None, f"chunks [{pshow(nlo, 2)}, {pshow(nh, 3)}) for {pshow(nlo, 2)} in range({pshow(na, 3)}, {pshow(nb, 3)}, {pshow(ns, 3)})" + (f": {bad}" if bad else ""))
        d = base
    if d is not KK:
        c.ob("C17.cover", w, None, "image axis is not the full image list: " + show(d, 3)[:80])
    elif not seen:
        c.ob("C17.cover", w, True, "all images at once")
    return seen


def sampled(N, na, nb, ns, nh, nlo, nbase):
    """Extent and step for which the chunks do not cover every entry exactly once."""
    if any(y.op in ("unknown", "phi", "call", "item") for z in (na, nb, ns, nh) for y in subterms(z) if isinstance(y, T)):
        return None
    steps = [y for y in subterms(ns) if isinstance(y, T) and y.op in ("attr", "sym")]
    agreed = None
    for K in (1, 2, 3, 5, 6, 7):
        for st in (1, 2, 3, 4, 8):
            p = Point(K * 10 + st, N)
            for z in steps:
                p.memo[(z, ())] = st
            p.memo[(nbase, ())] = K
            try:
                a, b, s_ = p.val(na), p.val(nb), p.val(ns)
                if s_ != int(s_) or s_ < 1:
                    continue
                got = []
                for x in range(int(a), int(b), int(s_)):
                    p2 = Point(K * 10 + st, N)
                    p2.memo.update({(z, ()): st for z in steps})
                    p2.memo[(nbase, ())] = K
                    p2.memo[(nlo, ())] = x
                    got += list(range(x, min(int(p2.val(nh)), K)))
            except (Undefined, TypeError, ValueError, ZeroDivisionError, OverflowError):
                return None
            if got != list(range(K)):
                miss = [i for i in range(K) if i not in got]
                return f"with {K} entries and step {int(s_)}, " + (f"entries {miss} are skipped" if miss else "entries are repeated")
    return None


def exits(c, X):
    """A chunk loop is left early only when nothing remains."""
    loops = {l for v in arrival_views(X) for l in v["e"].loops}

    geo = (LAT, S("sources"), S("mics"), S("src_traj"), S("mic_traj"))

    def walk(tr, inside, conds):
        # inside: enclosing loop ids since the start of the current call (None marks a call boundary)
        for t in tr:
            if t.kind == "loop":
                walk(t.body, inside + [(t.a, len(conds))], conds)
                walk(t.alt, inside, conds)
            elif t.kind == "if":
                walk(t.body, inside, conds + [t.a])
                walk(t.alt, inside, conds + ([neg(t.a)] if isinstance(t.a, T) else []))
            elif t.kind == "call":
                walk(t.body, inside + [None], conds)
            elif t.kind in ("break", "ret"):
                hit = []
                for x in reversed(inside):
                    if x is None:
                        break
                    if x[0] in loops and (t.kind == "ret" or x[0] == t.a):
                        hit.append(x)
                for lid, n in hit:
                    cs = [X.sub(z) for z in conds[n:] if isinstance(z, T)]
                    data = [q for q in cs if any(y in geo for y in subterms(q) if isinstance(y, T))]
                    c.ob("C17.exit", f"{X.full.rsplit('.', 1)[-1]} loop {lid}", False if data else None,
                         "the chunk loop is left when " + "; ".join(show(q, 3)[:100] for q in data[:2]) + ": later images are dropped")
            else:
                for part in (t.body, t.alt, t.final, *[h for h in t.handlers if isinstance(h, list)]):
                    walk(part, inside, conds)
    walk(X.r.trace, [], [])
    if not any(o[0] == "C17.exit" for o in c.obs):
        c.ob("C17.exit", X.full.rsplit(".", 1)[-1], True, "no early exit from a chunk loop")


def compiled(c, X):
    """Whatever a cached compiled function is bound to must be part of its cache key."""
    I = X.I
    for e in X.r.events:
        if e.kind != "setitem" or len(e.args) < 3:
            continue
        key, val = e.args[1], e.args[2]
        fs = [y for y in subterms(val) if isinstance(y, T) and y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] in ("torch.compile", "torch.jit.script", "torch.jit.trace", "functools.partial")]
        if not fs:
            continue
        free = captured(I, fs[0])
        w = f"{site(e)} ({X.label})"
        if free is None:
            c.ob("C17.compiled", w, None, "captured constants not identified")
            continue
        miss = [n for n, t in free.items() if not determined(t, key)]
        c.ob("C17.compiled", w, False if miss else True, f"the cached compiled function is bound to {miss}, which its key does not contain" if miss else f"key determines {sorted(free)}")


def determined(t, key):
    parts = set(key.args) if key.op == "tuple" else {key}
    flat = set(parts)
    for p in parts:
        if p.op == "call" and p.args[0].op == "ext" and p.args[0].args[0] in ("builtins.str", "builtins.repr", "builtins.int", "builtins.float", "builtins.bool", "dataclasses.astuple"):
            flat.update(p.args[1])
    def go(x):
        if x in flat or x.op in ("const", "ext", "func", "class", "mod", "global"):
            return True
        if x.op == "sym" or x.op == "attr":
            return x.op == "attr" and go(x.args[0])
        kids = [y for y in x.args if isinstance(y, T)] + [y for a in x.args if isinstance(a, tuple) for y in a if isinstance(y, T)]
        return bool(kids) and all(go(y) for y in kids)
    return go(t)


def captured(I, call):
    """Free variables of the compiled closure and the values they are bound to."""
    f = call.args[1][0] if call.args[1] else None
    if f is not None and callname(f) == "functools.partial":
        return {**{str(i): x for i, x in enumerate(cargs(f)[1:])}, **dict(ckw(f))}
    if callname(call) == "functools.partial":
        return {**{str(i): x for i, x in enumerate(cargs(call)[1:])}, **dict(ckw(call))}
    if f is None or f.op != "func":
        return None
    fv = I.objs.get(f)
    if fv is None:
        return None
    import ast
    node = fv.node
    bound = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
    names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - bound - {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    out = {}
    if fv.env is None:
        return out
    for n in names:
        v = fv.env.env.get(n)
        if isinstance(v, T) and v.op not in ("func", "class", "ext", "mod"):
            out[n] = v
    return out
