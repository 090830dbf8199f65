"""C25: loop-invariant dataflow over the fixed-length loaders (what is appended per loaded utterance, what the loop counts, where the result is cut, which rates and speakers are compared), and element-level evaluation of the collated batch for symbolic items of every length and rate."""
from vf.law import *
from vf.simconf import *
from vf.rules import *
from vf.lower import Lower
from .c08 import visible

LOAD = "torchrir.datasets.utils.load_dataset_sources"
BUILD = "torchrir.datasets.dynamic_cmu_arctic.build_dynamic_cmu_arctic_dataset"
SAME = {"t.as_tensor", "t.to", "t.float", "t.double", "t.clone", "t.detach", "t.contiguous", "t.cpu", "t.squeeze", "t.flatten", "t.reshape", "t.view", "t.ravel", "t.from_numpy", "np.asarray", "numpy.asarray", "np.array",
        "t.tensor", "torch.from_numpy", "torch.as_tensor", "t.numpy", "np.squeeze", "np.ravel", "np.ascontiguousarray", "t.view_as", "t.unsqueeze"}
RATE, DUR = S("#rate"), S("#duration")
COUNTS = {"t.numel", "builtins.len", "t.size", "np.size", "m.numel"}


def opaque(I, a, kw, st):
    """dataset.load_audio kept as one step."""
    xs = tuple(I.freeze(st, x) for x in a) + tuple(I.freeze(st, v) for v in kw.values())
    t = T("call", T("ext", "m.load_audio"), xs, ())
    I.event("call", "m.load_audio", list(xs), {}, t, st)
    return t


def loads(r):
    return [e for e in r.events if e.kind == "call" and str(e.fn or "").endswith("load_audio") and len(e.args) >= 2 and isinstance(e.res, T)]


def strip(t):
    while isinstance(t, T) and t.op == "call" and callname(t) in SAME and cargs(t):
        t = cargs(t)[0]
    return t


def part(t, res, k):
    """Is t element k of the result of a load?"""
    t = strip(t)
    return t.op in ("item", "pick") and t.args[0] is res and (t.args[1] is const(k) or t.args[1] == k)


def sources(I, t, seen=None):
    """Every value t may stand for, loops unrolled to their starting and step values."""
    seen = set() if seen is None else seen
    if t in seen or len(seen) > 400:
        return set()
    seen.add(t)
    if t.op == "phi":
        return sources(I, t.args[1], seen) | sources(I, t.args[2], seen)
    if t.op == "loopout":
        out = sources(I, t.args[2], seen) if isinstance(t.args[2], T) else set()
        for x in t.args[3] if len(t.args) > 3 else ():
            if isinstance(x, T):
                out |= sources(I, x, seen)
        return out
    if t.op == "mu":
        info = I.loopinfo.get(t.args[0], {})
        out = {t}
        for d in ("init", "step"):
            x = info.get(d, {}).get(t.args[1])
            if isinstance(x, T):
                out |= sources(I, x, seen)
        return out
    if t.op == "call" and callname(t) == "builtins.int" and cargs(t) and cargs(t)[0].op in ("item", "pick", "mu", "loopout", "phi", "sym", "const"):
        return sources(I, cargs(t)[0], seen)
    if t.op == "undef":
        return set()
    return {t}


def parts(t, stop):
    """Subterms of t, not looking inside stop."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen or x is stop:
            continue
        seen.add(x)
        yield x
        q = list(x.args)
        while q:
            y = q.pop()
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                q += y


def flat(I, t, memo=None):
    """t with every loop-carried value that can only be one thing replaced by it."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op in ("loopout", "mu", "phi"):
        v = real(sources(I, t))
        if len(v) == 1:
            memo[t] = next(iter(v))
    elif t.op in ("bin", "un") or t.op == "call" and callname(t) in ("builtins.int", "builtins.round", "builtins.max", "builtins.min"):
        memo[t] = T(t.op, *[flat(I, x, memo) if isinstance(x, T) else tuple(flat(I, y, memo) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x for x in t.args])
    return memo[t]


def real(vals):
    return {v for v in vals if v.op != "mu" and v is not NONE}


def subst(I, t, israte, memo=None):
    """t with every value that is always a loaded sampling rate replaced by RATE."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op in ("item", "pick", "mu", "loopout", "phi", "call"):
        v = real(sources(I, t))
        if v and all(israte(x) for x in v):
            memo[t] = RATE
            return RATE
    if t.op in ("bin", "call", "un"):
        def go(x):
            if isinstance(x, T):
                return subst(I, x, israte, memo)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        memo[t] = T(t.op, *[go(x) for x in t.args])
        return memo[t]
    return t


def conj_atoms(cond):
    if cond.op in ("and", "or"):
        out = []
        for x in cond.args:
            out += conj_atoms(x)
        return out
    if cond.op == "not":
        return conj_atoms(cond.args[0])
    return [cond]


def within(outer, inner):
    return tuple(inner[: len(outer)]) == tuple(outer)


def shown(t):
    return show(t, 3)[:80]


def fixed(c, full, dur, count, **opts):
    nm = full.rsplit(".", 1)[-1]
    with c.rule("C25.loads", nm):
        r = c.run(full, key=("c25", nm), rewrite={"torchrir.datasets.cmu_arctic.CmuArcticDataset.load_audio": opaque, "torchrir.datasets.librispeech.LibriSpeechDataset.load_audio": opaque}, **opts)
        if r.state is None:
            c.ob("C25.loads", nm, False, "never returns")
            return
        I = r.I
        apps = [e for e in r.events if e.kind == "append" and len(e.args) >= 2 and isinstance(e.args[1], T)]
        every = {}
        for L in loads(r):
            every[L.res] = L
        israte = lambda x: x.op in ("item", "pick") and x.args[0] in every and (x.args[1] is const(1) or x.args[1] == 1)
        isaudio = lambda x, L: part(x, L.res, 0)
        found = 0
        for L in loads(r):
            if not L.loops:
                continue
            mine = [e for e in apps if within(L.loops, e.loops) and any(y.op in ("item", "pick") and y.args[0] is L.res and y.args[1] in (const(0), 0) for y in visible(e.args[1]))]
            if not mine:
                continue
            found += 1
            w = f"{nm} {site(L)}"
            body(c, r, I, L, mine, apps, w, israte, S(dur), count)
        c.ob("C25.loads", nm, True if found else None, "no loop loading utterances was followed")
        t = r.I.freeze(r.state, r.ret) if isinstance(r.ret, T) else NONE
        if t.op == "tuple" and len(t.args) == 3:
            sig, rate, _ = t.args
            v = real(sources(I, rate))
            c.ob("C25.result", nm + " rate", True if v and all(israte(x) for x in v) else False if v and all(x.op in ("const", "bin", "sym") for x in v) else None, f"returns the rate {shown(rate)}")
            if sig.op == "call" and callname(sig) in ("t.stack", "torch.stack", "t.cat", "torch.cat"):
                d = ckw(sig).get("dim", cargs(sig)[1] if len(cargs(sig)) > 1 else const(0))
                c.ob("C25.result", nm + " stack", callname(sig).endswith("stack") and d is const(0) if d.op == "const" else None, f"signals are combined by {shown(sig)}, not one row per source")


def body(c, r, I, L, mine, apps, w, israte, D, count):
    lid = L.loops[-1]
    info = I.loopinfo.get(lid, {})
    audio = lambda x: part(x, L.res, 0)
    # whole utterances
    trimmed = False
    with c.rule("C25.whole", w):
        res, d = True, "appended whole"
        for e in mine:
            v = strip(e.args[1])
            if audio(v):
                continue
            if v.op == "tuple" and any(audio(x) for x in v.args):
                continue
            if v.op == "item" and audio(v.args[0]):
                sl = v.args[1]
                sl = sl.args[0] if sl.op == "tuple" and len(sl.args) == 1 else sl
                if sl.op == "slice":
                    lo, hi, stp = (list(sl.args) + [NONE] * 3)[:3]
                    if lo not in (NONE, const(0)) or stp not in (NONE, const(1)):
                        res, d = False, f"only part of each utterance is used: {shown(v)}"
                        break
                    trimmed = True
                    res, d = None, f"cut when appended: {shown(v)}"
                    continue
            if v.op == "bin":
                res, d = False, f"the utterance is altered: {shown(v)}"
                break
            if v.op == "call" and callname(v) in ("t.flip", "np.flip", "t.roll"):
                res, d = False, f"the utterance is reordered: {shown(v)}"
                break
            res, d = None, f"not followed: {shown(v)}"
        c.ob("C25.whole", w, res, d)
    # names of utterances go with their audio
    uid = L.args[-1] if L.args else None
    facts = {f for f in info.get("facts", ()) if isinstance(f, T)}
    with c.rule("C25.named", w):
        names = lambda e: isinstance(uid, T) and any(x is uid for x in parts(e.args[1], L.res))
        named = [e for e in apps if e.loops == L.loops and e not in mine and names(e)]
        other = [e for e in apps if e.loops == L.loops and e not in mine and any(x.op == "attr" and x.args[1] == "utterance_id" for x in parts(e.args[1], L.res))]
        if any(names(e) for e in mine):
            c.ob("C25.named", w, True, "name and audio are appended together")
        elif named:
            bad = None
            for e in named:
                for m in mine:
                    diff = {f for f in set(e.pc) ^ set(m.pc) if isinstance(f, T) and f not in facts and not any(f is g for g in info.get("facts", ()))}
                    if diff:
                        bad = next(iter(diff))
            c.ob("C25.named", w, bad is None, f"name and audio are not kept under the same condition ({show(bad, 3)[:70] if bad is not None else ''})" if bad is not None else "one name per utterance")
        elif other:
            c.ob("C25.named", w, False, f"the name recorded, {shown(other[0].args[1])}, is not that of the utterance loaded, {shown(uid) if isinstance(uid, T) else '?'}")
        else:
            c.ob("C25.named", w, None, "no name is recorded next to the audio")
    # the cut
    stop = None
    with c.rule("C25.length", w):
        finals = []
        for e in apps:
            if e in mine or not within(e.loops, L.loops) or e.loops == L.loops:
                continue
            if any(x is L.res for x in visible(e.args[1])):
                finals.append(e.args[1])
        if r.ret is not None:
            pass
        cut = uncut = None
        for v in finals:
            for x in alternatives(v):
                x = strip(x)
                if x.op == "item" and any(y is L.res for y in visible(x.args[0])):
                    sl = x.args[1]
                    if sl.op == "tuple" and sl.args:
                        sl = sl.args[-1]
                    if sl.op == "slice":
                        cut = (x, list(sl.args) + [NONE] * 3)
                        continue
                if x.op == "call" and callname(x) in ("t.cat", "torch.cat", "t.concat", "np.concatenate", "t.hstack") or x.op == "pick":
                    uncut = x
        if cut is None:
            if uncut is not None and not trimmed:
                c.ob("C25.length", w, False, f"the joined utterances are not cut to the requested length: {shown(uncut)}")
            else:
                c.ob("C25.length", w, None, "cut not found")
        else:
            x, (lo, stop, stp) = cut[0], cut[1][:3]
            if lo not in (NONE, const(0)) or stp not in (NONE, const(1)):
                c.ob("C25.length", w, False, f"keeps {shown(x)}")
            else:
                length(c, I, stop, w, israte, D)
            if any(y.op == "call" and callname(y) in ("builtins.reversed", "t.flip", "np.flip", "builtins.sorted") and
                   any(z is L.res or z.op == "call" and callname(z) in ("m.sample", "m.choices", "m.permutation") for z in visible(y)) for y in visible(x.args[0])):
                c.ob("C25.length", w + " order", False, "the utterances are not joined in the order they are named")
    # what the loop counts
    with c.rule("C25.enough", w):
        enough(c, I, L, info, lid, w, stop, audio, israte, D, trimmed)
    # rates
    with c.rule("C25.rate", w):
        rates(c, I, L, mine, info, w, israte)
    # walking through the sentences
    with c.rule("C25.index", w):
        walk(c, I, uid, info, lid, w)
    # speakers
    with c.rule("C25.speakers", w):
        speakers(c, r, I, L, apps, w, count)


def alternatives(v):
    v0 = strip(v)
    if v0.op == "phi":
        return alternatives(v0.args[1]) + alternatives(v0.args[2])
    return [v0]


def length(c, I, stop, w, israte, D):
    if stop is NONE:
        c.ob("C25.length", w, False, "nothing is cut off")
        return
    vals = real(sources(I, stop))
    good = None
    for v in vals:
        v = flat(I, v)
        x = subst(I, v, israte)
        has = {y for y in visible(x)}
        if D not in has:
            r = None if not real({v}) or any(y.op in ("loopout", "mu", "unknown") for y in has) else False if not any(y.op == "sym" for y in has - {RATE}) or RATE in has else None
            c.ob("C25.length", w, r, f"is cut at {shown(v)}, which is not the duration asked for")
            return
        want = B("*", D, RATE)
        f = lambda n, z: T("call", T("ext", n), (z,), ())
        mk = norms(I, ints=(RATE,), pos=(RATE, D))
        got = [Cmp(mk).compare(x, y) for y in (f("builtins.int", want), f("builtins.int", f("builtins.round", want)), f("math.ceil", want), f("builtins.round", want))]
        if True in got:
            good = True if good is None else good
        elif got[0] is False and RATE in has:
            c.ob("C25.length", w, False, f"is cut at {shown(v)} samples, not duration times rate")
            return
        else:
            c.ob("C25.length", w, None, f"cut not decided: {shown(x)}")
            return
    c.ob("C25.length", w, good, "cut at duration times rate")


def enough(c, I, L, info, lid, w, stop, audio, israte, D, trimmed):
    if info.get("kind") == "for":
        it = info.get("iter")
        endless = isinstance(it, T) and any(y.op == "call" and callname(y) in ("itertools.cycle", "itertools.count", "builtins.iter", "itertools.chain") for y in visible(it))
        c.ob("C25.enough", w, None if endless else False, "stops when the utterances run out, however short the result" if not endless else "endless iteration")
        return
    step, init = info.get("step", {}), info.get("init", {})
    progress = {}
    for k, v in step.items():
        if not isinstance(v, T) or v.op != "bin" or v.args[0] not in ("+", "-"):
            continue
        a, b = v.args[1], v.args[2]
        mu = [x for x in (a, b) if x.op == "mu" and x.args[1] == k]
        if not mu:
            continue
        g = b if a is mu[0] else a
        progress[k] = (v.args[0], g)
    cond = info.get("cond")
    atoms = conj_atoms(cond) if isinstance(cond, T) else []
    for p in info.get("breakpcs", ()):
        for f in p if isinstance(p, (tuple, list, set, frozenset)) else [p]:
            if isinstance(f, T):
                atoms += conj_atoms(f)
    verdict, d = None, "what the loop counts was not followed"
    for a in atoms:
        if a.op != "cmp" or a.args[0] not in ("<", "<=", "==", "!="):
            continue
        for x, y in ((a.args[1], a.args[2]), (a.args[2], a.args[1])):
            ms = [z for z in visible(x) if z.op == "mu" and z.args[0] == lid and z.args[1] in progress] if x.op in ("mu", "bin", "phi") else []
            for z in ms:
                sgn, g = progress[z.args[1]]
                ok = gain(g, audio)
                start = init.get(z.args[1])
                if ok is False and any(q is L.res for q in visible(g)) or ok is False and g.op == "const":
                    if z is x and target(I, y, stop, israte, D):
                        verdict, d = False, f"counts {shown(g)} per utterance towards the requested length"
                elif ok:
                    if sgn == "-":
                        s = target(I, start, stop, israte, D) if z is x and y is const(0) and isinstance(start, T) else None
                        if verdict is not False:
                            verdict, d = (False, f"starts from {shown(start)} samples, fewer than are kept") if s == "less" else (True, "loads until the requested length is reached") if s else (None, d)
                    elif sgn == "+" and isinstance(start, T) and start.op == "const" and isinstance(start.args[0], (int, float)) and start.args[0] > 0:
                        verdict, d = False, f"starts counting at {start.args[0]}"
                    elif verdict is not False:
                        s = target(I, y, stop, israte, D) if x is z else None
                        if s == "less":
                            verdict, d = False, f"stops once {shown(y)} samples are loaded, fewer than are kept"
                        else:
                            verdict, d = (True, "loads until the requested length is reached") if s else (None, d)
    if info.get("breaks") and verdict is True:
        for p in info.get("breakpcs", ()):
            fs = [f for f in (p if isinstance(p, (tuple, list, set, frozenset)) else [p]) if isinstance(f, T)]
            fs = [f for f in fs if f not in info.get("basepc", ())]
            rel = [f for f in fs if any(z.op == "mu" and z.args[0] == lid and z.args[1] in progress and gain(progress[z.args[1]][1], audio) or z.op == "call" and callname(z) in COUNTS and any(q is L.res for q in visible(z)) for z in visible(f)) and f is not cond]
            if not rel:
                verdict, d = False, "may stop before the requested length is reached: " + "; ".join(show(f, 3)[:50] for f in fs if f is not cond)[:100]
    c.ob("C25.enough", w, verdict, d)


def gain(g, audio):
    """True: the number of samples of the audio; False: something else; None: unknown."""
    if g.op == "call" and callname(g) == "builtins.int" and cargs(g):
        return gain(cargs(g)[0], audio)
    if g.op == "call" and callname(g) in COUNTS and cargs(g) and audio(cargs(g)[0]):
        return True
    if g.op == "call" and callname(g) in COUNTS and cargs(g):
        x = strip(cargs(g)[0])
        return True if x.op == "pick" or x.op == "item" and audio(x.args[0]) else None
    if any(audio(T("item", x.args[0], const(0))) and x.args[1] in (const(1), 1) for x in visible(g) if x.op in ("item", "pick")) and not any(audio(x) for x in visible(g)) and g.op in ("phi", "mu", "item", "pick"):
        return False
    if g.op == "item" and g.args[0].op == "attr" and g.args[0].args[1] == "shape" and audio(g.args[0].args[0]):
        return True
    if g.op == "const":
        return False
    if g.op in ("item", "pick") and not audio(g):
        return False
    if g.op == "bin" and g.args[0] in ("*", "/", "//"):
        xs = [gain(x, audio) for x in g.args[1:]]
        return False if True in xs and any(x.op == "const" and x.args[0] not in (1, 1.0) for x in g.args[1:]) else None
    return None


def target(I, y, stop, israte, D):
    """Is the bound y the number of samples kept (truthy), 'less' when it is provably fewer?"""
    if stop is None or stop is NONE:
        return bool(D in {z for v in real(sources(I, y)) for z in visible(v)}) or None
    a, b = real(sources(I, y)), real(sources(I, stop))
    if a == b:
        return True
    if y.op == "bin" and y.args[0] == "-" and y.args[2].op == "const" and isinstance(y.args[2].args[0], (int, float)) and y.args[2].args[0] > 0 and real(sources(I, y.args[1])) == b:
        return "less"
    if y.op == "bin" and y.args[0] in ("//", "/") and y.args[2].op == "const" and isinstance(y.args[2].args[0], (int, float)) and y.args[2].args[0] > 1 and real(sources(I, y.args[1])) == b:
        return "less"
    if len(a) == 1 and len(b) == 1:
        x, z = (subst(I, flat(I, next(iter(v))), israte) for v in (a, b))
        k = Cmp(norms(I, ints=(RATE,), pos=(RATE, D))).compare(x, z)
        if k is True:
            return True
        if k is False and D not in set(visible(x)):
            return "less"
    return None


def rates(c, I, L, mine, info, w, israte):
    rate = lambda x: x.op in ("item", "pick") and x.args[0] is L.res and x.args[1] in (const(1), 1)
    conds = []
    for e in mine:
        conds += [f for f in e.pc if isinstance(f, T)]
    conds += [f for f in info.get("facts", ()) if isinstance(f, T)]
    seen = []
    for f in conds:
        for a in atoms_deep(f):
            if a.op == "cmp" and a.args[0] in ("==", "!=", "is") and any(rate(unint(x)) for x in a.args[1:]):
                o = [x for x in a.args[1:] if not rate(unint(x))]
                if o:
                    seen.append(o[0])
    if not seen:
        used = any(rate(unint(x)) for f in conds for a in atoms_deep(f) for x in visible(a))
        c.ob("C25.rate", w, None if used else False, "utterances of any sampling rate are joined: the rate loaded is never compared" if not used else "comparison not followed")
        return
    outer = L.loops[:-1]
    res, d = None, "comparison not followed"
    for o in seen:
        vals = sources(I, o)
        base = real(vals)
        if o.op == "sym" or all(x.op in ("sym", "const") and x is not NONE for x in base) and base:
            res, d = True, f"compared with {shown(o)}"
            break
        if base and all(israte(x) for x in base):
            mus = {x.args[0] for x in vals if x.op == "mu"}
            own = any(rate(x) for x in base)
            if own and outer and not (mus & set(outer)) and o.op == "mu":
                res, d = False, "rates are compared within one speaker only; speakers of different rates are stacked"
                continue
            res, d = True, "compared with the first rate loaded"
            break
    c.ob("C25.rate", w, res, d)


def unint(x):
    while isinstance(x, T) and x.op == "call" and callname(x) in ("builtins.int", "builtins.float") and cargs(x):
        x = cargs(x)[0]
    return x


def atoms_deep(f):
    out = []
    st = [f]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            continue
        if x.op in ("and", "or", "not", "forall", "exists"):
            st += [y for y in x.args if isinstance(y, T)]
        else:
            out.append(x)
    return out


def walk(c, I, uid, info, lid, w):
    """The position in the list of sentences stays inside it."""
    u = uid
    while isinstance(u, T) and u.op == "attr":
        u = u.args[0]
    if not isinstance(u, T) or u.op not in ("item", "pick"):
        c.ob("C25.index", w, True if isinstance(u, T) and u.op == "elem" else None, "taken in turn")
        return
    seq, ix = u.args[0], u.args[1]
    if not isinstance(ix, T):
        c.ob("C25.index", w, None, "not followed")
        return
    n = [T("call", T("ext", "builtins.len"), (seq,), ())]
    res, d = position(ix, n, lid, info, [])
    c.ob("C25.index", w, res, d)


def islen(x, n):
    return x in n or x.op == "call" and callname(x) == "builtins.len"


def position(ix, n, lid, info, known):
    if ix.op == "phi":
        a = position(ix.args[1], n, lid, info, known + [ix.args[0]])
        b = position(ix.args[2], n, lid, info, known + [neg(ix.args[0])])
        for x in (a, b):
            if x[0] is False:
                return x
        return a if a[0] is None else b
    if ix.op == "const":
        return (True, "first") if ix.args[0] == 0 else (None, "fixed position")
    if ix.op == "bin" and ix.args[0] == "%":
        return (True, "wraps round") if islen(ix.args[2], n) else (None, "not followed")
    if ix.op == "mu" and ix.args[0] == lid:
        for k in known:
            pos, a = True, k
            if a.op == "not":
                pos, a = False, a.args[0]
            if a.op != "cmp":
                continue
            o, x, y = a.args[0], a.args[1], a.args[2]
            # the position is below the length exactly when: x < len (true), len <= x (false), x == len (false; it grows by one)
            if pos and o == "<" and x is ix and islen(y, n) or not pos and o == "<=" and islen(x, n) and y is ix:
                return True, "starts again at the end"
            if not pos and o in ("==",) and ix in (x, y) and any(islen(z, n) for z in (x, y)) or pos and o == "!=" and ix in (x, y) and any(islen(z, n) for z in (x, y)):
                return True, "starts again at the end"
            if not pos and o == "<" and islen(x, n) and y is ix or pos and o == "<=" and x is ix and islen(y, n):
                return False, "steps past the last utterance before starting again"
        st = info.get("step", {}).get(ix.args[1])
        if isinstance(st, T) and any(z.op == "phi" or z.op == "bin" and z.args[0] == "%" for z in visible(st)):
            if st.op == "bin" and st.args[0] == "%":
                return (True, "wraps round") if islen(st.args[2], n) else (None, "not followed")
            return after(st, ix, n)
        if isinstance(st, T) and st.op == "bin" and st.args[0] == "+" and not any(islen(z, n) for a in conj_atoms(info.get("cond")) for z in visible(a)):
            return False, "never starts again: a speaker with little speech runs out"
        return None, "not followed"
    return None, "not followed"


def after(st, ix, n):
    """idx advanced and reset at the end of the body."""
    if st.op == "phi":
        k = st.args[0]
        pos, a = True, k
        if a.op == "not":
            pos, a = False, a.args[0]
        if a.op == "cmp" and a.args[0] in ("<", "<=", "==") and any(islen(z, n) for z in a.args[1:]):
            o, x, y = a.args
            nxt = y if islen(x, n) else x
            if nxt.op == "bin" and nxt.args[0] == "+" and ix in nxt.args[1:]:
                strict = o == "<" and islen(x, n)
                if strict and st.args[1] is const(0):
                    return False, "steps past the last utterance before starting again"
                return True, "starts again at the end"
    return None, "not followed"


def speakers(c, r, I, L, apps, w, count):
    ds = L.args[0]
    who = [x for x in visible(ds) if x.op == "elem" and x.args[1] in L.loops]
    if not who:
        c.ob("C25.speakers", w, None, "speaker of the loaded dataset not followed")
        return
    who = max(who, key=lambda x: L.loops.index(x.args[1]))
    it = who.args[0]
    n = callname(it) if it.op == "call" else None
    if n == "m.sample":
        a = cargs(it)
        k = a[2] if len(a) > 2 else ckw(it).get("k")
        c.ob("C25.speakers", w + " distinct", True, "drawn without replacement")
        if k is not None:
            same = k is S(count)
            bad = k.op == "const" or k.op == "bin" and any(x is S(count) for x in k.args[1:]) and any(x.op == "const" for x in k.args[1:]) or k.op == "sym" and not same
            c.ob("C25.speakers", w + " number", True if same else False if bad else None, f"{shown(k)} speakers are drawn where {count} were asked for")
    elif n == "m.choices" or it.op == "listof" and any(callname(x) in ("m.choice", "m.choices") for y in it.args[1:] for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, T) for x in visible(z) if x.op == "call"):
        c.ob("C25.speakers", w + " distinct", False, f"speakers may repeat: {shown(it)}")
    else:
        c.ob("C25.speakers", w + " distinct", None, f"not followed: {shown(it)}")
    outer = [e for e in apps if within(e.loops, L.loops) and e.loops and who.args[1] in e.loops and e.loops[-1] == who.args[1]]
    info = [e for e in outer if any(x.op == "attr" and x.args[1] == "utterance_id" for x in visible(e.args[1])) and not any(x is L.res for x in visible(e.args[1]))]
    sig = [e for e in outer if any(x is L.res for x in visible(e.args[1]))]
    for e in info:
        v = e.args[1]
        comps = v.args if v.op == "tuple" else [x.args[1] if isinstance(x, T) else x[1] for x in v.args] if v.op == "dict" else [y for _, y in v.args[1]] if v.op == "inst" else ()
        comps = [x for x in comps if isinstance(x, T) and not any(y.op == "attr" and y.args[1] == "utterance_id" for y in visible(x))]
        right = any(x is who for y in comps for x in visible(y))
        wrong = [y for y in comps if any(x is it for x in visible(y))]
        c.ob("C25.speakers", w + " named", True if right else False if wrong else None, f"the record {shown(v)} names {shown(wrong[0]) if wrong else 'something'} instead of the speaker loaded")
        for s in sig:
            diff = [f for f in set(e.pc) ^ set(s.pc) if isinstance(f, T)]
            facts = set(I.loopinfo.get(who.args[1], {}).get("facts", ()))
            diff = [f for f in diff if f not in facts]
            c.ob("C25.speakers", w + " aligned", True if not diff else None, "signal and record are kept together")


# ---------------------------------------------------------------- collation
def collate(c):
    N = 3
    ks = range(1, N + 1)
    ps = [p + str(k) for k in ks for p in "artsm"]
    head = "from torchrir.datasets import collate_dataset_items, DatasetItem\n"
    mk = f"[{', '.join(f'DatasetItem(audio=a{k}, sample_rate=r{k}, utterance_id=m{k}, text=t{k}, speaker=s{k})' for k in ks)}]"
    src = head + f"def use({', '.join(ps)}, pad):\n    x = {mk}\n    b = collate_dataset_items(x, pad_value=pad)\n    return (b.audio, b.lengths, b.sample_rate, b.utterance_ids, b.texts, b.speakers)\n"
    ty = {S(f"a{k}"): TEN for k in ks}
    ty.update({S(f"r{k}"): INT for k in ks})
    ty[S("pad")] = NUM
    sh = {S(f"a{k}"): (S(f"n{k}"),) for k in ks}
    w = "collate_dataset_items"
    with c.rule("C25.collate", w):
        r = c.user(src, "c25-collate", symty=ty, shapes=sh, updates=True)
        if r.state is None or not isinstance(r.ret, T) or r.ret.op == "dead":
            c.ob("C25.collate", w, False, "a batch of equal rates is refused")
            return
        t = r.I.freeze(r.state, r.ret)
        if t.op != "tuple" or len(t.args) != 6:
            c.ob("C25.collate", w, None, f"not followed: {shown(t)}")
            return
        audio, lengths, rate, ids, texts, spk = t.args
        ns = tuple(S(f"n{k}") for k in ks)
        L = Lower(r.I, leaves={S(f"a{k}") for k in ks})
        q = S("q")
        mkn = norms(r.I, ints=ns + (q,), nonneg=ns + (q,))
        for k in ks:
            s = f"{w} row {k}"
            with c.rule("C25.collate", s):
                try:
                    got = L.at(audio, (const(k - 1), q))
                except Exception:
                    got = None
                want = T("phi", T("cmp", "<", q, S(f"n{k}")), T("at", S(f"a{k}"), q), S("pad"))
                if got is None:
                    c.ob("C25.collate", s, None, f"not followed: {shown(audio)}")
                    continue
                K = Cmp(mkn)
                if got.op == "at" and got.args[0].op == "call":
                    v, why = padded(got.args[0], k)
                    c.ob("C25.collate", s, v, why)
                    continue
                v = K.compare(got, want)
                if v is not True:
                    have = {x for x in visible(got) if x.op == "sym"}
                    if S(f"a{k}") not in have and have & {S(f"a{j}") for j in ks}:
                        v = False
                    elif S("pad") not in have and "pad" and not any(x.op in ("unknown", "call") for x in visible(got)) and v is None:
                        v = False if got.op in ("at", "phi") else None
                c.ob("C25.collate", s, v, f"holds {show(got, 4)[:110]}, not the item's samples followed by the pad value" if v is not True else "the item, then the pad value")
        with c.rule("C25.collate", w + " width"):
            shp = r.I.shape(audio) if hasattr(r.I, "shape") else None
            wid = shp[-1] if shp else None
            if wid is None:
                c.ob("C25.collate", w + " width", None, "shape not followed")
            else:
                want = T("call", T("ext", "builtins.max"), ns, ())
                wid = maxof(wid, r.I)
                K = Cmp(mkn)
                v = K.compare(wid, want)
                c.ob("C25.collate", w + " width", v, f"padded to {show(wid, 4)[:80]}, not the longest item")
                c.ob("C25.collate", w + " rows", True if shp[0] is const(N) else None, f"{show(shp[0], 2)} rows")
        with c.rule("C25.collate", w + " lengths"):
            x = strip(lengths)
            xs = x.args if x.op in ("list", "tuple") else x.args[1] if x.op == "listof" and not x.args[2] else None
            if xs is None:
                c.ob("C25.collate", w + " lengths", None, f"not followed: {shown(x)}")
            else:
                vs = [Cmp(mkn).compare(y, n) for y, n in zip(xs, ns)] if len(xs) == N else [False]
                c.ob("C25.collate", w + " lengths", False if False in vs else True if all(vs) else None, f"are {show(x, 3)[:80]}")
        for nm, v, p in (("utterance_ids", ids, "m"), ("texts", texts, "t"), ("speakers", spk, "s")):
            xs = v.args if v.op in ("list", "tuple") else v.args[1] if v.op == "listof" and not v.args[2] else None
            want = tuple(S(f"{p}{k}") for k in ks)
            res = None if xs is None else tuple(xs) == want
            if xs is None and v.op == "listof" and not v.args[1] and set(v.args[2]) <= set(want):
                res = False
            if res is False and xs is not None and any(x.op not in ("sym", "const", "attr") for x in xs):
                res = None
            c.ob("C25.collate", f"{w} {nm}", res, f"are {show(v, 3)[:80]}")
        c.ob("C25.collate", w + " rate", True if rate in {S(f"r{k}") for k in ks} else False if rate.op in ("const", "bin") else None, f"is {shown(rate)}")
    for odd in ks:
        for hi, lo in ((16000, 8000), (8000, 16000)):
            s = f"{w} item {odd} at {lo} among {hi}"
            with c.rule("C25.mixed", s):
                src2 = head + f"def use({', '.join(p for p in ps if p[0] != 'r')}, pad):\n"
                src2 += "".join(f"    r{k} = {lo if k == odd else hi}\n" for k in ks) + f"    x = {mk}\n    return collate_dataset_items(x, pad_value=pad)\n"
                r = c.user(src2, ("c25-mixed", odd, hi), symty=ty, shapes=sh, updates=True)
                dead = r.state is None or isinstance(r.ret, T) and r.ret.op == "dead"
                open_ = [] if dead else [p for p in r.state.pc if isinstance(p, T) and p.op != "const"]
                open_ = [p for p in open_ if not all(x.op in ("sym", "const", "cmp", "bin", "truth") for x in visible(p)) or any(x.op == "sym" and x.args[0][0] not in "n" for x in visible(p))]
                c.ob("C25.mixed", s, True if dead else None if open_ else False, "refused" if dead else "are collated together")
    with c.rule("C25.empty", w):
        r = c.user(head + "def use():\n    return collate_dataset_items([])\n", "c25-empty")
        c.ob("C25.empty", w, True if r.state is None or isinstance(r.ret, T) and r.ret.op == "dead" else None, "an empty batch is refused")
    with c.rule("C25.once", w):
        r = c.run("torchrir.datasets.collate.collate_dataset_items", args=(S("items"),), key="c25-once")
        direct = [k for k, d in r.I.loopinfo.items() if d.get("iter") is S("items")]
        lists = [e for e in r.events if e.kind == "call" and e.args and e.args[0] is S("items") and str(e.fn) in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.iter")]
        uses = len({(e.line, e.n) for e in lists}) + len({id(r.I.loopinfo[k].get("node")) for k in direct})
        c.ob("C25.once", w, uses <= 1, f"the items are walked {uses} times; an iterator gives them once")


def padded(t, k):
    """Rows of a library call that pads a list of items."""
    if not (callname(t) or "").endswith("pad_sequence"):
        return None, f"not followed: {shown(t)}"
    a, kw = list(cargs(t)), dict(ckw(t))
    seqs = a[0] if a else kw.get("sequences")
    first = a[1] if len(a) > 1 else kw.get("batch_first", FALSE)
    val = a[2] if len(a) > 2 else kw.get("padding_value", const(0.0))
    side = kw.get("padding_side", a[3] if len(a) > 3 else const("right"))
    xs = seqs.args if seqs.op in ("list", "tuple") else seqs.args[1] if seqs.op == "listof" and not seqs.args[2] else ()
    if first is FALSE:
        return False, "time runs along the first axis of the padded batch"
    if val is not S("pad"):
        return (False if val.op == "const" else None), f"is padded with {shown(val)}"
    if side is not const("right"):
        return (False if side.op == "const" else None), "is padded in front"
    if len(xs) < k or not isinstance(xs[k - 1], T):
        return None, "not followed"
    x = strip(xs[k - 1])
    return (True if x is S(f"a{k}") else False if x.op == "sym" else None), f"holds {shown(x)}"


def maxof(t, I):
    """max of a list of lengths written as a tensor reduction."""
    t = unint(t)
    if t.op == "call" and callname(t) in ("t.item", "builtins.int"):
        return maxof(cargs(t)[0], I)
    if t.op == "call" and callname(t) in ("t.max", "t.amax", "builtins.max", "t.min", "t.amin", "builtins.min"):
        a = cargs(t)
        x = strip(a[0]) if len(a) == 1 else None
        xs = None
        if x is not None and x.op in ("list", "tuple"):
            xs = x.args
        elif x is not None and x.op == "listof" and not x.args[2]:
            xs = x.args[1]
        if xs:
            return T("call", T("ext", "builtins.max" if "max" in callname(t) else "builtins.min"), tuple(xs), ())
    return t


def items(c):
    """dataset[i] describes one utterance."""
    for nm in ("CmuArcticDataset", "LibriSpeechDataset"):
        w = f"{nm}[i]"
        with c.rule("C25.item", w):
            src = f"from torchrir.datasets import {nm}\ndef use(d, i):\n    x = {nm}.__getitem__(d, i)\n    return (x.audio, x.sample_rate, x.utterance_id, x.text)\n"
            r = c.user(src, ("c25-item", nm), symty={S("d"): frozenset({nm}), S("i"): INT}, rewrite={f"torchrir.datasets.{m}.{nm}.load_audio": opaque for m in ("cmu_arctic", "librispeech")})
            if r.state is None or not isinstance(r.ret, T):
                c.ob("C25.item", w, False, "an item is refused")
                continue
            t = r.I.freeze(r.state, r.ret)
            if t.op != "tuple":
                c.ob("C25.item", w, None, "not followed")
                continue
            audio, rate, uid, text = t.args
            L = [e for e in loads(r)]
            if len(L) != 1:
                c.ob("C25.item", w, None, f"{len(L)} loads")
                continue
            L = L[0]
            c.ob("C25.item", w + " audio", True if part(audio, L.res, 0) else None if any(x is L.res for x in visible(audio)) and audio.op != "bin" else False, f"is {shown(audio)}")
            c.ob("C25.item", w + " rate", True if unint(rate).op in ("item", "pick") and unint(rate).args[0] is L.res and unint(rate).args[1] in (const(1), 1) else False if rate.op == "const" or part(rate, L.res, 0) else None, f"is {shown(rate)}")
            c.ob("C25.item", w + " name", True if uid is L.args[-1] else False if uid.op in ("attr", "const", "item") else None, f"is {shown(uid)} but {shown(L.args[-1])} was loaded")
            sent = uid.args[0] if uid.op == "attr" else None
            at = [x for x in visible(uid) if x.op == "item" and x.args[1] is S("i")]
            c.ob("C25.item", w + " position", True if at else False if any(x is S("i") for x in visible(uid)) and any(x.op == "bin" for x in visible(uid)) else None, f"item i is {shown(uid)}")
            if sent is not None:
                ok = any(x is sent for x in visible(text))
                c.ob("C25.item", w + " text", True if ok else False if any(x.op == "item" for x in visible(text)) and not ok else None, f"is {shown(text)}")


def check(c):
    fixed(c, LOAD, "duration_s", "num_sources")
    fixed(c, BUILD, "duration_sec", "n_sources")
    collate(c)
    items(c)
