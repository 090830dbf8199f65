"""C09: noninterference analysis of every option: with the argument given, the configuration's value must not reach the engine's computations, and with it absent the configuration's must; options forwarded by the simulator object are matched term by term, unequal values must leave no returning path, and every configuration field must be read where it can matter."""
import ast
from vf.law import *
from vf.simconf import *
from vf.loader import AnalysisBroken
from vf.simlib import resolve_method
from .c08 import visible

SELF, SCENE = S("self"), S("scene")
SEMANTIC = ("frac_delay_length", "rir_hpf_enable", "rir_hpf_fc", "rir_hpf_kwargs", "max_order", "tmax", "directivity", "device")
CONF = ("max_order", "tmax", "directivity", "device")


def given(t):
    return neg(T("cmp", "is", t, NONE))


def absent(t):
    return T("cmp", "is", t, NONE)


def values(r, conds=False):
    """Every value the run computes with (not the conditions of its own argument checks)."""
    I = r.I
    first = set(getattr(r, "assumed", ()))
    stops = [set(e.pc) for e in r.events if e.kind == "raise"]
    memo = {}

    def guard(x):
        """A condition that only says an argument check did not refuse the call."""
        if x not in memo:
            n = neg(x)
            parts = set(n.args) if n.op == "and" else {n}
            memo[x] = x in first or any(parts <= s for s in stops)
        return memo[x]
    out = []
    if isinstance(r.ret, T):
        out.append(I.freeze(r.state, r.ret))
    for e in r.events:
        if site(e).startswith("torchrir.config.SimulationConfig.validate"):
            continue
        if e.kind in ("call", "mut", "setitem", "new", "setattr", "seed") and e.fn not in ("builtins.isinstance", "builtins.len", "builtins.hasattr", "builtins.type") and not (e.kind == "call" and (e.fn or "").endswith(("Error", "Exception"))):
            out += [a for a in list(e.args) + list(e.kw.values()) if isinstance(a, T)]
            if conds:
                out += [x for x in e.pc if isinstance(x, T) and not guard(x)]
    for li in I.loopinfo.values():
        out += [x for x in [li.get("iter"), *li.get("init", {}).values()] if isinstance(x, T)]
    return out


def mentions_any(vals, t):
    seen = set()
    for v in vals:
        for x in visible(v) if v not in seen else ():
            if x is t:
                return v
        seen.add(v)
    return None


def engine(c, full, giv, none, extra=None, key=None):
    kw = {"config": CFG, "orientation": NONE, "nb_img": NONE, **{n: NONE for n in none}, **(extra or {})}
    if full is STATIC:
        kw.setdefault("tdiff", NONE)
    pre = [given(CFG)] + [given(S(g)) for g in giv] + [T("truth", S(g)) for g in giv if g in ("directivity", "device")] + [given(attr(CFG, n)) for n in CONF]
    pre += [T("truth", attr(CFG, n)) for n in ("directivity", "device")]
    r = c.run(full, kw=kw, pre=pre, key=("c09", full, tuple(giv), tuple(none), key), updates=True, symty={CFG: frozenset({"SimulationConfig"}), ROOM: frozenset({"Room"})})
    r.assumed = pre
    return r


def named(x):
    """Does the expression's own name say it is a configuration?"""
    n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else ""
    return "cfg" in n.lower() or "conf" in n.lower()


def precedence(c):
    for full in (STATIC, DYNAMIC):
        nm = full.split(".")[-1]
        with c.rule("C09.explicit", nm):
            r = engine(c, full, ("max_order", "tmax", "directivity", "device"), ("nsample",))
            vs = values(r)
            cs = vs + values(r, True)
            for p in CONF:
                hit = mentions_any(cs if p in ("directivity", "device") else vs, attr(CFG, p))
                used = mentions_any(cs, S(p))
                if hit is not None:
                    c.ob("C09.explicit", f"{nm}({p})", False, f"with {p} given, the configuration's {p} still takes part")
                else:
                    c.ob("C09.explicit", f"{nm}({p})", True if used is not None else False, f"{p} is used as given" if used is not None else f"{p} has no effect when given")
            r = engine(c, full, ("max_order", "nsample", "directivity", "device"), ("tmax",))
            vs = values(r)
            hit = mentions_any(vs, attr(CFG, "tmax"))
            used = mentions_any(vs, S("nsample"))
            if hit is not None:
                c.ob("C09.explicit", f"{nm}(nsample)", False, "with nsample given, the configuration's tmax still takes part")
            else:
                c.ob("C09.explicit", f"{nm}(nsample)", used is not None, "nsample is used as given" if used is not None else "nsample has no effect when given")
        with c.rule("C09.fallback", nm):
            r = engine(c, full, (), ("max_order", "tmax", "nsample", "directivity", "device"))
            cs = values(r, True)
            for p in CONF:
                hit = mentions_any(cs, attr(CFG, p))
                c.ob("C09.fallback", f"{nm}({p})", hit is not None, f"the configuration's {p} is used when {p} is not passed" if hit is not None else f"the configuration's {p} has no effect when {p} is not passed")
            if not isinstance(r.ret, T) or r.ret.op == "dead":
                c.ob("C09.fallback", nm, False, "a configuration that gives order, length, directivity and device is refused")


def options(c):
    """Every field of the configuration is read somewhere it can matter."""
    P = c.P
    fields = None
    home = None
    for m in P.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == "SimulationConfig":
                fields, home = [s.target.id for s in n.body if isinstance(s, ast.AnnAssign)], (m, n)
    if not fields:
        raise AnalysisBroken("SimulationConfig vanished")
    reads = {}
    others = {s.target.id for m in P.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef) and n is not home[1] for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
    for m in P.modules.values():
        if m.name.endswith("io.metadata"):
            continue
        for x in ast.walk(m.tree):
            if m is home[0] and any(x is y for y in ast.walk(home[1])):
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and (named(x.value) or x.attr not in others):
                reads.setdefault(x.attr, m.name)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "getattr" and len(x.args) > 1:
                if isinstance(x.args[1], ast.Constant):
                    reads.setdefault(x.args[1].value, m.name)
                elif named(x.args[0]):
                    reads.setdefault("*", m.name)
    sure = {}
    for full in (STATIC, DYNAMIC):
        r = engine(c, full, (), ("max_order", "tmax", "nsample", "directivity", "device"))
        sure[full] = values(r, True)
    for f in fields:
        w = f"SimulationConfig.{f}"
        if f in SEMANTIC:
            for full in (STATIC, DYNAMIC):
                with c.rule("C09.option", w):
                    hit = mentions_any(sure[full], attr(CFG, f))
                    c.ob("C09.option", f"{w} in {full.split('.')[-1]}", hit is not None, "has an effect" if hit is not None else "has no effect")
            continue
        if f == "seed":
            with c.rule("C09.option", w):
                r = engine(c, STATIC, ("tdiff",), (), extra={"tdiff": S("tdiff")}, key="tail")
                hit = mentions_any(values(r, True), attr(CFG, f))
                c.ob("C09.option", w, hit is not None, "decides the diffuse tail" if hit is not None else "has no effect on the diffuse tail")
            continue
        read = f in reads
        hit = any(mentions_any(v, attr(CFG, f)) is not None for v in sure.values())
        if hit or read:
            c.ob("C09.option", w, True, "read by the engine" if hit else f"read in {reads[f]}")
        else:
            c.ob("C09.option", w, None if "*" in reads else False, "no code reads this option: setting it changes nothing")


def simulator(c):
    P = c.P
    full = resolve_method(P, "ISMSimulator", "simulate")
    cls = next(n for m in P.modules.values() for n in m.tree.body if isinstance(n, ast.ClassDef) and n.name == "ISMSimulator")
    fields = [s.target.id for s in cls.body if isinstance(s, ast.AnnAssign)]
    opt = [f for f in fields if f not in ("max_order",)]
    for kind in ("StaticScene", "DynamicScene"):
        target = STATIC if kind == "StaticScene" else DYNAMIC
        for case in ("given", "tmax only", "nsample only"):
            nones = [] if case == "given" else [f for f in opt if f != case.split()[0]]
            calls = []

            def record(which):
                def fn(I, a, kw, st):
                    calls.append((which, list(a), {k: I.freeze(st, v) for k, v in kw.items()}))
                    return T("call", T("ext", "engine." + which), tuple(I.freeze(st, x) for x in a), ())
                return fn
            pre = [given(CFG)] + [(absent if f in nones else given)(attr(SELF, f)) for f in opt] + [given(attr(CFG, f)) for f in CONF]
            pre += [T("truth", attr(SELF, f)) for f in ("directivity", "device") if f not in nones]
            with c.rule("C09.forward", f"{kind}, {case}"):
                r = c.run(full, kw={"scene": SCENE, "config": CFG}, pre=pre, key=("c09", kind, case), rewrite={STATIC: record("static"), DYNAMIC: record("dynamic")},
                          symty={SCENE: frozenset({kind}), CFG: frozenset({"SimulationConfig"}), SELF: frozenset({"ISMSimulator"})})
                mine = [x for x in calls if x[0] == ("static" if kind == "StaticScene" else "dynamic")]
                if not mine:
                    c.ob("C09.forward", f"{kind}, {case}", None if not calls else False, "the engine call was not found" if not calls else "the other engine is called")
                    continue
                for which, a, kw in mine:
                    if a or any(k is None for k in kw):
                        c.ob("C09.forward", f"{kind}, {case}", None, "arguments not identified")
                        continue
                    for f in fields:
                        ok, d = forwarded(r.I, kw.get(f, NONE), f, f in nones)
                        c.ob("C09.forward", f"{kind}: {f} ({case})", ok, d)
                    v = kw.get("config", NONE)
                    c.ob("C09.forward", f"{kind}: config ({case})", True if v is CFG else None if any(x is CFG for x in subterms(v)) else False, "configuration handed on" if v is CFG else f"the engine gets {show(v, 2)} instead of the configuration")
                    for p, q in {"room": "room", **({"sources": "sources", "mics": "mics"} if which == "static" else {"src_traj": "src_traj", "mic_traj": "mic_traj"})}.items():
                        v = kw.get(p, NONE)
                        want = attr(SCENE, q)
                        c.ob("C09.forward", f"{kind}: {p} ({case})", True if v is want else None if any(x is want for x in subterms(v)) else False, "the scene's own" if v is want else f"the engine gets {show(v, 2)}")
                result(c, r, kind, case)
    conflicts(c, full, cls)


def forwarded(I, v, f, none):
    own, conf = attr(SELF, f), attr(CFG, f)
    has = [x for x in visible(v)]
    if not none:
        if v is own:
            return True, "handed on as given"
        if own in has:
            return None if conf in has and f not in ("max_order", "tmax") else True, "derived from the simulator's value"
        if conf in has and f in ("max_order", "tmax"):
            return True, "equal to the configuration's, which may not differ"
        return False, f"the simulator's {f} does not reach the engine: it gets {show(v, 2)}"
    if v is NONE or v is own:
        return True, "left to the engine"
    if f in CONF:
        if conf in has:
            return True, "taken from the configuration"
        return False, f"without an own {f} the simulator passes {show(v, 2)}, which overrides the configuration's"
    if is_const(v) or v.op == "ext":
        return False, f"without an own {f} the simulator passes {show(v, 2)}"
    return None, f"computed {f}"


def result(c, r, kind, case):
    I = r.I
    ret = I.freeze(r.state, r.ret) if isinstance(r.ret, T) else None
    if ret is None or ret.op != "inst" or "RIRResult" not in str(ret.args[0]):
        c.ob("C09.result", f"{kind}, {case}", None, "result object not identified")
        return
    fs = dict(ret.args[1])
    want = {"config": CFG, "seed": attr(CFG, "seed"), "scene": SCENE}
    for k, w in want.items():
        v = fs.get(k, NONE)
        c.ob("C09.result", f"{kind}: RIRResult.{k}", True if v is w else None if w in visible(v) else False, f"RIRResult.{k} is the one used" if v is w else f"RIRResult.{k} is {show(v, 2)}")
    v = fs.get("rirs", NONE)
    c.ob("C09.result", f"{kind}: RIRResult.rirs", True if (callname(v) or "").startswith("engine.") else None if any((callname(x) or "").startswith("engine.") for x in subterms(v)) else False, "the engine's output")


def conflicts(c, full, cls):
    for kind in ("StaticScene", "DynamicScene"):
        for f in ("max_order", "tmax"):
            a, b = attr(SELF, f), attr(CFG, f)
            cases = [("less", [T("cmp", "<", a, b), T("truth", a), T("truth", b)]), ("greater", [T("cmp", "<", b, a), T("truth", a), T("truth", b)])]
            if f == "max_order":
                cases += [("0 against a positive one", [neg(T("truth", a)), T("truth", b), T("cmp", "<", a, b), T("cmp", "==", a, const(0))]),
                          ("a positive one against 0", [T("truth", a), neg(T("truth", b)), T("cmp", "<", b, a), T("cmp", "==", b, const(0))])]
            for nm, extra in cases:
                w = f"{kind}: {f}, {nm}"
                with c.rule("C09.conflict", w):
                    def stop(I, x, kw, st):
                        return T("call", T("ext", "engine.any"), (), ())
                    pre = [given(CFG), given(a), given(b), neg(T("cmp", "==", a, b)), neg(T("cmp", "==", b, a))] + extra
                    r = c.run(full, kw={"scene": SCENE, "config": CFG}, pre=pre, key=("c09x", kind, f, nm), rewrite={STATIC: stop, DYNAMIC: stop},
                              symty={SCENE: frozenset({kind}), CFG: frozenset({"SimulationConfig"}), SELF: frozenset({"ISMSimulator"}), a: INT if f == "max_order" else NUM, b: INT if f == "max_order" else NUM})
                    dead = not isinstance(r.ret, T) or r.ret.op == "dead"
                    related = [e for e in r.events if e.kind == "raise" and any(x is a for p in e.pc for x in visible(p)) and any(x is b for p in e.pc for x in visible(p))]
                    hard = [e for e in related if any(callname(x) for p in e.pc for x in visible(p) if any(y is a for y in visible(x)))]
                    c.ob("C09.conflict", w, True if dead else None if hard else False, "refused" if dead else f"the simulator's {f} and a different {f} of the configuration are accepted together")


def check(c):
    precedence(c)
    options(c)
    simulator(c)
