"""C28: exceptional control-flow walk: an exception raised while plotting, encoding or writing visual output never leaves the output helpers or the dataset builder, is logged at warning level or above, and skips no audio or metadata output."""
import sys
from vf.terms import *
from vf.rules import *
from vf.flow import Flow
from vf.loader import AnalysisBroken
from .c27 import calm

VIZ = "torchrir.viz"
HELPERS = ("save_scene_plots", "save_scene_gifs", "save_scene_videos", "save_scene_layout_images")
LOG = {"m.warning", "m.warn", "m.error", "m.critical", "m.exception", "m.fatal", "warnings.warn", "logging.warning", "logging.error", "logging.exception", "logging.critical", "logging.warn"}
PRODUCE = {"m.savefig", "m.save", "soundfile.write", "subprocess.run", "subprocess.check_call", "subprocess.check_output", "subprocess.call", "m.print_figure", "m.imsave", "matplotlib.pyplot.savefig", "m.write_bytes", "m.replace", "m.rename"}
FILES = {"soundfile.write", "json.dump", "m.write_text", "m.write_bytes", "m.write", "torch.save", "numpy.save", "numpy.savez"}
SOFT = {"m.use", "m.legend", "m.tight_layout", "m.update", "m.text", "m.annotate", "m.margins", "m.grid"}
SURE = set(sys.stdlib_module_names) | {"torch", "numpy", "torchrir", "soundfile", "scipy"}


def warns(e):
    if e.kind != "call":
        return False
    if e.fn in ("m.log", "logging.log"):
        lv = e.args[1] if e.fn == "m.log" and len(e.args) > 1 else e.args[0] if e.args else None
        return lv is not None and (is_const(lv) and isinstance(lv.args[0], int) and lv.args[0] >= 30 or lv.op == "ext" and lv.args[0] in ("logging.WARNING", "logging.ERROR", "logging.CRITICAL", "logging.WARN"))
    return e.fn in LOG


def fails(e):
    """Can this event raise?"""
    if e.kind == "import":
        return (e.fn or "").split(".")[0] not in SURE
    return e.kind == "raise" or e.kind == "call" and not calm(e) and not warns(e)


def soft(e):
    """A failure that may be replaced by a plainer picture: style sheets, decorations, optional imports."""
    fn = e.fn or ""
    return e.kind == "import" or "style" in fn or "rc" in fn.split(".")[-1] or fn in SOFT or fn.startswith("m.set_") or fn.startswith("m.get_")


def visual(e):
    fn = e.fn or ""
    return any(s.startswith(VIZ + ".") for s in e.stack) or e.mod == VIZ or e.mod.startswith(VIZ + ".") or fn.startswith(("matplotlib.", "scienceplots", "mpl_toolkits"))


def group(e):
    """The visual output an operation belongs to: the outermost visualization function on its call path."""
    return next((s for s in e.stack if s.startswith(VIZ + ".")), e.stack[-1] if e.stack else e.mod)


def automaton(scope):
    """state: (outputs attempted in this iteration with their outcome, unreported failure, the same for earlier iterations)."""
    hits = {}

    def step(e, q):
        phase, pend, old = q
        exits = []
        if e.kind == "call" and e.fn in FILES and not scope(e):
            hits.setdefault(site(e), set()).update({(0, *x) for x in phase} | {(1, *x) for x in old})
        if warns(e):
            pend = None
        elif scope(e) and fails(e):
            kind = "exc:" + (e.fn if e.kind == "raise" and e.fn else "*")
            exits = [(kind, q if kind == "exc:<reraise>" else (phase if soft(e) else outcome(phase, group(e), "bad"), mark(e), old))]
            if e.kind == "call" and e.fn in PRODUCE and pend is not None and pend[0]:
                pend = None
            phase = outcome(phase, group(e), "ok")
        elif e.kind == "raise":
            exits = [("exc:" + (e.fn or "?"), q)]
        return (phase, pend, old), exits
    return step, hits


SEEN = {}


def mark(e):
    """Abstract failure: whether a plainer picture may replace it, and where it happened."""
    m = (soft(e), e.stack[-1] if e.stack else e.mod)
    SEEN.setdefault(m, e)
    return m


def outcome(phase, g, how):
    if (g, "bad") in phase or (g, how) in phase:
        return phase
    return frozenset(x for x in phase if x[0] != g) | {(g, how)}


def joined(q):
    ph = q[2]
    for g, how in q[0]:
        ph = outcome(ph, g, how)
    return ph


def muxing(r):
    """Branches that skip or lose the sound of a video: encoder missing, mixture missing, encoder failed."""
    ev = {e.res: e for e in linear(r.trace) if e.kind == "call" and e.res is not None and e.fn in ("subprocess.run", "subprocess.call", "shutil.which")}

    def branch(c, v, q):
        phase, pend, old = q
        lost = None
        if c.op == "cmp":
            for a in c.args[1:]:
                x = a
                if isinstance(x, T) and x.op == "attr" and x.args[1] == "returncode":
                    x = x.args[0]
                e = ev.get(x)
                o = [y for y in c.args[1:] if y is not a]
                if e is not None and e.fn == "shutil.which" and c.args[0] == "is" and o and o[0] is NONE and v:
                    lost = e
                elif e is not None and e.fn != "shutil.which" and o and is_const(o[0]) and o[0].args[0] == 0 and (c.args[0] == "==" and not v or c.args[0] == "!=" and v):
                    lost = e
        elif c.op == "truth":
            x = c.args[0]
            if isinstance(x, T) and x.op == "attr" and x.args[1] == "returncode":
                e = ev.get(x.args[0])
                lost = e if v and e is not None else None
            elif x in ev:
                lost = ev[x] if not v and ev[x].fn == "shutil.which" or v and ev[x].fn != "shutil.which" else None
            elif callname(x) in ("m.exists", "m.is_file") and not v and any(y.op == "sym" and y.args[0] == "mixture_path" for y in subterms(cargs(x)[0])):
                lost = next((e for e in linear(r.trace) if e.res is x), None)
        return (phase, mark(lost), old) if lost is not None else q
    return branch


def check(c):
    pub = {n: full for full, n in [(f, f.rsplit(".", 1)[1]) for f, m, nd, o in all_functions(c.P) if f.startswith(VIZ + ".") and o is None]}
    seen = 0
    for h in HELPERS:
        full = c.P.resolve(VIZ, h) if hasattr(c.P, "resolve") else pub.get(h)
        if full is None:
            raise AnalysisBroken(f"{VIZ}.{h} not found")
        with c.rule("C28.contained", full):
            r = c.run(full)
            step, hits = automaton(lambda e: True)
            fl = Flow(r, step, lambda e: fails(e) or warns(e), muxing(r))
            out = fl.run((frozenset(), None, frozenset()))
            prod = [e for e in linear(r.trace) if e.kind == "call" and e.fn in PRODUCE]
            seen += bool(prod)
            esc = {}
            for k, qs in out.items():
                if k.startswith("exc:"):
                    for q, w in qs.items():
                        e = w or SEEN.get(q[1])
                        esc.setdefault(site(e) if e else "?", (k, e))
            n = sum(1 for e in linear(r.trace) if fails(e))
            c.ob("C28.contained", full, not esc, "; ".join(f"{e.fn} can raise out of the helper ({s})" for s, (k, e) in list(esc.items())[:3]) or f"{n} operations that can fail, none escapes")
            quiet = {}
            for k, qs in out.items():
                if k in ("fall", "ret"):
                    for q in qs:
                        if q[1] is not None:
                            quiet.setdefault(site(SEEN[q[1]]), SEEN[q[1]])
            c.ob("C28.warned", full, None if quiet and fl.over else not quiet, "; ".join(f"a failure of {e.fn} is not reported as a warning ({s})" for s, e in list(quiet.items())[:3]) or "every handled failure is logged at warning level or above")
    full = "torchrir.datasets.dynamic_cmu_arctic.build_dynamic_cmu_arctic_dataset"
    with c.rule("C28.builder", full):
        r = c.run(full)
        step, hits = automaton(visual)
        def outer(t):
            ev = linear(t.body)
            return any(visual(e) and fails(e) for e in ev) and any(e.kind == "call" and e.fn in FILES and not visual(e) for e in ev)

        def again(t, q):        # outputs of this iteration depend on this iteration's failures, those of later ones on all before
            return (frozenset(), q[1], joined(q)) if outer(t) else q

        def left(t, q):
            return (joined(q), q[1], q[2]) if outer(t) else q
        fl = Flow(r, step, lambda e: visual(e) and fails(e) or warns(e) or e.kind == "call" and e.fn in FILES, None, again, left)
        out = fl.run((frozenset(), None, frozenset()))
        ops = [e for e in linear(r.trace) if visual(e) and fails(e)]
        if not ops:
            raise AnalysisBroken("the builder produces no visual output")
        esc = {}
        for k, qs in out.items():
            if k.startswith("exc:"):
                for q, w in qs.items():
                    if w is not None and visual(w):
                        esc.setdefault(site(w), w)
        c.ob("C28.builder", full, not esc, "; ".join(f"{e.fn} can raise out of the builder ({s})" for s, e in list(esc.items())[:3]) or f"{len(ops)} visual operations, none aborts the builder")
        skipped = sorted({f"{s} after {g}" for s, ph in hits.items() for i, g, how in ph if how == "ok" and (i, g, "bad") not in ph})
        c.ob("C28.remaining", full, None if skipped and fl.over else not skipped, f"not reached after a failed visual output: {skipped[:3]}" if skipped else f"{len(hits)} output sites are reached after a failed visual output as well")
    if not seen:
        raise AnalysisBroken("no visual output found")
