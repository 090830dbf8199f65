"""C03: staged extraction: extract into a scratch tree, then one atomic move to the directory whose existence means 'complete'."""
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken
from checks.c01 import EXTRACT, WORDS
from checks.c02 import MOVE, COPIES

ATOMIC = {"m.replace", "m.rename", "os.replace", "os.rename"}
EXISTS = {"m.exists", "m.is_dir", "os.path.exists", "os.path.isdir", "m.is_file", "os.path.isfile"}
MKDIR = {"m.mkdir", "os.makedirs", "os.mkdir"}
TREECOPY = {"shutil.copytree", "shutil.move"}
WRITERS = {"m.touch", "m.write_text", "m.write_bytes"}


def check(c):
    n = 0
    rs = roots(c.P, WORDS)
    for f in rs:
        with c.rule("C03.analyse", f):
            r = c.run(f)
            if not outermost_needed(rs, f, [e for e in r.events if e.kind == "call" and e.fn in EXTRACT]):
                continue
            n += one(c, r, f)
    if not n:
        with c.rule("C03.anchor"):
            raise AnalysisBroken("no archive extraction reachable from a public entry")


def one(c, r, root):
    I = r.I
    ev = linear(r.trace)
    ext = []
    for e in ev:
        if e.kind == "call" and e.fn in EXTRACT and e.fn != "m.extractfile" and e.args:
            d = e.kw.get("path") or e.kw.get("extract_dir") or (e.args[2] if e.fn == "m.extract" and len(e.args) > 2 else e.args[1] if e.fn != "m.extract" and len(e.args) > 1 else None)
            ext.append((e, d))
    # presence: what the missing-dataset error (or the extraction guard) looks at
    pres = []
    for e in ev:
        if e.kind == "call" and e.fn in EXISTS and e.args:
            p = pnorm(e.args[0])
            if p not in pres:
                pres.append(p)
    guard = set()
    for e in ev:
        if e.kind == "raise" and e.fn in ("FileNotFoundError",) or (e.kind == "call" and e.fn in EXTRACT):
            for p in e.pc:
                for a in atoms(p):
                    x = a.args[0] if a.op == "truth" else a
                    if callname(x) in EXISTS:
                        guard.add(pnorm(cargs(x)[0]))
    archives = {pnorm(e.args[0]) for e in ev if e.kind == "call" and e.fn in ("tarfile.open", "shutil.unpack_archive", "zipfile.ZipFile") and e.args}
    markers = {pnorm(e.args[0]) for e in ev if e.kind == "call" and e.fn in WRITERS}
    ds = [g for g in guard if g not in archives]
    # an archive object told to ignore errors extracts a prefix without raising
    for e in ev:
        lv = e.kw.get("errorlevel") if e.kind == "call" and e.fn in ("tarfile.open", "tarfile.TarFile", "tarfile.TarFile.open") else e.args[1] if e.kind == "setattr" and e.fn == "errorlevel" and len(e.args) > 1 else None
        if isinstance(lv, T) and lv.op == "const" and isinstance(lv.args[0], int) and lv.args[0] < 1:
            c.ob("C03.errors-raised", f"{site(e)} via {root}", False, "errorlevel=0 makes the extraction ignore read and write errors, so a partly extracted tree is moved into place as complete")
    for e, d in ext:
        w = f"{site(e)} via {root}"
        if d is None:
            c.ob("C03.staged", w, None, "destination not identified")
            continue
        dn = pnorm(d)
        hit = [g for g in ds if under(g, dn) and g not in markers]
        gs = [g for g in ds if g in markers]
        if hit and not gs:
            c.ob("C03.staged", w, False, f"the archive is unpacked directly into {show(dn)[:80]}, so an interruption leaves a partial {show(hit[0])[:80]} that a later run accepts")
            continue
        if hit:
            c.ob("C03.staged", w, None, "completion marker scheme")
            continue
        if not ds:
            c.ob("C03.staged", w, None, "presence test not identified")
            continue
        c.ob("C03.staged", w, True, f"unpacked into {show(dn)[:100]}")
    if not ext:
        return 0
    staged_roots = [pnorm(d) for e, d in ext if d is not None]
    moved = False
    for e in ev:
        if e.kind != "call" or len(e.args) < 1:
            continue
        w = f"{site(e)} via {root}"
        if e.fn in MKDIR:
            p = pnorm(e.args[0])
            for g in ds:
                if under(p, g) and any(x.n > 0 for x, _ in ext):
                    if g not in markers:
                        c.ob("C03.one-step", w, False, f"the dataset directory {show(g)[:80]} is created before its content is complete")
        if (e.fn in MOVE or e.fn in TREECOPY) and len(e.args) > 1 and not (e.fn == "m.replace" and "str" in (I.ty(e.args[0]) or ())):
            i, j = MOVE.get(e.fn, (0, 1))
            s, d = pnorm(e.args[i]), pnorm(e.args[j])
            tgt = [g for g in ds if d is g]
            below = [g for g in ds if under(d, g) and d is not g]
            fromst = any(under(s, z) for z in staged_roots) or any(contains(s, z) for z in staged_roots)
            if below and fromst:
                c.ob("C03.one-step", w, False, f"the tree is moved piecemeal below {show(below[0])[:80]}")
            if tgt:
                before = [x for x, _ in ext if x.n < e.n]
                if not before:
                    continue
                moved = True
                if e.fn == "shutil.copytree" or e.fn in COPIES:
                    c.ob("C03.one-step", w, False, f"{e.fn} fills the dataset directory file by file")
                elif e.fn == "shutil.move":
                    tmp = [x for z in staged_roots for x in subterms(z) if callname(x) in ("tempfile.TemporaryDirectory", "tempfile.mkdtemp")]
                    loc = any("dir" in ckw(x) for x in tmp)
                    c.ob("C03.one-step", w, None if loc or not tmp else False, "shutil.move from the system temporary directory copies file by file")
                else:
                    c.ob("C03.one-step", w, True, e.fn)
    order(c, r, r.trace, ds, root)
    if ds and any(v is True and ru == "C03.staged" for ru, s_, v, d_ in c.obs if s_.endswith(root)) and not moved:
        c.ob("C03.moved", root, None, "final move not recognised")
    return 1


def order(c, r, trs, ds, root):
    """A move to the dataset directory must not run when the extraction failed."""
    def is_move(e):
        return e.kind == "call" and e.fn in (set(MOVE) | TREECOPY) and len(e.args) > 1 and any(pnorm(e.args[MOVE.get(e.fn, (0, 1))[1]]) is g for g in ds)

    def is_ext(e):
        return e.kind == "call" and e.fn in EXTRACT

    def go(ts):
        for i, t in enumerate(ts):
            if t.kind == "try":
                b = linear(t.body)
                if any(is_ext(e) for e in b):
                    if any(is_move(e) for e in linear(t.final)):
                        c.ob("C03.only-complete", root, False, "the move to the dataset directory runs in a finally block, also after a failed extraction")
                    if not any(is_move(e) for e in b) and t.handlers:
                        mx = max((e.n for e in linear([t])), default=0)
                        later = [e for e in allev if e.n > mx and is_move(e)]
                        for h in t.handlers:
                            hb = h[-1]
                            he = linear(hb)
                            ends = any(e.kind == "raise" for e in he) or any(x.kind in ("ret", "break", "cont") for x in hb)
                            if later and not ends and not any(is_ext(e) for e in he):
                                c.ob("C03.only-complete", root, False, "a failed extraction is swallowed and the partial tree is still moved into place")
                    for h in t.handlers:
                        if any(is_move(e) for e in linear(h[-1])) and not any(is_ext(e) for e in linear(h[-1])):
                            c.ob("C03.only-complete", root, False, "the handler of a failed extraction moves the partial tree into place")
            go(t.body)
            go(t.alt)
            for h in t.handlers:
                go(h[-1])
            go(t.final)
    allev = linear(r.trace)
    n0 = len(c.obs)
    go(trs)
    if len(c.obs) == n0:
        c.ob("C03.only-complete", root, True, "no path moves a tree whose extraction failed")
