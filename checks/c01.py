"""C01: every archive extraction is dominated by a validation of all members that refuses links and escapes."""
from vf.terms import *
from vf.rules import *
from vf.peval import PEval, Member, PP

EXTRACT = {"m.extractall", "m.extract", "shutil.unpack_archive", "m._extract_member", "m.makefile", "m.extractfile"}
WORDS = {"extractall", "extract", "unpack_archive", "_extract_member"}


def member_terms(f):
    out = set()
    for s in subterms(f):
        if isinstance(s, T):
            n = callname(s)
            if n in ("m.issym", "m.islnk", "m.isdir", "m.isfile", "m.isreg"):
                out.add(cargs(s)[0])
            elif s.op == "attr" and s.args[1] in ("name", "linkname", "path", "type", "mode") and contains_op(s.args[0], "elem"):
                out.add(s.args[0])
    return out


def contains_op(t, op):
    return any(isinstance(x, T) and x.op == op for x in subterms(t))


def is_member_name(t):
    return t.op == "attr" and t.args[1] in ("name", "path") and contains_op(t.args[0], "elem")


def has_name(t):
    return any(isinstance(x, T) and is_member_name(x) for x in subterms(t))


def parse_target(t):
    """(resolved?, joined how, root, sound name?) for a term describing root/name."""
    resolved = False
    while callname(t) in PATHWRAP and cargs(t):
        if callname(t) in RESOLVERS:
            resolved = True
        t = cargs(t)[0]
    if t.op == "bin" and t.args[0] == "/" and has_name(t.args[2]):
        return resolved, "join", t.args[1], is_member_name(strip(t.args[2], PATHWRAP))
    n = callname(t)
    if n == "os.path.join" and len(cargs(t)) == 2:
        return resolved, "join", cargs(t)[0], is_member_name(strip(cargs(t)[1], PATHWRAP))
    if n == "m.joinpath":
        return resolved, "join", cargs(t)[0], is_member_name(strip(cargs(t)[1], PATHWRAP))
    if t.op in ("bin", "fstr"):
        parts = list(t.args[1:]) if t.op == "bin" and t.args[0] == "+" else []
        if parts:
            for z in parts:
                p = parse_target(z)
                if p is not None:
                    return p
    if (t.op == "fstr" or (t.op == "bin" and t.args[0] == "+")) and has_name(t):
        return resolved, "concat", None, True
    return None


class Attack:
    """Truth value of validation atoms for one kind of malicious member."""

    def __init__(self, kind):
        self.kind = kind
        self.roots = []
        self.why = None

    def contained(self, tgt, root, how):
        p = parse_target(tgt)
        if p is None:
            return None
        res, join, r, sound = p
        if r is not None:
            self.roots.append((r, root))
        if self.kind in ("sym", "lnk"):
            return True
        if not sound:
            return None
        if self.kind == "abs" and join == "concat":
            self.why = "the target is built by string concatenation, so an absolute name looks contained"
            return True
        if self.kind in ("dotdot", "sibling") and not res:
            self.why = "the target is compared without normalising '..'"
            return True
        if self.kind == "sibling" and how == "prefix":
            self.why = "a bare string prefix accepts names sharing the destination's prefix"
            return True
        return False

    def __call__(self, a):
        if a.op == "truth" and callname(a.args[0]):
            return self(a.args[0])
        n = callname(a)
        k = self.kind
        if n == "m.issym":
            return k == "sym"
        if n == "m.islnk":
            return k == "lnk"
        if n in ("m.isdev", "m.ischr", "m.isblk", "m.isfifo"):
            return False
        if n in ("m.isfile", "m.isreg"):
            return False if k in ("sym", "lnk") else self.reg
        if n == "m.isdir":
            return False if k in ("sym", "lnk") else not self.reg
        if n == "m.is_relative_to":
            return self.contained(cargs(a)[0], cargs(a)[1], "path")
        if n == "m.startswith" and has_name(cargs(a)[0]):
            s, p = cargs(a)[0], cargs(a)[1]
            if is_member_name(s):
                return k == "abs"
            sep = p.op in ("bin", "fstr") or callname(p) == "os.path.join"
            return self.contained(s, p, "sepprefix" if sep else "prefix")
        if n in ("m.is_absolute", "os.path.isabs") and has_name(cargs(a)[0]):
            return k == "abs" if parse_target(cargs(a)[0]) is None else None
        if a.op == "cmp":
            op, x, y = a.args
            for u, v in ((x, y), (y, x)):
                cu = callname(strip(u, {"builtins.str", "pathlib.Path"}))
                uu = strip(u, {"builtins.str", "pathlib.Path"})
                if op == "==" and cu in ("os.path.commonpath", "os.path.commonprefix"):
                    lst = cargs(uu)[0]
                    its = list(lst.args) if lst.op in ("list", "tuple") else []
                    tg = [z for z in its if has_name(z)]
                    ot = [z for z in its if not has_name(z)]
                    if len(tg) == 1 and len(ot) == 1 and pathcore(ot[0]) is pathcore(v):
                        return self.contained(tg[0], ot[0], "path" if cu.endswith("commonpath") else "prefix")
                    return None
            if op == "in":
                if is_const(x, "..") and has_name(y):
                    if parse_target(y) is None:
                        return k in ("dotdot", "sibling")
                    return None
                if y.op == "attr" and y.args[1] == "parents" and has_name(y.args[0]):
                    return self.contained(y.args[0], x, "path")
        return None


ATTACKS = (("sym", "a symbolic link"), ("lnk", "a hard link"), ("abs", "an absolute name"),
           ("dotdot", "a parent-directory name"), ("sibling", "a name that merely shares the destination's prefix"))


ROOT = PP("/data/set")
WITNESS = {
    "sym": [Member(n, b"2", 0, l) for n in ("data/x", "x", "./x") for l in ("y", "../y", "../../y", "/y", ".")],
    "lnk": [Member(n, b"1", 0, l) for n in ("data/x", "x", "./x") for l in ("data/y", "../y", "/y")],
    "abs": [Member(n, t, z) for n in ("/x", "/data/x", "/data/other/x", "/etc/data/x.wav", "//x/y") for t, z in ((b"0", 5), (b"0", 0), (b"5", 0))],
    "dotdot": [Member(n, t, z) for n in ("../x", "../data/x", "data/../../x", "./../x", "data/./../../x", "data/../../../x", "..", "../../../../../../x", "x/../..", "data/x/../../../y.wav", "../SET/x")
               for t, z in ((b"0", 5), (b"0", 0), (b"5", 0))],
    "sibling": [Member(n, t, z) for n in ("../set2/x", "../set-old/x/y", "data/../../set.bak") for t, z in ((b"0", 5), (b"5", 0))],
}


def same_members(it, tar):
    it = strip(it, {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "builtins.sorted"})
    if it is tar:
        return True
    if callname(it) == "m.getmembers" and cargs(it) and cargs(it)[0] is tar:
        return True
    if it.op == "item" and it.args[1].op == "slice" and same_members(it.args[0], tar):
        return "slice"
    return False


def check(c):
    rs = roots(c.P, WORDS)
    n = 0
    for f in rs:
        with c.rule("C01.analyse", f):
            r = c.run(f)
            I = r.I
            for e in r.events:
                if e.kind != "call" or e.fn not in EXTRACT or e.fn == "m.extractfile" or not e.args:
                    continue
                if e.fn in ("m.extract", "m.makefile") and "str" in (I.ty(e.args[0]) or ()):
                    continue
                n += 1
                one(c, r, e, f)
    if n == 0:
        from vf.loader import AnalysisBroken
        with c.rule("C01.anchor"):
            raise AnalysisBroken("no archive extraction is reachable from any public entry")


def one(c, r, e, root):
    I = r.I
    where = f"{site(e)} via {root}"
    if e.fn == "shutil.unpack_archive":
        c.ob("C01.validated", where, False, "shutil.unpack_archive extracts without the member check")
        return
    tar = e.args[0]
    dest = e.kw.get("path") or (e.args[2] if e.fn == "m.extract" and len(e.args) > 2 else e.args[1] if e.fn == "m.extractall" and len(e.args) > 1 else None)
    flt = e.kw.get("filter")
    facts, partial, mention = [], False, False
    # checks made inside a generator run while the archive is being unpacked
    late = set()
    if e.raw:
        for g in [*e.raw[0], *e.raw[1].values()]:
            if isinstance(g, T) and g in I.lazy:
                a, b = I.lazy[g]
                late |= {l for x in I.events[a:b] if x.kind == "raise" for l in x.loops}
    lids = []
    for p in e.pc:
        if p.op == "forall":
            if p.args[0] in late:
                continue
            li = I.loopinfo.get(p.args[0], {})
            m = same_members(li.get("iter") if isinstance(li.get("iter"), T) else NONE, tar)
            if m is True:
                facts.append(p.args[1])
                lids.append(p.args[0])
                continue
            if m == "slice":
                partial = True
        if contains(p, tar) and any(callname(s) in ("m.getmembers", "m.getnames", "m.issym", "m.islnk") or (isinstance(s, T) and s.op == "attr" and s.args[1] in ("issym", "islnk")) for s in subterms(p)):
            mention = True
    # other loops over the members seen earlier in the trace (with break etc.)
    prior = any(x.kind == "raise" and x.n < e.n and any(same_members(I.loopinfo.get(l, {}).get("iter") or NONE, tar) for l in x.loops) for x in r.events)
    inloop = [l for l in e.loops if same_members(I.loopinfo.get(l, {}).get("iter") or NONE, tar)]
    if not facts:
        if late:
            c.ob("C01.check-before-write", where, False, "members are checked by a generator that the extraction consumes, so earlier members are written before a later unsafe one is refused")
        elif partial:
            c.ob("C01.all-members", where, False, "only a slice of the archive's members is checked before extraction")
        elif inloop and any(has_name(p) or member_terms(p) for p in e.pc):
            c.ob("C01.check-before-write", where, False, "members are extracted in the same loop that checks them, so earlier members are written before a later unsafe one is refused")
        elif mention or prior or (flt is not None and flt is not NONE):
            c.ob("C01.validated", where, None, "validation form not understood")
        else:
            c.ob("C01.validated", where, False, "extraction is not preceded by any check of the archive's members")
        return
    F = conj(facts)
    roots_used = []
    core = pathcore(dest) if dest is not None else None
    # a check made in a loop of another form may refuse what these facts let through
    other = any(x.kind == "raise" and x.n < e.n and x.loops and not set(x.loops) & (set(lids) | late) and same_members(I.loopinfo.get(x.loops[-1], {}).get("iter") or NONE, tar) != "slice" and
                any(isinstance(s, T) and (contains(s, tar) or s.op in ("mu", "unknown", "loopout")) for p in x.pc for s in subterms(p)) for x in r.events)
    renamed = any(x.kind in ("setattr", "mut") and x.args and isinstance(x.args[0], T) and contains_op(x.args[0], "elem") and contains(x.args[0], tar) for x in r.events) or "members" in e.kw
    for k, txt in ATTACKS:
        vals, why = [], None
        got = [(m, PEval({core: ROOT} if core is not None else {}, {l: m for l in lids}, I.loopinfo).cond(unhash(F))) for m in WITNESS[k]]
        acc = [m for m, v in got if v is True]
        if acc and not renamed:
            c.ob(f"C01.refuses.{k}", where, None if other else False, f"{txt} passes the member check: {acc[0]} below {ROOT}")
            continue
        for reg in (True, False):
            a = Attack(k)
            a.reg = reg
            v = beval(F, a)
            vals.append(v)
            why = a.why or why
            roots_used += a.roots
        if True in vals:
            c.ob(f"C01.refuses.{k}", where, None if other else False, f"{txt} passes the member check" + (f": {why}" if why else ""))
        elif all(v is False for m, v in got):
            c.ob(f"C01.refuses.{k}", where, True, f"{len(got)} members refused by {show(F, 5)[:100]}")
        elif None in vals or acc:
            # a check that mentions nothing able to see the attack cannot refuse it
            c.ob(f"C01.refuses.{k}", where, None, "check not fully understood: " + show(F, 6)[:160])
        else:
            c.ob(f"C01.refuses.{k}", where, True, show(F, 5)[:120])
    if dest is None:
        c.ob("C01.destination", where, False, "extraction without an explicit destination goes to the current directory")
        return
    d = pathcore(dest)
    bad = False
    for jr, cr in roots_used:
        for z in (jr, cr):
            if z is None:
                continue
            while z.op == "bin" and z.args[0] == "+":
                z = z.args[1]
            zc = pathcore(z)
            if zc is not d:
                bad = True
                if contains(zc, d) or contains(d, zc):
                    c.ob("C01.destination", where, False, f"members are checked against {show(z)} but extracted to {show(dest)}")
                    return
    c.ob("C01.destination", where, None if bad or not roots_used else True, f"checked root and destination: {show(d)}")
