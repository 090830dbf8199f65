"""C24: value-flow analysis of the attribution records of every dataset class (through the public attribution_info), of refusals for unknown datasets, and of the text written to attribution files, field by field, including records with a field missing."""
import ast
from vf.law import *
from vf.simconf import *
from vf.rules import *
from vf.loader import AnalysisBroken, PKG
from .c08 import visible
from .c29 import Names

FIELDS = ("dataset", "source", "license_name", "license_url", "required_attribution")
# What the upstream corpora require (THIRD_PARTY_DATASETS.md): words every record must carry, by the host the data comes from.
FACTS = {
    "openslr.org": {"dataset": ("librispeech",), "source": ("openslr.org/12",), "license_name": ("attribution", "4.0"), "license_url": ("creativecommons.org/licenses/by/4.0",), "required_attribution": ("panayotov", "librispeech")},
    "festvox.org": {"dataset": ("arctic",), "source": ("festvox.org/cmu_arctic",), "license_name": ("permissive", "attribution"), "license_url": ("festvox.org",), "required_attribution": ("carnegie mellon",)},
}


def host(url):
    h = url.split("://", 1)[-1].split("/", 1)[0].split(":")[0]
    return ".".join(h.split(".")[-2:])


def hosts(c, m):
    """Hosts named by the string constants of a dataset's module and of the modules it takes constants from."""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith(("http://", "https://", "ftp://")):
            out.add(host(n.value))
    return out


def strings(t):
    return [x.args[0] for x in leaves(t) if x.op == "const" and isinstance(x.args[0], str)]


def datasets(c):
    """(module, class name) of every class answering attribution_info, except the abstract base."""
    out = []
    for m in c.P.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef) and f.name == "attribution_info":
                        body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                        if body and not all(isinstance(s, (ast.Raise, ast.Pass)) for s in body):
                            out.append((m, n))
    return out


def records(c):
    found = datasets(c)
    for m, n in found:
        nm = n.name
        with c.rule("C24.record", nm):
            src = f"from {m.name} import {nm}\ndef use(d):\n    a = {nm}.attribution_info(d)\n    return ({', '.join('a.' + f for f in FIELDS)}, a.subset, a.to_dict())\n"
            r = c.user(src, ("c24", nm), symty={S("d"): frozenset({nm})})
            if r.state is None or not isinstance(r.ret, T) or r.ret.op == "dead":
                c.ob("C24.record", nm, False, "attribution_info never returns a record")
                continue
            t = r.I.freeze(r.state, r.ret)
            if t.op != "tuple":
                c.ob("C24.record", nm, None, f"not followed: {show(t, 2)[:80]}")
                continue
            hs = [h for h in hosts(c, m) if h in FACTS]
            for f, v in zip(FIELDS, t.args):
                got = strings(v)
                if len(got) != len(leaves(v)):
                    empty = any(x is NONE for x in leaves(v))
                    c.ob("C24.record", f"{nm} {f}", False if empty else None, "is missing" if empty else f"not a constant: {show(v, 2)[:60]}")
                    continue
                bad = [s for s in got if not s.strip()]
                if bad:
                    c.ob("C24.record", f"{nm} {f}", False, "is empty")
                    continue
                for h in hs:
                    lack = [w for w in FACTS[h][f] for s in got if w not in s.lower()]
                    c.ob("C24.record", f"{nm} {f}", not lack, f"data from {h} is attributed with {f} = {got[0]!r}, which lacks {', '.join(map(repr, lack))}")
            if "subset" in {a.attr for a in ast.walk(n) if isinstance(a, ast.Attribute)}:
                own = attr(S("d"), "subset")
                c.ob("C24.subset", nm, any(x is own for x in visible(t.args[5])), f"the record does not name the subset used: {show(t.args[5], 2)[:60]}")
            d = t.args[6]
            vals = fields_of(d)
            if vals is None:
                c.ob("C24.todict", nm, None, f"to_dict not followed: {show(d, 2)[:80]}")
            else:
                for f, v in zip(FIELDS, t.args):
                    c.ob("C24.todict", f"{nm} {f}", vals.get(f) is v, f"to_dict gives {show(vals[f], 2)[:60] if f in vals else 'nothing'} for {f}")
    if not found:
        raise AnalysisBroken("no dataset class reports its attribution")


def fields_of(t):
    """{field: value} of a mapping made from a record."""
    if t.op == "call" and callname(t) in ("dataclasses.asdict", "builtins.vars", "builtins.dict") and cargs(t):
        return fields_of(cargs(t)[0])
    if t.op == "inst":
        return dict(t.args[1])
    if t.op == "dict":
        kv = [x.args if isinstance(x, T) else x for x in t.args]
        if all(len(x) == 2 and isinstance(x[0], T) and x[0].op == "const" for x in kv):
            return {k.args[0]: project(v) for k, v in kv}
    return None


def project(v):
    """d[k] of a mapping made from a record."""
    if v.op == "item" and v.args[1].op == "const":
        d = fields_of(v.args[0])
        if d and v.args[1].args[0] in d:
            return d[v.args[1].args[0]]
    return v


def lookup(c):
    """attribution_for: refuses what it does not know."""
    full = "torchrir.datasets.attribution.attribution_for"
    with c.rule("C24.unknown", "attribution_for"):
        r = c.user("from torchrir.datasets import attribution_for\ndef use(s):\n    return attribution_for('no_such_corpus', s)\n", "c24-unknown")
        dead = r.state is None or r.ret is None or isinstance(r.ret, T) and r.ret.op == "dead"
        c.ob("C24.unknown", "attribution_for", True if dead else False, f"an unknown dataset gets {show(r.I.freeze(r.state, r.ret), 2)[:80] if not dead else ''}")
    for key, h in (("cmu_arctic", "festvox.org"), ("librispeech", "openslr.org")):
        with c.rule("C24.lookup", key):
            r = c.user(f"from torchrir.datasets import attribution_for\ndef use(s):\n    a = attribution_for({key!r}, s)\n    return ({', '.join('a.' + f for f in FIELDS)}, a.dataset_key, a.subset)\n", ("c24-k", key))
            dead = r.state is None or isinstance(r.ret, T) and r.ret.op == "dead"
            if dead:
                c.ob("C24.lookup", key, False, "a supported dataset is refused")
                continue
            t = r.I.freeze(r.state, r.ret)
            if t.op != "tuple":
                c.ob("C24.lookup", key, None, "not followed")
                continue
            for f, v in zip(FIELDS, t.args):
                got = strings(v)
                if len(got) != len(leaves(v)):
                    c.ob("C24.lookup", f"{key} {f}", None, "not constant")
                    continue
                lack = [w for w in FACTS[h][f] for s in got if w not in s.lower()]
                c.ob("C24.lookup", f"{key} {f}", not lack, f"{f} = {got[0]!r} lacks {', '.join(map(repr, lack))}")
            c.ob("C24.lookup", f"{key} key", strings(t.args[5]) == [key], f"the record is filed under {strings(t.args[5])}")
            if key == "librispeech":
                c.ob("C24.lookup", f"{key} subset", any(x is S("s") for x in visible(t.args[6])), "the subset asked for is not recorded")


WRITERS = ("write_text", "write", "writelines", "write_bytes")
LABELS = {"dataset": ("dataset",), "source": ("source",), "license_name": ("license",), "license_url": ("license url",), "required_attribution": ("attribution",)}


def writes(r):
    return [e for e in r.events if e.kind in ("call", "mut") and str(e.fn or "").split(".")[-1] in WRITERS and not any(f is FALSE for f in e.pc if isinstance(f, T))]


def labels(t):
    """(label, value) pairs of the formatted lines in a text."""
    for x in visible(t):
        if x.op == "fstr":
            last = ""
            for p in x.args:
                if p.op == "const" and isinstance(p.args[0], str):
                    last = p.args[0].splitlines()[-1] if p.args[0].splitlines() else p.args[0]
                elif p.op == "fmt":
                    yield last, p.args[0]
                    last = ""


def program(keys):
    ps = ", ".join(keys)
    d = ", ".join(f"{k!r}: {k}" for k in keys)
    return f"from torchrir.io import save_attribution_file\ndef use(o, m, n, {ps}):\n    return save_attribution_file(out_dir=o, dataset_attribution={{{d}}}, modifications=m, attribution_name=n)\n"


def plainly(t, v, pos=True):
    """Is v part of the text t on every branch?"""
    for x in everywhere(t):
        if x is v:
            return True
    return False


def everywhere(t):
    """Subterms evaluated whatever conditions hold."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == "phi":
            a, b = set(everywhere(x.args[1])), set(everywhere(x.args[2]))
            yield from a & b
            continue
        if x.op in ("loopout",):
            continue
        if x.op == "listof":
            st += [y for y in x.args[1] if isinstance(y, T)]
            continue
        for a in x.args:
            q = [a]
            while q:
                y = q.pop()
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    q += y


def file(c):
    keys = FIELDS + ("subset",)
    with c.rule("C24.file", "save_attribution_file"):
        r = c.user(program(keys), "c24-file", pre=[neg(T("cmp", "is", S("subset"), NONE))])
        ws = writes(r)
        if not ws:
            c.ob("C24.file", "save_attribution_file", False if r.state is None else None, "no attribution file is written")
            return
        text = [r.I.freeze(e.state, a) if getattr(e, "state", None) is not None else r.I.freeze(r.state, a) for e in ws for a in e.args[1:] if isinstance(a, T)]
        for k in FIELDS + ("subset",):
            sure = any(plainly(t, S(k)) for t in text)
            some = any(x is S(k) for t in text for x in visible(t))
            c.ob("C24.file", k, True if sure or some and k == "subset" else False if not some else None, "is not written to the file" if not some else "is written only under a condition")
        some = any(x.op == "elem" and x.args[0] is S("m") or x is S("m") for t in text for x in visible(t))
        c.ob("C24.file", "modification notes", some, "are not written to the file")
        for t in text:
            for label, v in labels(t):
                for k in FIELDS:
                    if v is S(k) and label.strip():
                        low = label.lower()
                        other = [q for q in FIELDS if any(w in low for w in LABELS[q])]
                        c.ob("C24.label", f"{k}", k in other or not other, f"is printed after {label!r}")
        where = [e.args[0] for e in ws if e.args]
        ok = any(any(x is S("o") for x in visible(t)) and any(x is S("n") for x in visible(t)) for t in where)
        opened = [e for e in r.events if str(e.fn or "").split(".")[-1] == "open" and any(x is S("o") for a in e.args if isinstance(a, T) for x in visible(a))]
        c.ob("C24.file", "place", True if ok or opened else None, "destination not followed")
    for k in FIELDS:
        with c.rule("C24.missing", k):
            r = c.user(program(tuple(q for q in FIELDS if q != k)), ("c24-miss", k))
            ws = writes(r)
            c.ob("C24.missing", k, not ws, f"a record without {k} is written as if complete")


def notes(c):
    """Modification notes state what was done."""
    got = {}
    for d in (True, False):
        with c.rule("C24.notes", f"dynamic={d}"):
            r = c.user(f"from torchrir.datasets import default_modification_notes\ndef use():\n    return default_modification_notes(dynamic={d})\n", ("c24-notes", d))
            if r.state is None:
                c.ob("C24.notes", f"dynamic={d}", False, "no notes are returned")
                continue
            t = r.I.freeze(r.state, r.ret)
            if t.op == "listof" and not t.args[2]:
                xs = t.args[1]
            elif t.op in ("list", "tuple"):
                xs = t.args
            else:
                xs = [x for x in visible(t)] if t.op == "listof" else None
            if xs is None or t.op == "phi":
                c.ob("C24.notes", f"dynamic={d}", None, f"not followed: {show(t, 2)[:60]}")
                continue
            txt = [x.args[0].lower() for x in xs if x.op == "const" and isinstance(x.args[0], str)]
            got[d] = txt
            want, other = ("dynamic", "static") if d else ("static", "dynamic")
            c.ob("C24.notes", f"dynamic={d}", any(want in s for s in txt) and not any(other in s and want not in s for s in txt), f"notes read {txt!r}"[:200])
            c.ob("C24.notes", f"dynamic={d} trimming", any("concatenat" in s or "trim" in s for s in txt) and any("mixture" in s or "convolved" in s for s in txt), "the notes omit that speech was concatenated, trimmed and mixed")


def check(c):
    records(c)
    lookup(c)
    file(c)
    notes(c)
