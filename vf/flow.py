"""Abstract walk over the exceptional control flow of an interprocedural trace.  A client automaton maps (event, state) to successor edges; branch facts and 'which handler ran' are tracked, so flags and return values set by handlers stay correlated."""
from .terms import *
from .rules import *

MAX = 400
NOQ = object()


def subs(t):
    return [t.body, t.alt, t.final, t.xfinal or []] + [h for n, h in t.handlers]


def knowledge(d, base=None):
    """Valuation of atoms under known facts; comparisons of values chosen by a known branch are folded."""
    def pick(x):
        while isinstance(x, T) and x.op == "phi":
            p = beval(x.args[0], asg)
            if p is None:
                a, b = pick(x.args[1]), pick(x.args[2])
                return a if a is b else x
            x = x.args[1 if p else 2]
        return x

    def asg(a):
        if a in d:
            return d[a]
        if base is not None:
            v = base(a)
            if v is not None:
                return v
        if a.op == "cmp" and len(a.args) == 3:
            x, y = pick(a.args[1]), pick(a.args[2])
            if (x is not a.args[1] or y is not a.args[2]) and is_const(x) and is_const(y):
                v, w = x.args[0], y.args[0]
                if a.args[0] == "is":
                    return v is w
                if a.args[0] == "==":
                    return v == w
                if a.args[0] == "!=":
                    return v != w
        if a.op == "truth" and isinstance(a.args[0], T) and a.args[0].op == "phi":
            x = pick(a.args[0])
            if is_const(x):
                return bool(x.args[0])
        return None
    return asg


class Flow:
    """A client gives `step(e, q) -> (q after | None, [(exit kind, q)])`, `touches(e)`, `branch(cond, value, q) -> q`."""

    def __init__(self, r, step, touches, branch=None, again=None, left=None, base=None, stop=None, atleast=0):
        self.r, self.I, self.step, self.touches, self.branch = r, r.I, step, touches, branch
        self.busy, self.over = {}, False
        self.base, self.stop, self.atleast = base, stop, atleast      # fixed valuation of atoms; values whose evaluation raises; least number of loop iterations
        self.again, self.left = again, left      # state maps at the start of a further iteration and after a loop
        cnt = {}
        self.count(r.trace, cnt)
        chosen = {x for a in cnt for x in subterms(a) if isinstance(x, T) and x.op == "phi" and any(isinstance(y, T) and y.op == "excd" for y in subterms(x))}
        inner = {b for x in chosen for b in atoms(x.args[0])}
        self.track = inner | {a for a, n in cnt.items() if n > 1 or any(isinstance(x, T) and x.op == "excd" for x in subterms(a))}

        self.ranby = inner | {a for a in self.track if any(isinstance(x, T) and x.op in ("excd", "maybe") for x in subterms(a))}
        self.pos, self.last, self.inloop, self.n = {}, {}, {}, 0
        self.number(r.trace, ())
        self.protect = []

    def number(self, nodes, loops):
        """Program-order span of each node and the last test of each fact, so that facts are forgotten once nothing tests them again."""
        for t in nodes:
            a0 = self.n = self.n + 1
            if t.kind == "if":
                deep = set(atoms(t.a))
                deep |= {b for a in deep for x in subterms(a) if isinstance(x, T) and x.op == "phi" for b in atoms(x.args[0])}
                for a in deep:
                    if a in self.track:
                        self.last[a] = a0
                        for l in loops:
                            self.inloop.setdefault(id(l), set()).add(a)
            for b in subs(t):
                self.number(b, loops + (t,) if t.kind == "loop" else loops)
            self.pos[id(t)] = self.n

    def forget(self, t, cur):
        end = self.pos[id(t)]
        if not any(s[1] for s in cur):
            return cur
        out, kept = {}, {}
        for s, w in cur.items():
            f = kept.get(s[1])
            if f is None:
                f = kept[s[1]] = frozenset(x for x in s[1] if self.last.get(x[0], 0) > end or any(x[0] in p for p in self.protect))
            out.setdefault((s[0], f), w)
        return out

    def run(self, q0):
        out = {}
        for k, ss in self.walk(self.r.trace, {(q0, frozenset()): None}).items():
            for (q, f), w in ss.items():
                out.setdefault(k, {}).setdefault(q, w)
        return out

    def relevant(self, nodes):
        k = id(nodes)
        if k not in self.busy:
            self.busy[k] = any((t.kind == "ev" and self.touches(t.a)) or any(self.relevant(b) for b in subs(t)) for t in nodes)
        return self.busy[k]

    def jumps(self, nodes):
        for t in nodes:
            if t.kind in ("break", "cont", "ret"):
                return True
            if t.kind != "call" and any(self.jumps(b) for b in subs(t)):
                return True
        return False

    def opaque(self, t):
        k = ("o", id(t))
        if k not in self.busy:
            self.busy[k] = not any(self.relevant(b) for b in subs(t)) and (t.kind == "call" or not self.jumps([t]))
        return self.busy[k]

    def count(self, nodes, cnt):
        for t in nodes:
            if t.kind in ("call", "if", "loop", "try") and self.opaque(t):
                continue
            if t.kind == "if":
                for a in atoms(t.a):
                    cnt[a] = cnt.get(a, 0) + 1
            for b in subs(t):
                self.count(b, cnt)

    def walk(self, nodes, S):
        out = {}

        def add(k, s, w=None):
            out.setdefault(k, {}).setdefault(s, w)
        cur = dict(S)
        for t in nodes:
            if len(cur) > MAX:
                cur = {(s[0], frozenset(x for x in s[1] if x[0] in self.ranby)): w for s, w in cur.items()}
            if len(cur) > MAX:
                self.over = True
                cur = {(s[0], frozenset()): w for s, w in cur.items()}
            if not cur:
                break
            nxt = {}
            if self.stop and t.kind in ("ev", "ret", "if") and self.stop(t):
                for s, w in cur.items():
                    add("exc:*", s, w)
                cur = {}
                break
            if t.kind == "ev":
                e = t.a
                for s, w in cur.items():
                    q, exits = self.step(e, s[0])
                    for k, q2 in exits:
                        add(k, (q2, s[1]), e)
                    if q is not None and e.kind != "raise":
                        nxt.setdefault((q, s[1]), w)
            elif t.kind in ("call", "if", "loop", "try") and self.opaque(t):
                nxt = cur
            elif t.kind == "ret":
                for s, w in cur.items():
                    add("ret", s, w)
            elif t.kind in ("break", "cont"):
                for s, w in cur.items():
                    add(f"{t.kind}:{t.a}", s, w)
            else:
                for k, ss in self.compound(t, cur).items():
                    for s, w in (ss if k == "fall" else self.forget(t, ss)).items():
                        if k == "fall":
                            nxt.setdefault(s, w)
                        else:
                            add(k, s, w)
                nxt = self.forget(t, nxt)
            cur = nxt
        for s, w in cur.items():
            add("fall", s, w)
        return out

    def assume(self, s, c, v):
        q, facts = s
        if c.op == "not":
            return self.assume(s, c.args[0], not v)
        if c.op == "and" and v or c.op == "or" and not v:
            for x in c.args:
                s = self.assume(s, x, v)
            return s
        if self.branch:
            q = self.branch(c, v, q)
        if c in self.track and c.op not in ("and", "or", "phi"):
            facts = facts | {(c, v)}
        return (q, facts)

    def compound(self, t, S):
        out = {}

        def put(o, skip=()):
            for k, ss in o.items():
                if k not in skip:
                    for s, w in ss.items():
                        out.setdefault(k, {}).setdefault(s, w)
        if t.kind == "if":
            yes, no = {}, {}
            for s, w in S.items():
                v = beval(t.a, knowledge(dict(s[1]), self.base))
                if v is not False:
                    yes.setdefault(self.assume(s, t.a, True), w)
                if v is not True:
                    no.setdefault(self.assume(s, t.a, False), w)
            put(self.walk(t.body, yes))
            put(self.walk(t.alt, no))
        elif t.kind == "loop":
            cur, brk = dict(S), {}
            if not self.atleast:
                out.setdefault("fall", {}).update(S)
            out.setdefault("fall", {})
            keep = frozenset().union(*[s[1] for s in S]) if S else frozenset()
            self.protect.append({x[0] for x in keep} & self.inloop.get(id(t), set()))
            for i in range(3):
                if self.again and i:
                    cur = {(self.again(t, s[0]), s[1]): w for s, w in cur.items()}
                o = self.walk(t.body, cur)
                put(o, ("fall", f"break:{t.a}", f"cont:{t.a}"))
                brk.update(o.get(f"break:{t.a}", {}))
                cur = {(s[0], s[1] & keep): w for s, w in {**o.get("fall", {}), **o.get(f"cont:{t.a}", {})}.items()}
                for s, w in {**cur, **brk}.items():
                    out["fall"].setdefault(s, w)
            self.protect.pop()
            if self.left:
                out["fall"] = {(self.left(t, s[0]), s[1]): w for s, w in out["fall"].items()}
        elif t.kind == "call":
            o = self.walk(t.body, S)
            o["fall"] = {**o.get("fall", {}), **o.pop("ret", {})}
            if "ret+" in o:
                o["ret"] = o.pop("ret+")
            put(o)
        elif t.kind == "user":
            o = self.walk(t.body, S)
            if "ret" in o:
                o["ret+"] = o.pop("ret")
            put(o)
        elif t.kind == "with":
            o = self.walk(t.body, S)
            sup = [x for x in subterms(t.a) if callname(x) == "contextlib.suppress"] if isinstance(t.a, T) else []
            if sup:
                names = [a.args[0].replace("builtins.", "") if a.op == "ext" else "?" for x in sup for a in cargs(x)]
                for k in list(o):
                    if k.startswith("exc:") and self.catches(names, k[4:])[0]:
                        for s, w in o.pop(k).items():
                            o.setdefault("fall", {}).setdefault(s, w)
            put(o)
        elif t.kind == "try":
            ecs = [T("excd", t.a, names) for names, h in t.handlers]

            def knows(s, i):
                f = {(c, v) for c, v in s[1] if c not in ecs}
                for j, c in enumerate(ecs):
                    f.add((c, j == i))
                return (s[0], frozenset(f)) if ecs else s
            b = self.walk(t.body, S)
            res = {k: {knows(s, None): w for s, w in v.items()} for k, v in b.items() if not k.startswith("exc:")}
            if t.alt and "fall" in res:
                for k, ss in self.walk(t.alt, res.pop("fall")).items():
                    res.setdefault(k, {}).update(ss)
            for k, ss in b.items():
                if not k.startswith("exc:"):
                    continue
                live = self.forget(t.body[-1], ss)
                for i, (names, h) in enumerate(t.handlers):
                    may, must = self.catches(names, k[4:])
                    if may:
                        o = self.walk(h, {knows(s, i): w for s, w in live.items()})
                        for kk, s2 in o.items():
                            if kk in ("exc:?", "exc:<reraise>"):
                                kk = k
                            for s, w in s2.items():
                                res.setdefault(kk, {}).setdefault(s, w)
                    if must:
                        live = {}
                        break
                for s, w in live.items():
                    res.setdefault(k, {}).setdefault(s, w)
            if t.final or t.xfinal is not None:
                for k, ss in res.items():
                    o = self.walk(t.xfinal if k.startswith("exc:") and t.xfinal is not None else t.final, ss)
                    for kk, s2 in o.items():
                        for s, w in s2.items():
                            out.setdefault(k if kk == "fall" else kk, {}).setdefault(s, w)
            else:
                put(res)
        else:
            put(self.walk(t.body, S) if t.body else {"fall": dict(S)})
        return out

    def catches(self, names, n):
        """(may catch, must catch); '*' is any Exception of unknown class."""
        if n == "*":
            b = bool({"Exception", "BaseException"} & set(names))
            return True, b
        b = self.I.catches(names, n) and not (n in ("KeyboardInterrupt", "SystemExit", "GeneratorExit") and "BaseException" not in names and n not in names)
        return b or not n[:1].isalpha(), b
