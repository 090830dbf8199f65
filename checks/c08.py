"""C08: provenance analysis of randomness and order: every generator's seed traces to the caller's seed or random source, no call reaches a process-wide generator, no clock, hash or uninitialised memory reaches a result, and no sequence in set or directory order does."""
import ast
from vf.terms import *
from vf.rules import *
from vf.loader import AnalysisBroken, PKG
from .c06 import entries
from .c29 import Names
from .c32 import WRITES

TORCHDRAW = {"rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "normal", "multinomial", "bernoulli", "poisson", "binomial", "dropout", "feature_dropout", "alpha_dropout"}
INPLACE = {"uniform_", "normal_", "bernoulli_", "exponential_", "random_", "cauchy_", "log_normal_", "geometric_"}
TORCHSTATE = {"torch.manual_seed", "torch.seed", "torch.initial_seed", "torch.get_rng_state", "torch.set_rng_state", "torch.default_generator", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.cuda.seed", "torch.cuda.seed_all",
              "torch.cuda.get_rng_state", "torch.cuda.set_rng_state", "torch.mps.manual_seed", "torch.mps.seed", "torch.random.manual_seed", "torch.random.seed", "torch.random.initial_seed", "torch.random.get_rng_state", "torch.random.set_rng_state"}
MAKERS = {"random.Random", "np.random.default_rng", "np.random.RandomState", "np.random.Generator", "np.random.SeedSequence", "np.random.PCG64", "np.random.MT19937", "np.random.Philox", "np.random.SFC64", "np.random.PCG64DXSM", "torch.Generator"}
PYSAFE = {"Random"}
AMBIENT = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "os.getpid", "os.urandom", "uuid.uuid1", "uuid.uuid4", "builtins.hash", "builtins.id", "secrets.token_hex",
           "secrets.token_bytes", "secrets.randbelow", "secrets.randbits", "secrets.choice", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "time.localtime", "time.ctime", "time.asctime", "time.strftime",
           "time.gmtime", "random.SystemRandom", "os.times", "threading.get_ident", "os.getrandom"}
LISTING = {"m.iterdir", "m.glob", "m.rglob", "os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "concurrent.futures.as_completed", "m.imap_unordered", "m.walk"}
SETS = {"builtins.set", "builtins.frozenset", "m.union", "m.intersection", "m.difference", "m.symmetric_difference"}
KEEP = {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.reversed", "builtins.filter", "builtins.map", "builtins.enumerate", "builtins.zip", "itertools.chain", "itertools.islice", "m.copy", "m.join", "np.array", "np.asarray", "torch.tensor", "torch.as_tensor",
        "torch.stack", "torch.cat", "np.stack", "np.concatenate", "collections.deque"}
NEUTRAL = {"builtins.len", "builtins.any", "builtins.all", "builtins.min", "builtins.max", "builtins.set", "builtins.frozenset", "builtins.bool", "m.isdisjoint", "m.issubset", "m.issuperset", "collections.Counter", "np.unique", "torch.unique", "m.union",
           "m.intersection", "m.difference", "math.fsum", "statistics.mean", "m.__contains__"}
PARTIAL = {"name", "stem", "suffix", "parent", "suffixes"}
PARTCALL = {"builtins.len", "m.lower", "m.upper", "m.casefold", "os.path.basename", "m.stat", "os.path.getsize", "os.path.getmtime"}
WRITERS = {"fill_", "zero_", "copy_", "setitem", "index_copy_", "uniform_", "normal_"}
EMPTY = {"torch.empty", "torch.empty_like", "t.new_empty", "m.new_empty", "np.empty", "np.empty_like", "torch.empty_strided"}
SEEDISH = ("seed", "rng", "generator", "random_state", "gen")


def canon(n):
    return n.replace("numpy.", "np.", 1) if n and n.startswith("numpy.") else n


def ambient(fn):
    fn = canon(fn or "")
    return fn in AMBIENT or fn.startswith("secrets.")


def globaldraw(fn, has):
    """Is the call a draw from, or an access to, a process-wide generator?  has: a generator is passed (None: not known)."""
    fn = canon(fn)
    if fn in TORCHSTATE:
        return "touches PyTorch's global random state"
    if fn in MAKERS:
        return None
    if fn.startswith("random.") and fn.count(".") == 1 and fn.split(".")[1] not in PYSAFE | {"SystemRandom"}:
        return "uses Python's global random state"
    if fn.startswith("np.random."):
        return "uses NumPy's global random state"
    last = fn.split(".")[-1]
    if fn.startswith("torch.") and fn.count(".") == 1 and last in TORCHDRAW or fn.startswith("torch.nn.init.") or fn.startswith("torch.nn.functional.") and "dropout" in last or fn.startswith(("t.", "m.")) and last in INPLACE:
        return None if has else "draws from PyTorch's global generator"
    return None


class Order:
    """Which values are sequences in an order nothing fixes."""

    def __init__(self, I, st):
        self.I, self.st, self.memo = I, st, {}

    def isset(self, t):
        n = callname(t)
        if n in ("builtins.set", "builtins.frozenset"):
            return True
        if n in SETS and cargs(t):
            return self.isset(cargs(t)[0])
        if t.op == "listof":
            return t.args[0] == "set"
        if t.op == "set":
            return True
        if t.op == "const":
            return isinstance(t.args[0], (set, frozenset))
        if t.op == "bin" and t.args[0] in ("|", "&", "-", "^"):
            return self.isset(t.args[1]) or self.isset(t.args[2])
        if t.op == "gobj":
            o = next((o for o in getattr(self.I, "gheap", {}).values() if getattr(o, "label", None) == t.args[0]), None)
            return o is not None and o.kind == "set"
        if t.op == "phi":
            return self.isset(t.args[1]) or self.isset(t.args[2])
        ty = set(self.I.ty(t) or ())
        return bool(ty) and ty <= {"set", "frozenset"}

    def members(self, t):
        """Element terms of a set, if they are known."""
        if t.op == "listof":
            return [x for part in t.args[1:] for x in part]
        if t.op in ("set", "tuple", "list"):
            return list(t.args)
        n = callname(t)
        if n in ("builtins.set", "builtins.frozenset") and cargs(t):
            return self.members(cargs(t)[0])
        return None

    def tame(self, t):
        """A set of small integers: its order is a function of its contents."""
        n = callname(t)
        if n in ("builtins.set", "builtins.frozenset"):
            a = cargs(t)
            if not a:
                return True
            if callname(a[0]) in ("builtins.range",):
                return True
            m = self.members(a[0])
            if m is None:
                return None
        m = self.members(t)
        if m is None:
            return None
        tys = [set(self.I.ty(x) or ()) for x in m]
        if all(x <= {"int", "bool"} and x for x in tys):
            return True
        if all(x and not x & {"int", "bool"} for x in tys):
            return False
        return None

    def source(self, t):
        """(name, certain) if iterating over the value meets its items in an unfixed order."""
        r = self.memo.get(t)
        if r is not None:
            return r or None
        self.memo[t] = False
        r = self._source(t)
        self.memo[t] = r or False
        return r

    def _source(self, t):
        n = callname(t)
        if n in LISTING:
            return (n.split(".")[-1] + "()", True)
        if self.isset(t):
            z = self.tame(t)
            return None if z else ("a set", True)
        if n == "builtins.sorted":
            return self.ties(t)
        if n in KEEP:
            for x in cargs(t):
                xs = x.args if x.op in ("tuple", "list") and n == "itertools.chain" else [x]
                for y in xs:
                    if isinstance(y, T) and self.source(y):
                        return self.source(y)
            return None
        if t.op == "listof" and t.args[0] in ("list", "tuple", "deque", "gen"):
            for part in t.args[1:]:
                for x in part:
                    for y in self.heads(x):
                        if self.source(y):
                            return self.source(y)
            return None
        if t.op == "dictof":
            for part in t.args:
                for x in part:
                    for k in (x if isinstance(x, tuple) else (x,)):
                        for y in self.heads(k):
                            if self.source(y):
                                return self.source(y)
            return None
        if t.op in ("dictview", "slice"):
            for x in t.args:
                if isinstance(x, T) and self.source(x):
                    return self.source(x)
            return None
        if t.op == "item" and isinstance(t.args[1], T) and t.args[1].op == "slice":
            return self.source(t.args[0])
        if t.op == "phi":
            return self.source(t.args[1]) or self.source(t.args[2])
        if n in ("m.items", "m.keys", "m.values") and cargs(t):
            return self.source(cargs(t)[0])
        return None

    def heads(self, x):
        """Collections whose iteration order decides the order in which x is appended."""
        out = []
        stop = set()
        stack = [x]
        while stack:
            y = stack.pop()
            if not isinstance(y, T) or y in stop:
                continue
            stop.add(y)
            if callname(y) in ("builtins.sorted",) or callname(y) in NEUTRAL:
                continue
            if y.op == "elem":
                out.append(y.args[0])
                stack.append(y.args[0]) if y.args[0].op == "elem" else None
                continue
            if y.op in ("listof", "dictof"):
                continue
            for a in y.args:
                stack.extend(flat(a))
        return out

    def ties(self, t):
        a, k = cargs(t), dict(ckw(t))
        if not a:
            return None
        src = self.source(a[0])
        key = k.get("key")
        if not src or key is None or key is NONE:
            return None
        rec = any(callname(x) in ("m.rglob", "os.walk") or callname(x) == "m.glob" and len(cargs(x)) > 1 and is_const(cargs(x)[1]) and "**" in str(cargs(x)[1].args[0]) for x in subterms(a[0]))
        f = self.I.objs.get(key) if key.op == "func" else None
        node = getattr(f, "node", None)
        if key.op == "ext" and key.args[0] in ("builtins.str", "os.fspath", "builtins.repr", "os.path.abspath"):
            return None
        if key.op == "ext" and key.args[0] == "builtins.len":
            return (src[0] + " sorted by a key with ties", True)
        if key.op == "ext" and key.args[0] in ("os.path.basename",) and rec:
            return (src[0] + " sorted by a key with ties", True)
        b = node.body if isinstance(node, ast.Lambda) else node.body[0].value if isinstance(node, ast.FunctionDef) and len(node.body) == 1 and isinstance(node.body[0], ast.Return) else None
        if b is not None and node.args.args:
            p = node.args.args[0].arg
            bare = any(isinstance(x, ast.Name) and x.id == p and not part(b, x) for x in ast.walk(b))
            if bare:
                return None
            only = {x.attr for x in ast.walk(b) if isinstance(x, ast.Attribute)}
            if only & {"as_posix", "relative_to", "resolve", "parts"}:
                return None
            if isinstance(b, ast.Attribute) and b.attr == "name" and not rec:
                return None
            if only & {"stat", "st_mtime", "st_size", "suffix", "st_ctime"} or only and only <= {"name", "stem", "parent"} and (rec or only == {"parent"}):
                return (src[0] + " sorted by a key with ties", True)
        return None

    def exposed(self, t):
        """First sequence in unfixed order the value shows: (what, certain)."""
        seen = set()
        stack = [(t, False)]
        soft = None
        while stack:
            y, inner = stack.pop()
            if not isinstance(y, T) or (y, inner) in seen:
                continue
            seen.add((y, inner))
            n = callname(y)
            if n == "builtins.sorted":
                s = self.ties(y)
                if s:
                    return s
                continue
            if n in NEUTRAL or y.op == "cmp" and y.args[0] in ("in", "not in"):
                if y.op == "cmp":
                    stack.append((y.args[1], False))
                continue
            s = self.source(y)
            if s and not (self.isset(y) or y.op == "dictof") and not (y.op == "phi"):
                if n in LISTING and not inner:
                    return (s[0], True)
                return s
            if s and y.op == "phi":
                stack += [(y.args[1], inner), (y.args[2], inner)]
                continue
            if s:      # a set or a dictionary: no order shown by itself
                continue
            if n == "builtins.next" and cargs(y):
                z = cargs(y)[0]
                while callname(z) == "builtins.iter" and cargs(z):
                    z = cargs(z)[0]
                if self.source(z):
                    certain = callname(z) in LISTING or self.isset(z)
                    if certain:
                        return (f"first of {self.source(z)[0]}", True)
                    soft = soft or (f"first of {self.source(z)[0]}", False)
                    continue
            if y.op == "item" and self.source(y.args[0]) and y.args[0].op != "dictof" and not self.isset(y.args[0]):
                return (f"an item of {self.source(y.args[0])[0]}", True)
            if n == "m.pop" and cargs(y) and self.isset(cargs(y)[0]):
                return ("an item popped from a set", True)
            if y.op == "elem" and self.source(y.args[0]):
                soft = soft or (f"an element of {self.source(y.args[0])[0]}", False)
                continue
            if n in ("m.get",) and cargs(y):
                stack += [(z, True) for z in cargs(y)[1:]]
                continue
            for a in y.args:
                stack.extend((w, True) for w in flat(a))
        return soft


def flat(a):
    if not isinstance(a, tuple):
        return [a]
    return [z for x in a for z in flat(x)]


def part(body, name):
    """Is the name only used as the base of an attribute or argument of len() and the like?"""
    for x in ast.walk(body):
        if isinstance(x, ast.Attribute) and x.value is name:
            return True
        if isinstance(x, ast.Call) and name in x.args and isinstance(x.func, ast.Name) and x.func.id == "len":
            return True
    return False


def seeds(c, full, node, r):
    """Generators made while the entry runs: their seeds."""
    I = r.I
    params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    has = [p for p in params if any(s in p.lower() for s in SEEDISH)] or [p for p in params if p in ("config", "cfg", "result", "simulator")]
    if not has and any(isinstance(x, T) and x.op == "attr" and x.args[1] == "seed" for e in r.events for a in e.args if isinstance(a, T) for x in subterms(a)):
        has = ["seed"]
    made = {}
    for i, e in enumerate(r.events):
        fn = canon(e.fn or "")
        if e.kind == "call" and fn in MAKERS and not fn.startswith("np.random.") or e.kind == "call" and fn in ("np.random.default_rng", "np.random.RandomState", "np.random.SeedSequence", "np.random.PCG64", "np.random.MT19937", "np.random.Philox", "np.random.SFC64"):
            if fn == "torch.Generator":
                made[e.res] = [e, [], i]
                continue
            x = e.args[0] if e.args else e.kw.get("x", e.kw.get("seed", e.kw.get("entropy")))
            judge(c, full, I, e, x, has, fn)
        if e.kind == "seed" and e.args:
            g = e.args[0]
            cands = [m for k, m in made.items() if k is g] or [m for m in made.values() if m[0].res is not None and any(y is m[0].res for y in subterms(g))]
            if e.fn == "m.seed" and len(e.args) == 1 and not e.kw:
                c.ob("C08.seed", site(e), False, "the generator is seeded from the operating system")
            else:
                x = e.args[1] if len(e.args) > 1 else next(iter(e.kw.values()), None)
                judge(c, full, I, e, x, has, "manual_seed")
            for m in cands:
                m[1].append(i)
    for e, s, i in made.values():
        draws = [j for j, d in enumerate(r.events) if d.kind == "call" and d is not e and any(isinstance(a, T) and any(y is e.res for y in subterms(a)) for a in list(d.args) + list(d.kw.values())) and (d.fn or "").split(".")[-1] in TORCHDRAW | INPLACE]
        if draws and not s:
            c.ob("C08.seed", site(e), False, "a PyTorch generator is used without the caller's seed")
        elif draws and min(draws) < min(s):
            c.ob("C08.seed", site(e), False, "a PyTorch generator is used before it is seeded")
        elif draws:
            c.ob("C08.seed", site(e), True, "seeded before its first draw")


def leaves_of(t):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("sym", "const", "ext", "gobj", "gvar", "unknown", "undef", "mu", "elem", "loopout", "idx") or x.op == "attr":
            out.append(x)
            continue
        if x.op == "call":
            out.append(x)
        for a in x.args:
            stack.extend(z for z in (a if isinstance(a, tuple) else (a,)) if isinstance(z, T))
    return out


def branches(t, cap=64):
    out, stack = [], [(t, ())]
    while stack and len(out) < cap:
        x, pc = stack.pop()
        if isinstance(x, T) and x.op == "phi":
            stack += [(x.args[1], pc + ((x.args[0], True),)), (x.args[2], pc + ((x.args[0], False),))]
        elif feasible(pc):
            out.append((x, pc))
    return out


def feasible(pc):
    facts = dict(pc)
    for cond, v in pc:
        z = settle(cond, {k: w for k, w in facts.items() if k is not cond})
        if z is not None and z != v:
            return False
    return True


def settle(c, facts):
    """Truth of a condition once the branches the facts fix are taken."""
    c = cut(c, facts)
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        z = settle(c.args[0], facts)
        return None if z is None else not z
    if c.op == "cmp" and c.args[0] in ("is", "is not") and NONE in c.args[1:]:
        o = c.args[1] if c.args[2] is NONE else c.args[2]
        if o is NONE or o.op == "const":
            return (o is NONE) == (c.args[0] == "is")
    return None


def cut(t, facts):
    if t.op == "phi":
        v = facts.get(t.args[0])
        return cut(t.args[1 if v else 2], facts) if v is not None else t
    if t.op in ("cmp", "not", "truth"):
        return T(t.op, *[cut(x, facts) if isinstance(x, T) else x for x in t.args])
    return t


def isseed(t):
    return t.op == "sym" and any(s in t.args[0].lower() for s in SEEDISH) or t.op == "attr" and any(s in t.args[1].lower() for s in SEEDISH)


def judge(c, full, I, e, x, has, what):
    w = site(e)
    if x is None or x is NONE:
        c.ob("C08.seed", w, False, f"{what} without a seed: seeded from the operating system")
        return
    good = any(isseed(l) for l in leaves_of(x)) or any(isseed(s) for s in subterms(x))
    for b, pc in branches(x):
        amb = [l for l in subterms(b) if callname(l) and ambient(callname(l))]
        if amb:
            c.ob("C08.seed", w, False, f"the seed is {show(amb[0], 1)}, which differs from run to run")
            return
        if b is NONE or b is None:
            nm = [y for cond, v in pc for y in subterms(cond) if isseed(y)]
            c.ob("C08.seed", w, False if not good or nm else None, "without a seed the generator is seeded from the operating system")
            return
    if good:
        c.ob("C08.seed", w, True, f"{what} takes the caller's seed")
        return
    ls = [l for l in leaves_of(x)]
    if all(l.op == "const" for l in ls):
        c.ob("C08.seed", w, False if has else True, f"{what} gets a constant although the caller passes {', '.join(has)}" if has else "constant seed, no seed offered")
        return
    if any(l.op in ("mu", "loopout", "unknown", "gvar", "gobj") for l in ls):
        c.ob("C08.seed", w, False if any(l.op in ("gvar", "gobj") for l in ls) else None, "the seed comes from a value kept between calls")
        return
    rngs = [l for l in subterms(x) if l.op == "sym" and any(s in l.args[0].lower() for s in SEEDISH)]
    if rngs:
        c.ob("C08.seed", w, True, "derived from the caller's random source")
        return
    c.ob("C08.seed", w, False if has else None, f"{what} is seeded with {show(x, 2)}, not with the caller's seed")


def globals_(c, full, r, node, forked):
    for e in r.events:
        if e.kind != "call" or not e.fn:
            continue
        gen = e.kw.get("generator")
        has = gen is not None and gen is not NONE
        z = globaldraw(e.fn, has)
        if z:
            c.ob("C08.global", site(e), None if forked(e) else False, z)
        elif has and gen.op == "phi" and any(b is NONE for b, _ in branches(gen)) and globaldraw(e.fn, False):
            c.ob("C08.global", site(e), False, "draws from PyTorch's global generator when no generator was given")
        elif has and globaldraw(e.fn, False):
            if gen.op in ("gobj", "gvar"):
                c.ob("C08.global", site(e), False, "draws from a generator shared by all calls")
            else:
                c.ob("C08.global", site(e), True, "draws from its own generator")
        if e.fn.startswith("m.") and e.fn.split(".")[1] in ("uniform", "choice", "choices", "sample", "shuffle", "random", "randint", "permutation", "normal", "integers", "standard_normal", "gauss", "randrange", "permuted") and e.args:
            b = e.args[0]
            if b.op in ("gobj", "gvar") or canon(callname(b) or "") in MAKERS and not any(d.res is b for d in r.events if d.kind == "call"):
                c.ob("C08.global", site(e), False, "draws from a generator shared by all calls")
            elif b.op in ("ext", "mod") and b.args[0] in ("random", "numpy.random", "np.random"):
                c.ob("C08.global", site(e), False, "uses a process-wide generator")
            else:
                for x, pc in branches(b):
                    if isinstance(x, T) and (x.op in ("ext", "mod") and x.args[0] in ("random", "numpy.random", "np.random") or x.op in ("gobj", "gvar")):
                        c.ob("C08.global", site(e), False, "uses a process-wide generator when none is given")


def draws(r):
    for e in r.events:
        if e.kind == "call" and e.fn and (e.fn.startswith("m.") and e.fn.split(".")[1] in ("uniform", "choice", "choices", "sample", "shuffle", "random", "randint", "permutation", "normal", "integers", "permuted") and e.args and
                                         (e.args[0].op == "sym" and any(s in e.args[0].args[0].lower() for s in SEEDISH) or canon(callname(e.args[0]) or "") in MAKERS)):
            yield e


def order(c, full, r):
    I = r.I
    O = Order(I, r.state)
    n = 0
    ret = I.freeze(r.state, r.ret) if isinstance(r.ret, T) else None
    if ret is not None:
        z = O.exposed(ret)
        if z:
            n += 1
            c.ob("C08.order", f"result of {full}", False if z[1] else None, f"shows {z[0]}, whose order nothing fixes")
    for e in r.events:
        if e.kind in ("new",) or e.kind == "setattr" and e.args and isinstance(e.args[0], T) and (e.args[0].op == "ref" or e.args[0] is T("sym", "self")):
            if e.kind == "setattr":
                z = O.exposed(I.freeze(r.state, e.args[-1])) if isinstance(e.args[-1], T) else None
                if z:
                    n += 1
                    c.ob("C08.order", f"{full}: .{e.fn}", False if z[1] else None, f"keeps {z[0]}, whose order nothing fixes")
        if e.kind == "call" and (e.fn in WRITES or e.fn in ("m.write", "json.dumps", "m.writelines", "m.extend")):
            for a in list(e.args) + list(e.kw.values()):
                if not isinstance(a, T) or e.fn in ("shutil.rmtree", "m.mkdir", "m.unlink", "m.rmdir", "os.replace", "os.rename", "shutil.move", "m.extend"):
                    continue
                z = O.exposed(I.freeze(r.state, a))
                if z and z[1]:
                    n += 1
                    c.ob("C08.order", site(e), False, f"writes {z[0]}, whose order nothing fixes")
    for e in draws(r):
        for a in list(e.args[1:]) + list(e.kw.values()):
            z = O.exposed(I.freeze(r.state, a)) if isinstance(a, T) else None
            if z:
                n += 1
                c.ob("C08.order", site(e), False if z[1] else None, f"draws from {z[0]}, whose order nothing fixes")
        for lid in e.loops:
            it = I.loopinfo.get(lid, {}).get("iter")
            if isinstance(it, T) and O.source(it):
                n += 1
                c.ob("C08.order", site(e), False, f"draws while iterating over {O.source(it)[0]}: which item gets which draw is not fixed")
    for e in r.events:
        if e.kind == "yield":
            for lid in e.loops:
                it = I.loopinfo.get(lid, {}).get("iter")
                if isinstance(it, T) and O.source(it):
                    n += 1
                    c.ob("C08.order", site(e), False, f"yields items in the order of {O.source(it)[0]}")
    if not n:
        c.ob("C08.order", full, True, "no sequence in unfixed order reaches the result, the draws or a file")


def clocks(c, full, r):
    I = r.I
    vals = [("the result", I.freeze(r.state, r.ret))] if isinstance(r.ret, T) else []
    for e in r.events:
        if e.kind == "call" and (e.fn in WRITES or e.fn in ("m.write", "json.dumps")) and e.fn not in ("m.mkdir", "shutil.rmtree", "m.unlink"):
            for a in list(e.args) + list(e.kw.values()):
                if isinstance(a, T):
                    vals.append((f"what {site(e)} writes", I.freeze(r.state, a)))
    for what, v in vals:
        for x in visible(v):
            n = callname(x)
            if n and ambient(n) and not (n == "builtins.hash" and full.endswith("__hash__")):
                c.ob("C08.ambient", f"{full}: {n}", False, f"{n} decides {what}: it differs from run to run")
    # uninitialised memory
    for e in r.events:
        if e.kind == "call" and canon(e.fn or "") in EMPTY and isinstance(e.res, T):
            def on(t):
                return isinstance(t, T) and any(y is e.res for y in subterms(I.freeze(r.state, t)))
            wr = [d for d in r.events if d is not e and (d.kind == "setitem" and d.args and on(d.args[0]) and (d.args[1].op == "const" and d.args[1].args[0] is Ellipsis or show(d.args[1], 3) in (":", "::", "slice(None, None, None)")) or
                  d.kind in ("call", "mut") and d.fn and (d.fn.split(".")[-1] in WRITERS and d.args and on(d.args[0]) or on(d.kw.get("out"))))]
            acc = [d for d in r.events if d.kind in ("call", "mut") and d.fn and d.fn.split(".")[-1] in ("scatter_add_", "index_add_", "add_", "mul_", "addcmul_", "sub_") and d.args and on(d.args[0])]
            if acc and not wr:
                c.ob("C08.ambient", f"{site(e)}", False, "values are added to uninitialised memory")


def visible(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        for a in x.args:
            stack.extend(flat(a))
    return out


def constants(c, P):
    """Module-level sets of names: turned into a sequence only through sorted()."""
    sets = {}
    for m in P.modules.values():
        for s in m.tree.body:
            v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign)) else None
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "frozenset") and v.args:
                v = ast.Set(v.args[0].elts) if isinstance(v.args[0], (ast.List, ast.Tuple, ast.Set)) else v
            if isinstance(t, ast.Name) and isinstance(v, ast.Set) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in v.elts):
                sets[(m.name, t.id)] = True
    for full, m, node, owner in all_functions(P):
        up = {id(k): x for x in ast.walk(node) for k in ast.iter_child_nodes(x)}
        imp = Names(m).a
        for x in ast.walk(node):
            if not isinstance(x, ast.Name) or not isinstance(x.ctx, ast.Load):
                continue
            org = (m.name, x.id) if (m.name, x.id) in sets else tuple(imp.get(x.id, "").rsplit(".", 1))
            if org not in sets:
                continue
            seq, y = None, x
            while id(y) in up and not isinstance(up[id(y)], ast.stmt):
                p = up[id(y)]
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("sorted", "set", "frozenset", "len", "any", "all", "min", "max", "sum", "bool") or isinstance(p, (ast.Compare, ast.SetComp, ast.DictComp, ast.JoinedStr)):
                    seq = None
                    break
                if isinstance(p, ast.Call) and y in p.args and (isinstance(p.func, ast.Name) and p.func.id in ("list", "tuple") or isinstance(p.func, ast.Attribute) and p.func.attr == "join") or isinstance(p, ast.ListComp) or isinstance(p, ast.comprehension) and isinstance(up.get(id(p)), ast.ListComp):
                    seq = p
                y = p
            if seq is None:
                continue
            st = up.get(id(y))
            if isinstance(st, ast.Raise):
                continue
            later = isinstance(st, (ast.Assign, ast.AnnAssign)) and not isinstance(st, ast.Return)
            c.ob("C08.order", f"{full}: {org[-1]}", None if later else False if isinstance(st, ast.Return) else None, "turns a set of names into a sequence without sorting it")


def check(c):
    P = c.P
    names = {m.name: Names(m) for m in P.modules.values()}
    forks = {}
    total = 0
    # every function, whoever calls it
    for full, m, node, owner in all_functions(P):
        nm = names[m.name]
        for d in list(node.args.defaults) + [k for k in node.args.kw_defaults if k is not None]:
            if isinstance(d, ast.Call) and canon(nm.dotted(d.func) or "") in MAKERS:
                c.ob("C08.global", f"{full} default", False, "a generator made once as a default value: equal calls get different draws")
        inner = {id(y) for x in ast.walk(node) if isinstance(x, (ast.With,)) and any(isinstance(i.context_expr, ast.Call) and (nm.dotted(i.context_expr.func) or "").endswith("fork_rng") for i in x.items) for y in ast.walk(x)}
        forks[full] = {x.lineno for x in ast.walk(node) if id(x) in inner and hasattr(x, "lineno")}
        for x in ast.walk(node):
            if isinstance(x, ast.Call):
                fn = nm.dotted(x.func)
                if not fn or not (fn.startswith(("random.", "numpy.", "np.", "torch."))):
                    continue
                g = next((k.value for k in x.keywords if k.arg == "generator"), None)
                star = any(k.arg is None for k in x.keywords)
                has = g is not None and not (isinstance(g, ast.Constant) and g.value is None) or star
                total += 1
                z = globaldraw(fn, has)
                if z:
                    c.ob("C08.global", f"{full}: {fn}", None if id(x) in inner else False, z)
    if total < 50:
        raise AnalysisBroken("the package's torch/numpy calls vanished")
    for m in P.modules.values():
        for s in m.tree.body:
            for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else []:
                if isinstance(x, ast.Call):
                    fn = names[m.name].dotted(x.func)
                    z = fn and globaldraw(fn, any(k.arg == "generator" for k in x.keywords))
                    if z:
                        c.ob("C08.global", f"{m.name}: {fn}", False, z + " at import")
    constants(c, P)
    n = 0
    for full, m, node, owner in entries(P):
        if ".viz" in full and not full.startswith(PKG + ".viz"):
            continue
        with c.rule("C08.seed", full):
            r = c.run(full)
            n += 1

            def forked(e):
                return any(e.line in forks.get(x, ()) for x in forks if x.startswith(e.mod + "."))
            globals_(c, full, r, node, forked)
            seeds(c, full, node, r)
        with c.rule("C08.order", full):
            order(c, full, r)
        with c.rule("C08.ambient", full):
            clocks(c, full, r)
    if n < 60:
        raise AnalysisBroken("public entry points vanished")
