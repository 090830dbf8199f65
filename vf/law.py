"""Laws stated as expressions, compared with what an analysed function computes."""
from __future__ import annotations
from .simlib import *
from .alg import cancel, pshow, split, conditions
from .simconf import leaves, peel

TEN = frozenset({"Tensor"})
NUM = frozenset({"float"})


class Fn:
    """One abstract run of a function with symbolic arguments of stated shapes."""

    def __init__(self, c, full, args=(), kw=None, shapes=None, ty=None, pre=(), key=None, **opts):
        sh = dict(shapes or {})
        t = {x: TEN for x in sh if x.op == "sym"}
        t.update(ty or {})
        opts.setdefault("updates", "ops")
        self.full = full
        self.r = c.run(full, args=args, kw=kw or {}, pre=list(pre), key=key, shapes=sh, symty=t, **opts)
        self.I = self.r.I
        self._l = None

    @property
    def L(self):
        if self._l is None:
            self._l = Lower(self.I)
        return self._l

    def el(self, t, *idx):
        return self.L.at(t, tuple(idx))

    def shape(self, t):
        return self.I.shape(t)

    @property
    def ret(self):
        return self.r.ret

    def raises(self):
        return [e for e in self.r.events if e.kind == "raise"]


def norms(I=None, ints=(), nonneg=(), pos=(), intb=(), nnb=(), env=None, eps=None, fold=None, facts=None):
    def mk(f=None):
        ff = dict(facts or {})
        ff.update(f or {})
        N = Norm(I, ints=set(ints), nonneg=set(nonneg) | {("pos", p) for p in pos}, facts=ff, epsmax=eps, fold=fold)
        N.intb |= set(intb)
        N.nnb |= set(nnb)
        for a, b in (env or {}).items():
            N.env[a] = N.norm(b)
        return N
    return mk


def judge(c, rule, where, mk, got, want, facts=None, what="", trusted=None):
    """One obligation: got equals want wherever the facts hold."""
    cm = Cmp(mk, trusted=trusted)
    r = cm.compare(got, want, facts)
    if r is False:
        f, x, y = cm.witness
        c.ob(rule, where, False, f"{what}computes {pshow(x, 4)[:200]} where the law gives {pshow(y, 4)[:200]}")
    else:
        c.ob(rule, where, r, "equals the law" if r else f"{what}not comparable: {show(got, 3)[:120]}")
    return r


def assume(t, known, memo=None):
    """t with every branch decided by known (condition -> bool) resolved."""
    memo = {} if memo is None else memo

    def asg(a):
        return known.get(a)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == "phi":
                b = beval(x.args[0], asg)
                r = go(x.args[1] if b else x.args[2]) if b is not None else phi(go(x.args[0]), go(x.args[1]), go(x.args[2]))
            else:
                na = tuple(go(y) for y in x.args)
                r = x if na == x.args else T(x.op, *na)
            memo[x] = r
        return r
    return go(t)


def bases(t, out=None):
    """Tensors a stored-into value started from."""
    out = [] if out is None else out
    if t.op == "phi":
        bases(t.args[1], out)
        bases(t.args[2], out)
    elif t.op == "upd":
        bases(t.args[0], out)
    elif t not in out:
        out.append(t)
    return out
