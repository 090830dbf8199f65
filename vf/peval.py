"""Constant evaluation of a condition's term for one concrete value of the checked object (path and string rules only, no file system)."""
from __future__ import annotations
import os.path, posixpath, re
from pathlib import PurePosixPath as PP
from .terms import *


class Unknown(Exception):
    pass


TYPES = {"REGTYPE": b"0", "AREGTYPE": b"\0", "LNKTYPE": b"1", "SYMTYPE": b"2", "CHRTYPE": b"3", "BLKTYPE": b"4", "DIRTYPE": b"5", "FIFOTYPE": b"6", "CONTTYPE": b"7", "GNUTYPE_SPARSE": b"S"}
REG = (b"0", b"\0", b"7", b"S")
STR = {"startswith", "endswith", "split", "rsplit", "strip", "lstrip", "rstrip", "replace", "lower", "upper", "casefold", "partition", "rpartition", "find", "rfind", "count", "join", "removeprefix", "removesuffix", "index", "splitlines"}
BUILT = {"str": str, "len": len, "any": any, "all": all, "bool": bool, "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "sorted": sorted, "min": min, "max": max, "repr": repr, "int": int, "abs": abs, "reversed": lambda x: list(x)[::-1], "enumerate": lambda x: list(enumerate(x))}


class Member:
    def __init__(self, name, type=b"0", size=5, linkname="", mode=0o644):
        self.name, self.path, self.type, self.size, self.linkname, self.linkpath, self.mode = name, name, type, size, linkname, linkname, mode
        self.uid = self.gid = 1000
        self.uname = self.gname = "user"

    def __repr__(self):
        return f"{self.name!r}" + (f" -> {self.linkname!r}" if self.linkname else "") + (" (directory)" if self.type == b"5" else "") + (f" of size {self.size}" if self.type == b"0" and not self.size else "")


def full(p):
    s = str(p)
    return posixpath.normpath(s if s.startswith("/") else "/cwd/" + s)


class PEval:
    def __init__(self, env, bound, loopinfo=None):
        self.env, self.bound, self.li = env, dict(bound), loopinfo or {}

    def __call__(self, t):
        """The value of t, or None if some part of it is not a constant."""
        try:
            return self.ev(t)
        except Unknown:
            return None
        except Exception:
            return None

    def cond(self, t):
        """True, False or None."""
        try:
            return self.truth(t)
        except Exception:
            return None

    def truth(self, t):
        o = t.op
        if o in ("and", "or"):
            unk = None
            for x in t.args:
                try:
                    v = self.truth(x)
                except Exception as e:
                    unk = e
                    continue
                if v is (o == "or"):
                    return v
            if unk is not None:
                raise Unknown
            return o == "and"
        if o == "not":
            return not self.truth(t.args[0])
        if o == "truth":
            return self.truth(t.args[0])
        if o == "phi":
            return self.truth(t.args[1 if self.truth(t.args[0]) else 2])
        if o == "forall":
            it = self.li.get(t.args[0], {}).get("iter")
            if not isinstance(it, T):
                raise Unknown
            from .rules import unhash
            vals = list(self.ev(unhash(it)))
            save = self.bound.get(t.args[0])
            try:
                for v in vals:
                    self.bound[t.args[0]] = v
                    if not self.truth(t.args[1]):
                        return False
                return True
            finally:
                if save is None:
                    self.bound.pop(t.args[0], None)
                else:
                    self.bound[t.args[0]] = save
        if o in ("const", "cmp", "call", "sym", "attr", "item", "bin", "elem", "fstr", "tuple", "list"):
            return bool(self.ev(t))
        raise Unknown

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.args
        if o == "const":
            return a[0]
        if o == "ext":
            n = a[0]
            if n.startswith("tarfile.") and n[8:] in TYPES:
                return TYPES[n[8:]]
            if n in ("os.sep", "os.path.sep"):
                return "/"
            if n in ("os.pardir", "os.path.pardir"):
                return ".."
            if n in ("os.curdir", "os.path.curdir"):
                return "."
            if n in ("os.altsep", "os.path.altsep"):
                return None
            raise Unknown
        if o in ("tuple", "list"):
            r = [self.ev(x) for x in a]
            return tuple(r) if o == "tuple" else r
        if o == "set":
            return {self.ev(x) for x in a}
        if o == "elem":
            if a[1] in self.bound:
                return self.bound[a[1]]
            raise Unknown
        if o == "fstr":
            out = ""
            for x in a:
                if x.op == "const":
                    out += str(x.args[0])
                elif x.op == "fmt" and not x.args[1] and x.args[2] in (-1, 115):
                    out += str(self.ev(x.args[0]))
                else:
                    raise Unknown
            return out
        if o == "phi":
            return self.ev(a[1 if self.truth(a[0]) else 2])
        if o in ("and", "or", "not", "truth", "forall"):
            return self.truth(t)
        if o == "cmp":
            return self.cmp(a[0], self.ev(a[1]), self.ev(a[2]))
        if o == "bin":
            x, y = self.ev(a[1]), self.ev(a[2])
            if a[0] == "/" and (isinstance(x, PP) or isinstance(y, PP)):
                return PP(x) / y
            if a[0] == "+" and type(x) is type(y):
                return x + y
            if a[0] == "&" and isinstance(x, int):
                return x & y
            raise Unknown
        if o == "item":
            x = self.ev(a[0])
            if a[1].op == "slice":
                return x[slice(*[self.ev(z) for z in a[1].args])]
            return x[self.ev(a[1])]
        if o == "attr":
            x = self.ev(a[0])
            if isinstance(x, Member) and a[1] in x.__dict__:
                return getattr(x, a[1])
            if isinstance(x, PP) and a[1] in ("name", "parts", "parent", "stem", "suffix", "anchor", "root", "suffixes"):
                return getattr(x, a[1])
            if isinstance(x, PP) and a[1] == "parents":
                return tuple(x.parents)
            raise Unknown
        if o == "call" and a[0].op == "ext":
            return self.call(a[0].args[0], [self.ev(x) for x in a[1]], {k: self.ev(v) for k, v in a[2] if k != "#"})
        raise Unknown

    def cmp(self, op, x, y):
        if op in ("in", "not in"):
            if isinstance(y, PP):
                raise Unknown
            return x in y
        if op in ("==", "!="):
            if isinstance(x, PP) != isinstance(y, PP):
                raise Unknown
            return (x == y) is (op == "==")
        if op == "is":
            if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                return x is y
            raise Unknown
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op] if op in ("<", "<=", ">", ">=") else self.no()

    def no(self):
        raise Unknown

    def call(self, n, A, kw):
        if n in ("pathlib.Path", "pathlib.PurePath", "pathlib.PurePosixPath", "pathlib.PosixPath"):
            return PP(*A)
        if n.startswith("os.path.") or n in ("os.fspath", "posixpath.join", "posixpath.normpath"):
            f = n.split(".")[-1]
            S = [str(x) if isinstance(x, PP) else x for x in A]
            if f in ("join", "normpath", "isabs", "basename", "dirname", "split", "commonprefix", "normcase", "splitext", "splitdrive", "expanduser"):
                if f == "commonprefix":
                    return os.path.commonprefix([str(z) for z in S[0]])
                return getattr(posixpath, f)(*S) if f != "expanduser" else S[0]
            if f == "commonpath":
                return posixpath.commonpath([str(z) for z in S[0]])
            if f in ("abspath", "realpath"):
                return full(S[0])
            if f == "fspath":
                return S[0]
            if f == "relpath" and len(S) == 2:
                return posixpath.relpath(full(S[0]), full(S[1]))
            raise Unknown
        if n.startswith("builtins.") and n[9:] in BUILT:
            return BUILT[n[9:]](*A, **kw)
        if n.startswith("re.") and n[3:] in ("match", "search", "fullmatch") and all(isinstance(x, str) for x in A):
            return getattr(re, n[3:])(*A) is not None
        if n.startswith("m.") and A:
            f, x = n[2:], A[0]
            if isinstance(x, Member) and not A[1:]:
                k = x.type
                r = {"issym": k == b"2", "islnk": k == b"1", "isdir": k == b"5", "isfile": k in REG, "isreg": k in REG, "isdev": k in (b"3", b"4", b"6"), "ischr": k == b"3", "isblk": k == b"4", "isfifo": k == b"6", "issparse": k == b"S"}
                if f in r:
                    return r[f]
                raise Unknown
            if isinstance(x, PP):
                if f in ("resolve", "absolute"):
                    return PP(full(x)) if f == "resolve" else x if x.is_absolute() else PP("/cwd") / x
                if f in ("expanduser",):
                    return x
                if f in ("is_absolute", "joinpath", "as_posix", "relative_to", "is_relative_to", "with_suffix", "with_name"):
                    return getattr(x, f)(*A[1:])
                if f in STR:
                    return getattr(str(x), f)(*A[1:])
                raise Unknown
            if isinstance(x, str) and f in STR:
                return getattr(x, f)(*A[1:], **kw)
            raise Unknown
        raise Unknown
