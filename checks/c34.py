"""C34: each array generator's value-flow term is lowered to the coordinate of microphone i along axis j and compared with the stated geometry (spacing, radius, angles, offsets, centroid, vertex regularity, tabulated directions) for all counts, spacings, radii and centres."""
import math
from vf.law import *
from vf.ident import Point, Undefined

CE, NUM_, SP, RAD, OFF, AZ = S("center"), S("num"), S("spacing"), S("radius"), S("offset"), S("azimuth_offset_deg")
i_, k_ = S("i"), S("k2")
PI = T("ext", "math.pi")
POLY = {"tetrahedron": (4, 3), "cube": (8, 3), "octahedron": (6, 4), "dodecahedron": (20, 3), "icosahedron": (12, 5)}
EM32 = [(69, 0), (90, 32), (111, 0), (90, 328), (32, 0), (55, 45), (90, 69), (125, 45), (148, 0), (125, 315), (90, 291), (55, 315), (21, 91), (58, 90),
        (121, 90), (159, 89), (69, 180), (90, 212), (111, 180), (90, 148), (32, 180), (55, 225), (90, 249), (125, 225), (148, 180), (125, 135), (90, 111),
        (55, 135), (21, 269), (58, 270), (122, 270), (159, 271)]
EM64 = list(zip([16.7656, 21.9677, 42.3941, 13.2817, 22.6728, 52.6925, 37.806, 43.3944, 43.9386, 70.3132, 33.2231, 60.0257, 56.4763, 67.4936, 93.2735, 48.423,
                 78.0793, 62.0685, 38.7171, 63.8004, 70.1946, 96.246, 81.0992, 106.094, 67.7533, 91.7061, 39.9985, 68.7726, 60.8869, 82.2833, 63.0247, 89.794,
                 137.5166, 139.7604, 135.2133, 160.3628, 162.577, 142.0685, 161.1987, 162.577, 115.536, 86.2594, 116.0164, 95.3313, 90.0637, 111.4549, 85.8671,
                 130.8398, 102.5775, 142.6375, 117.032, 117.5631, 115.8884, 89.69, 118.4478, 93.9338, 106.3875, 81.0511, 135.9764, 142.6771, 120.6556, 133.8834,
                 116.3591, 107.464],
                [197.4561, 115.734, 81.911, 313.3592, 43.1785, 46.7324, 335.9958, 14.5398, 204.4547, 206.542, 247.3219, 233.817, 264.5437, 99.6669, 104.6842,
                 120.9227, 126.513, 148.2368, 162.6381, 178.5498, 21.2715, 25.7834, 47.8607, 55.9075, 71.4285, 78.4921, 293.221, 290.5683, 318.1354, 334.0042,
                 352.0227, 0.0, 174.0335, 212.7205, 251.9179, 150.6471, 240.8266, 293.0625, 331.0098, 60.8266, 226.9135, 233.9255, 193.6382, 209.6696, 183.169,
                 163.7105, 156.9524, 139.4318, 135.9729, 102.3273, 112.5511, 83.1464, 307.7078, 309.1392, 278.2519, 282.9735, 253.147, 260.0688, 59.7394, 14.2241,
                 32.4901, 334.0753, 2.0842, 335.0677]))


def trig(name, x):
    return T("call", T("ext", "math." + name), (x,), ())


def ce(j):
    return T("at", CE, C(j))


class Gen:
    """One generator analysed for centres of D coordinates."""

    def __init__(self, c, name, D, kw=None, shapes=None, ty=None, pre=(), tag=""):
        self.c, self.D = c, D
        self.full = resolve_public(c.P, name)
        t = {NUM_: INT, SP: NUM, RAD: NUM, OFF: NUM, AZ: NUM}
        t.update(ty or {})
        self.F = Fn(c, self.full, kw=kw, shapes={CE: (C(D),), **(shapes or {})}, ty=t, pre=pre, key=(name, D, tag), updates=True)
        self.w = f"{self.full} {D}-D{' ' + tag if tag else ''}"
        self.mk = norms(self.F.I, ints=(i_, k_, NUM_), nonneg=(i_, k_), pos=(NUM_, SP, RAD))

    def at(self, i, j):
        return self.F.el(self.F.ret, i, C(j))

    def count(self, want):
        sh = self.F.shape(self.F.ret)
        if sh is None or len(sh) != 2:
            self.c.ob("C34.count", self.w, None, "shape of the result unknown")
            return
        N = self.mk()
        a, b = N.norm(self.F.L.at(sh[0], ())), N.norm(want)
        r = True if a is b else None
        if r is None and sh[0].op == "dimslice":
            a = slicelen(N, sh[0])
            r = True if a is b else None
        if r is None and pconst(a) is not None and pconst(b) is not None:
            r = False
        if r is None and a.op != "dimslice":
            r = Cmp(self.mk).compare(a, b)
        self.c.ob("C34.count", self.w, r, f"{pshow(a, 3)[:60]} microphones")
        if sh[1].op == "const":
            self.c.ob("C34.axes", self.w, sh[1].args[0] == self.D, f"{sh[1].args[0]} coordinates")

    def law(self, f):
        """f(i, j): expected coordinate."""
        for j in range(self.D):
            judge(self.c, "C34.geometry", f"{self.w} axis {j}", self.mk, self.at(i_, j), f(i_, j))


def slicelen(N, d):
    base, sl = d.args
    b = N.norm(base)
    lo, hi, st = sl.args
    e = lambda z: N.norm(z) if not (pconst(N.norm(z)) is not None and pconst(N.norm(z)) < 0) else padd(b, N.norm(z))
    if st is not NONE and st is not ONE:
        return T("dimslice?")
    return padd(b if hi is NONE else e(hi), cpoly(0) if lo is NONE else e(lo), -1)


def check(c):
    for D in (2, 3):
        with c.rule("C34.binaural", f"{D}-D"):
            g = Gen(c, "binaural_array", D)
            g.count(C(2))
            for i, s in ((0, "-"), (1, "+")):
                for j in range(D):
                    judge(c, "C34.geometry", f"{g.w} microphone {i} axis {j}", g.mk, g.at(C(i), j), B(s, ce(j), OFF) if j == 0 else ce(j))
        with c.rule("C34.linear", f"{D}-D"):
            for ax in range(D):
                g = Gen(c, "linear_array", D, kw={"direction": NONE, "axis": C(ax)}, tag=f"axis={ax}")
                g.count(NUM_)
                g.law(lambda i, j: B("+", ce(j), B("*", B("-", i, B("/", B("-", NUM_, C(1)), C(2))), SP)) if j == ax else ce(j))
            DR = S("direction")
            g = Gen(c, "linear_array", D, shapes={DR: (C(D),)}, pre=[neg(T("cmp", "is", DR, NONE))], tag="direction")
            g.count(NUM_)
            b = T("bv", 0)
            un = B("**", T("red", "sum", b, C(D), B("**", T("at", DR, b), C(2))), C(0.5))
            g.law(lambda i, j: B("+", ce(j), B("*", B("*", B("-", i, B("/", B("-", NUM_, C(1)), C(2))), SP), B("/", T("at", DR, C(j)), un))))
    ang = lambda i: B("/", B("*", B("*", C(2), PI), i), NUM_)
    with c.rule("C34.circular", "2-D"):
        g = Gen(c, "circular_array", 2, kw={"normal": NONE})
        g.count(NUM_)
        g.law(lambda i, j: B("+", ce(j), B("*", RAD, trig(("cos", "sin")[j], ang(i)))))
    for plane, axes in (("xy", (0, 1)), ("xz", (0, 2)), ("yz", (1, 2))):
        with c.rule("C34.circular", plane):
            g = Gen(c, "circular_array", 3, kw={"normal": NONE, "plane": const(plane)}, tag=plane)
            g.count(NUM_)
            g.law(lambda i, j: B("+", ce(j), B("*", RAD, trig(("cos", "sin")[axes.index(j)], ang(i)))) if j in axes else ce(j))
    with c.rule("C34.circular", "normal"):
        NV = S("normal")
        g = Gen(c, "circular_array", 3, shapes={NV: (C(3),)}, pre=[neg(T("cmp", "is", NV, NONE))], tag="normal")
        g.count(NUM_)
        d = lambda i: [B("-", g.at(i, j), ce(j)) for j in range(3)]
        dot = lambda x, y: B("+", B("+", B("*", x[0], y[0]), B("*", x[1], y[1])), B("*", x[2], y[2]))
        nv = [T("at", NV, C(j)) for j in range(3)]
        judge(c, "C34.radius", g.w, g.mk, dot(d(i_), d(i_)), B("**", RAD, C(2)), what="squared distance from the centre ")
        judge(c, "C34.plane", g.w, g.mk, dot(d(i_), nv), C(0), what="component along the normal ")
        judge(c, "C34.angle", g.w, g.mk, dot(d(i_), d(k_)), B("*", B("**", RAD, C(2)), trig("cos", B("-", ang(i_), ang(k_)))), what="angle between microphones ")
    for kind, (n, deg) in POLY.items():
        with c.rule("C34.polyhedron", kind):
            polyhedron(c, kind, n, deg)
    for name, tab in (("eigenmike_em32", EM32), ("eigenmike_em64", EM64)):
        with c.rule("C34.table", name):
            g = Gen(c, name, 3)
            g.count(C(len(tab)))
            for i, (th, ph) in enumerate(tab):
                t, p = trig("radians", C(float(th))), trig("radians", B("+", C(float(ph)), AZ))
                want = [B("*", trig("sin", t), trig("cos", p)), B("*", trig("sin", t), trig("sin", p)), trig("cos", t)]
                for j in range(3):
                    judge(c, "C34.geometry", f"{g.w} microphone {i} axis {j}", g.mk, g.at(C(i), j), B("+", ce(j), B("*", RAD, want[j])))


def polyhedron(c, kind, n, deg):
    g = Gen(c, "polyhedron_array", 3, kw={"kind": const(kind)}, tag=kind)
    g.count(C(n))
    sh = g.F.shape(g.F.ret)
    if sh is None or sh[0].op != "const":
        return
    n2 = sh[0].args[0]
    N = g.mk()
    pts = []
    for i in range(n2):
        row = []
        for j in range(3):
            x = N.norm(B("-", g.at(C(i), j), ce(j)))
            x = cancel(pmul(x, ppow1(N.norm(RAD))))
            try:
                if any(isinstance(y, T) and (y.op in ("sym", "at", "call", "phi", "unknown") or y.op == "fn" and y.args[0] not in ("sqrt",)) for y in subterms(x)):
                    raise Undefined()
                row.append(float(Point(1, N).val(x)))
            except (Undefined, ValueError, TypeError, ZeroDivisionError):
                c.ob("C34.vertices", g.w, None, f"vertex {i} axis {j} is not radius times a constant: {pshow(x, 3)[:100]}")
                return
        pts.append(row)
    dist = lambda p, q: math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))
    for i, p in enumerate(pts):
        r = math.sqrt(sum(a * a for a in p))
        c.ob("C34.radius", f"{g.w} vertex {i}", abs(r - 1) < 1e-9, f"at {r:.6f} radii from the centre")
    m = [sum(p[j] for p in pts) / len(pts) for j in range(3)]
    c.ob("C34.centroid", g.w, max(abs(x) for x in m) < 1e-9, f"mean offset {[round(x, 6) for x in m]} radii")
    ref = sorted(round(dist(pts[0], q), 6) for q in pts)
    same_ = all(sorted(round(dist(p, q), 6) for q in pts) == ref for p in pts)
    c.ob("C34.regular", g.w, same_ and len(ref) == n and len(ref) > 1 and ref[1] > 1e-6 and ref[1:1 + deg] == [ref[1]] * deg and (len(ref) <= 1 + deg or ref[1 + deg] > ref[1]),
         f"vertices all see the same distances, {deg} neighbours each" if same_ else "vertices see different sets of distances")


def ppow1(x):
    from vf.alg import ppow
    return ppow(x, cpoly(-1))
