"""C10: vertex-wise transforms move every vertex by exactly the documented map and
touch nothing else (2D, 3D and ND)."""
from .common import *

AX = {2: ("x", "y"), 3: ("x", "y", "z"), 4: (0, 1, 2, 3)}
PRE = {2: "r2d", 3: "r3d", 4: "rNd"}
FILE = {2: "src/r2d.c", 3: "src/r3d.c", 4: "src/rNd.c"}

def pos(c, d, a): return c.m("poly.verts.pos.%s" % a)
def nbrs(c, d): return [c.m("poly.verts.pnbrs.%d" % k) for k in range(d)]

def mk(d, op, params, image, pre=None):
    """image(c0, old_coords) -> list of expected coordinates"""
    def req(c):
        n = zi(c.m("poly.nverts"))
        r = [("vertex count within the buffer", And(n >= 0, n <= MAXV[d]))]
        if pre: r += pre(c)
        return r
    def expect(c, c0, k):
        return image(c0, [Select(pos(c0, d, a), U) for a in range(d)])[k]
    def inv(c):
        c0 = c.old(); v = c.lv
        n = zi(c0.m("poly.nverts"))
        out = [("counter in range", c.counter_range(0, n))]
        done = c.done(U)
        for k in range(d):
            o, now = Select(pos(c0, d, k), U), Select(pos(c, d, k), U)
            out.append(("coordinate %d of an arbitrary vertex" % k,
                        And(Implies(And(U >= 0, U < n, done), now == expect(c, c0, k)),
                            Implies(Not(And(U >= 0, U < n, done)), now == o))))
        return out
    def post(c):
        c0 = c.old(); n = zi(c0.m("poly.nverts")); inr = And(U >= 0, U < n)
        out = []
        for k in range(d):
            o, now = Select(pos(c0, d, k), U), Select(pos(c, d, k), U)
            out.append(("%s: coordinate %d of every vertex is the documented image" % (op, k), Implies(inr, now == expect(c, c0, k))))
            out.append(("%s: entries beyond the vertex count are untouched (%d)" % (op, k), Implies(Not(inr), now == o)))
        out.append(("%s: vertex count unchanged" % op, zi(c.m("poly.nverts")) == n))
        for k, (a, b) in enumerate(zip(nbrs(c, d), nbrs(c0, d))):
            out.append(("%s: neighbour %d of every vertex unchanged" % (op, k), a == b))
        if d == 4:
            out.append(("%s: face count unchanged" % op, zi(c.m("poly.nfaces")) == zi(c0.m("poly.nfaces"))))
            for i in range(4):
                for j in range(4): out.append(("%s: face id %d,%d unchanged" % (op, i, j), c.m("poly.verts.finds.%d.%d" % (i, j)) == c0.m("poly.verts.finds.%d.%d" % (i, j))))
        return out
    return Fn("%s_%s" % (PRE[d], op), FILE[d], params=dict({"poly": "obj"}, **params), pre=req, post=post,
              loops=[Loop("verts", inv)])

def trig(c):
    t = c.r("theta")
    return z3.Function("sin", Real, Real)(t), z3.Function("cos", Real, Real)(t)
def pick(vals, ax):
    e = vals[-1]
    for k in range(len(vals) - 2, -1, -1): e = If(ax == k, vals[k], e)
    return e

def rot2(c, p):
    s, co = trig(c); return [co * p[0] - s * p[1], s * p[0] + co * p[1]]
def rot3(c, p):
    s, co = trig(c); ax = c.i("axis"); out = []
    for k in range(3):
        # axis a: k == a unchanged; k == a+1: c*p[a+1]-s*p[a+2]; k == a+2: s*p[a+1]+c*p[a+2]
        e = p[k]
        a1 = (k - 1) % 3; e = If(ax == a1, co * p[k] - s * p[(k + 1) % 3], e)
        a2 = (k - 2) % 3; e = If(ax == a2, s * p[(k - 1) % 3] + co * p[k], e)
        out.append(e)
    return out
def rotN(c, p):
    s, co = trig(c); a, b = c.i("ax1"), c.i("ax2")
    return [If(a == k, co * p[k] - s * pick(p, b), If(b == k, s * pick(p, a) + co * p[k], p[k])) for k in range(4)]
def trans(d):
    return lambda c, p: [p[k] + zr(c.m("shift.%d" % k)) for k in range(d)]
def scale(c, p): return [x * c.r("scale") for x in p]
def scaleN(c, p): return [p[k] * zr(c.m("scale.%d" % k)) for k in range(4)]
def shear(c, p):
    b, s = c.i("axb"), c.i("axs")
    return [If(b == k, p[k] + c.r("shear") * pick(p, s), p[k]) for k in range(len(p))]
def affine(d):
    def f(c, p):
        M = [[zr(c.m("mat.%d.%d" % (i, j))) for j in range(d + 1)] for i in range(d + 1)]
        row = lambda i: sum([p[j] * M[i][j] for j in range(1, d)], p[0] * M[i][0]) + M[i][d]
        return [row(i) / row(d) for i in range(d)]
    return f
def wpre(d):
    def f(c):
        p = [Select(pos(c, d, a), U) for a in range(d)]
        M = [zr(c.m("mat.%d.%d" % (d, j))) for j in range(d + 1)]
        return [("homogeneous weight is non-zero", sum([p[j] * M[j] for j in range(d)], M[d]) != 0)]
    return f
def axes(d, *names):
    def f(c):
        r = [("axis %s in range" % n, And(c.i(n) >= 0, c.i(n) < d)) for n in names]
        if names == ("ax1", "ax2"): r.append(("axes differ", c.i("ax1") != c.i("ax2")))
        return r
    return f

FNS = [
    mk(2, "rotate", {"theta": "scalar"}, rot2),
    mk(2, "translate", {"shift": "scalar"}, trans(2)),
    mk(2, "scale", {"scale": "scalar"}, scale),
    mk(2, "shear", {"shear": "scalar", "axb": "scalar", "axs": "scalar"}, shear, axes(2, "axb", "axs")),
    mk(2, "affine", {"mat": ("fix", 3)}, affine(2), wpre(2)),
    mk(3, "rotate", {"theta": "scalar", "axis": "scalar"}, rot3, axes(3, "axis")),
    mk(3, "translate", {"shift": "scalar"}, trans(3)),
    mk(3, "scale", {"scale": "scalar"}, scale),
    mk(3, "shear", {"shear": "scalar", "axb": "scalar", "axs": "scalar"}, shear, axes(3, "axb", "axs")),
    mk(3, "affine", {"mat": ("fix", 4)}, affine(3), wpre(3)),
    mk(4, "rotate", {"theta": "scalar", "ax1": "scalar", "ax2": "scalar"}, rotN, axes(4, "ax1", "ax2")),
    mk(4, "translate", {"shift": "scalar"}, trans(4)),
    mk(4, "scale", {"scale": "scalar"}, scaleN),
    mk(4, "shear", {"shear": "scalar", "axb": "scalar", "axs": "scalar"}, shear, axes(4, "axb", "axs")),
    mk(4, "affine", {"mat": ("fix", 5)}, affine(4), wpre(4)),
]

prop("C10", fns=FNS, rt=[("p_transforms.c", "transforms")],
     assumptions=["homogeneous weight of every vertex is non-zero for affine maps; axis arguments are valid and, for ND rotation, distinct"])
