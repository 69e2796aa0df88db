"""C06: rNd_split over the contract of rNd_clip."""
from .common import *
X = z3.Reals("X0 X1 X2 X3")      # an arbitrary point of space
_F = z3.Function("InPolyN", Int, *[z3.ArraySort(Int, Real)] * 4, *[z3.ArraySort(Int, Int)] * 4, z3.BoolSort())
def region(c, nm):
    return _F(zi(c.m(nm + ".nverts")), *[c.m("%s.verts.pos.%d" % (nm, a)) for a in range(4)], *[c.m("%s.verts.pnbrs.%d" % (nm, a)) for a in range(4)])
class Clip1:
    """what C03 states for rNd_clip with one plane: the region is intersected with the half-space"""
    name = "rNd_clip"; argnames = ["poly", "planes", "nplanes"]; modifies = ["poly"]
    def call_pre(s, c): return [("one plane", c.i("nplanes") == 1), ("a plane with a non-zero normal", Or(*[zr(c.m("planes.n.%d" % a)) != 0 for a in range(4)]))]
    def call_post(s, c):
        v = zr(c.m("planes.d"))
        for a in range(4): v = v + zr(c.m("planes.n.%d" % a)) * X[a]
        return [("intersection", region(c, "poly") == And(region(c.old(), "poly"), v >= 0))]
def split(inplace):
    lo = "inpoly" if inplace else "low"
    def pre(c): return [("axis", And(0 <= c.i("ax"), c.i("ax") < 4))]
    def post(c):
        o = c.old(); ax, x = o.i("ax"), o.r("coord"); xa = If(ax == 0, X[0], If(ax == 1, X[1], If(ax == 2, X[2], X[3])))
        out = [("the lower part is the part at or below the coordinate", region(c, lo) == And(region(o, "inpoly"), xa <= x)),
               ("the upper part is the part at or above the coordinate", region(c, "high") == And(region(o, "inpoly"), xa >= x))]
        if not inplace: out.append(("the input is unchanged", And(zi(c.m("inpoly.nverts")) == zi(o.m("inpoly.nverts")), *[c.m("inpoly.verts.%s.%d" % (f, a)) == o.m("inpoly.verts.%s.%d" % (f, a)) for f in ("pos", "pnbrs") for a in range(4)])))
        return out
    f = Fn("rNd_split", "src/vNd.c", params={"inpoly": "obj", "outpolys": ("ptrs", [lo, "high"]), "coord": "scalar", "ax": "scalar"}, pre=pre, post=post, contracts={"rNd_clip": Clip1()}, unroll=True)
    f.label = "rNd_split (%s)" % ("in place" if inplace else "separate outputs"); return f
FNS = [split(True), split(False)]
prop("C06", fns=FNS, rt=[("p_split.c", "splitN")], bounded=[("p_split.c", "splitN")],
     assumptions=["rNd_clip intersects the polytope with the half-space (property C03, decided only by a bounded check)"])
