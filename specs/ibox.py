"""C16: index boxes (get_ibox) and clamping (clamp_ibox)."""
from .common import *
from .polyops import rng, fa, u_
from dv.symx import smart_select as sel
PRE = {2: "r2d", 3: "r3d", 4: "rNd"}; FILE = {2: "src/v2d.c", 3: "src/v3d.c", 4: "src/vNd.c"}
BIG = z3.RealVal("1" + "0" * 30)
def get_ibox(D):
    Lo = z3.Reals(" ".join("Lo%d" % a for a in range(D))); Hi = z3.Reals(" ".join("Hi%d" % a for a in range(D)))   # arbitrary bounds of the vertices
    P = lambda c, a, u: sel(c.m("poly.verts.pos.%d" % a), u)
    at = lambda c, u: [And(Lo[a] <= P(c, a, u), P(c, a, u) <= Hi[a], P(c, a, u) < BIG, P(c, a, u) > -BIG) for a in range(D)]
    dd = lambda c, a: zr(c.m("d.%d" % a))
    def pre(c):
        n = zi(c.m("poly.nverts"))
        return [("vertex count within the buffer, at least one", And(n >= 1, n <= MAXV[D])), ("grid spacing is positive", And(*[dd(c, a) > 0 for a in range(D)])),
                ("coordinates below the sentinels; Lo and Hi bound them", fa(u_, Implies(rng(0, u_, n), And(*at(c, u_))), P(c, 0, u_)))]
    def inv(c):
        c0 = c.old(); n = zi(c0.m("poly.nverts")); out = [("counter in range", c.counter_range(0, n))]
        anyd = Or(c.done(I(0)), c.done(n - 1))
        for a in range(D):
            lo, hi = zr(c.m("rbox.0.%d" % a)), zr(c.m("rbox.1.%d" % a))
            out += [("box covers an arbitrary visited vertex, axis %d" % a, Implies(And(rng(0, U, n), c.done(U)), And(lo <= P(c0, a, U), P(c0, a, U) <= hi))),
                    ("box is tight, axis %d" % a, And(Implies(anyd, And(lo >= Lo[a], hi <= Hi[a])), Implies(Not(anyd), And(lo == BIG, hi == -BIG))))]
        return out
    def head(c): return [Implies(rng(0, c.lv, zi(c.old().m("poly.nverts"))), And(*at(c.old(), c.lv)))]
    def post(c):
        c0 = c.old(); n = zi(c0.m("poly.nverts")); out = []
        for a in range(D):
            i0, i1 = zi(c.m("ibox.0.%d" % a)), zi(c.m("ibox.1.%d" % a)); d = dd(c0, a); p = P(c0, a, U)
            out += [("every vertex lies above the lower index, axis %d" % a, Implies(rng(0, U, n), zr(i0) <= p / d)), ("every vertex lies below the upper index, axis %d" % a, Implies(rng(0, U, n), p / d <= zr(i1))),
                    ("lower index is the largest possible, axis %d" % a, Lo[a] / d < zr(i0) + 1), ("upper index is the smallest possible, axis %d" % a, Hi[a] / d > zr(i1) - 1)]
        for a in range(D): out.append(("polytope unchanged, axis %d" % a, c.m("poly.verts.pos.%d" % a) == c0.m("poly.verts.pos.%d" % a)))
        return out + [("vertex count unchanged", zi(c.m("poly.nverts")) == n)]
    def ex(c):   # division by a positive number is monotone
        out = []; n = zi(c.old().m("poly.nverts"))
        for a in range(D):
            d = dd(c.old(), a); lo, hi = zr(c.m("rbox.0.%d" % a)), zr(c.m("rbox.1.%d" % a)); p = P(c.old(), a, U)
            out += [Implies(x <= y, x / d <= y / d) for x, y in ((lo, p), (p, hi), (Lo[a], lo), (hi, Hi[a]))]
        return out
    return Fn(PRE[D] + "_get_ibox", FILE[D], params={"poly": "obj", "ibox": ("fix", 2), "d": "scalar"}, pre=pre, post=post, loops=[Loop("verts", inv, head_lemma=head, exit_lemma=ex)])
def lem():
    x, y, d, a, b = z3.Reals("x y d a b")
    return [Lemma("division by a positive spacing is monotone", [d > 0, x <= y], x / d <= y / d), Lemma("multiplication by a positive spacing is monotone", [d > 0, a <= b], a * d <= b * d)]

# ------------------------------------------------------------------ clamp_ibox
X4 = z3.Reals("X0 X1 X2 X3")      # an arbitrary point of space
def region(D):
    """membership of the point X in the polytope stored in (nverts, vertex data): abstract"""
    F = z3.Function("InPoly%d" % D, Int, z3.ArraySort(Int, Real), z3.ArraySort(Int, Int), z3.BoolSort())
    return lambda c: F(zi(c.m("poly.nverts")), c.m("poly.verts.pos.0"), c.m("poly.verts.pnbrs.0"))
class ClipC:
    """what C01/C02/C03 establish for clip, as seen by a caller: the region is intersected with the half-spaces"""
    def __init__(s, D):
        s.name = PRE[D] + "_clip"; s.D = D; s.argnames = ["poly", "planes", "nplanes"]; s.arrargs = ("planes",); s.modifies = ["poly"]
    def hs(s, c):
        n = c.ex.toint(c.v("nplanes")) if not isinstance(c.v("nplanes"), int) else c.v("nplanes")
        out = []
        for k in range(2 * s.D):
            v = zr(c.m("planes.%d.d" % k))
            for a in range(s.D): v = v + zr(c.m("planes.%d.n.%d" % (k, a))) * X4[a]
            out.append(Implies(zi(n) > k, v >= 0))
        return And(*out)
    def call_pre(s, c): return [("a plane count within the array", And(c.i("nplanes") >= 0, c.i("nplanes") <= 2 * s.D))]
    def call_post(s, c):
        In = region(s.D)
        return [("intersection", In(c) == And(In(c.old()), s.hs(c.old())))]
def clamp(D):
    In = region(D)
    B = lambda c, nm, s, a: zi(c.m("%s.%d.%d" % (nm, s, a))); dd = lambda c, a: zr(c.m("d.%d" % a))
    def pre(c):
        out = [("grid spacing is positive", And(*[dd(c, a) > 0 for a in range(D)])), ("vertex count", And(zi(c.m("poly.nverts")) >= 0, zi(c.m("poly.nverts")) <= MAXV[D])),
               ("the index box contains the polytope", Implies(In(c), And(*[And(zr(B(c, "ibox", 0, a)) * dd(c, a) <= X4[a], X4[a] <= zr(B(c, "ibox", 1, a)) * dd(c, a)) for a in range(D)])))]
        for a in range(D):       # instances of the monotonicity lemma
            x0, x1, k0, k1 = (zr(B(c, n, s, a)) for n, s in (("ibox", 0), ("ibox", 1), ("clampbox", 0), ("clampbox", 1))); d = dd(c, a)
            out.append(("monotonicity, axis %d" % a, And(Implies(k0 <= x0, k0 * d <= x0 * d), Implies(x1 <= k1, x1 * d <= k1 * d))))
        return out
    def post(c):
        c0 = c.old(); i0, i1, k0, k1 = ([B(c0, n, s, a) for a in range(D)] for n, s in (("ibox", 0), ("ibox", 1), ("clampbox", 0), ("clampbox", 1)))
        dis = Or(*[Or(i1[a] <= k0[a], i0[a] >= k1[a]) for a in range(D)])
        out = [("disjoint boxes: the polytope becomes empty", Implies(dis, zi(c.m("poly.nverts")) == 0))]
        for a in range(D):
            n0, n1 = B(c, "ibox", 0, a), B(c, "ibox", 1, a)
            out += [("disjoint boxes: the index box becomes empty, axis %d" % a, Implies(dis, n0 == n1)),
                    ("lower index is clamped, axis %d" % a, Implies(Not(dis), n0 == If(i0[a] < k0[a], k0[a], i0[a]))),
                    ("upper index is clamped, axis %d" % a, Implies(Not(dis), n1 == If(i1[a] > k1[a], k1[a], i1[a]))),
                    ("clamp box unchanged, axis %d" % a, And(B(c, "clampbox", 0, a) == k0[a], B(c, "clampbox", 1, a) == k1[a]))]
        box = And(*[And(zr(k0[a]) * dd(c0, a) <= X4[a], X4[a] <= zr(k1[a]) * dd(c0, a)) for a in range(D)])
        out.append(("the polytope becomes exactly its part inside the clamp box", Implies(Not(dis), In(c) == And(In(c0), box))))
        return out
    return Fn(PRE[D] + "_clamp_ibox", FILE[D], params={"poly": "obj", "ibox": ("fix", 2), "clampbox": ("fix", 2), "d": "scalar"}, pre=pre, post=post, contracts={PRE[D] + "_clip": ClipC(D)}, unroll=True)
FNS = [get_ibox(2), get_ibox(3), get_ibox(4), clamp(2), clamp(3), clamp(4)]
prop("C16", fns=FNS, lemmas=lem(), rt=[("p_basic.c", "ibox")],
     assumptions=["coordinates are below 1e30 in magnitude (the sentinels of get_ibox) and indices fit an int", "clip intersects the region with the half-spaces (contract decided by C01, C02 and C03)"])
