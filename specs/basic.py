"""C13 face planes, C14 signed volumes, C11 constructors."""
from .common import *
from .polyops import fa, rng, u_, valid2
from dv.symx import smart_select as sel, sqrt_of, numeral, CMOD, modfacts
EPS = z3.RealVal("1/1" + "0" * 299)     # guard in the norm macro against zero length
def sub(a, b): return [x - y for x, y in zip(a, b)]
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def dot(a, b): return sum([x*y for x, y in zip(a[1:], b[1:])], a[0]*b[0])
def det(M):
    if len(M) == 1: return M[0][0]
    r = None
    for j in range(len(M)):
        m = det([row[:j] + row[j+1:] for row in M[1:]]); t = M[0][j] * m
        r = t if r is None else (r - t if j % 2 else r + t)
    return r
def vec(c, name, D, i=None): return [zr(c.m("%s.%d.%d" % (name, i, k)) if i is not None else c.m("%s.%d" % (name, k))) for k in range(D)]

# ------------------------------------------------------------------ C14
def o2(c):
    a, b, d = (vec(c.old(), n, 2) for n in ("pa", "pb", "pc"))
    return [("r2d_orient is half the determinant of the edge vectors", zr(c.ret) == det([sub(b, a), sub(d, a)]) / 2)]
def o3(c):
    v = [vec(c.old(), "verts", 3, i) for i in range(4)]
    return [("r3d_orient is a sixth of the determinant of the edge vectors", zr(c.ret) == det([sub(v[i], v[0]) for i in (1, 2, 3)]) / 6)]
def oN(c):
    v = [vec(c.old(), "verts", 4, i) for i in range(5)]
    return [("rNd_orient is 1/D! of the determinant of the edge vectors", zr(c.ret) == det([sub(v[i], v[0]) for i in (1, 2, 3, 4)]) / 24)]
def dN(c):
    M = [[zr(c.old().m("mat.%d.%d" % (i, j))) for j in range(4)] for i in range(4)]
    return [("rNd_det is the determinant", zr(c.ret) == det(M))] + [("matrix entry %d,%d unchanged" % (i, j), zr(c.m("mat.%d.%d" % (i, j))) == M[i][j]) for i in range(4) for j in range(4)]
ORIENT = [
    Fn("r2d_orient", "src/r2d.c", params={"pa": "scalar", "pb": "scalar", "pc": "scalar"}, post=o2),
    Fn("r3d_orient", "src/r3d.c", params={"verts": ("fix", 4)}, post=o3),
    Fn("rNd_det", "src/rNd.c", params={"mat": ("fix", 4)}, post=dN, unroll=True),
    Fn("rNd_orient", "src/rNd.c", params={"verts": ("fix", 5)}, post=oN, unroll=True),
]
prop("C14", fns=ORIENT, rt=[("p_basic.c", "orient")], assumptions=["RND_DIM = 4, the configured dimension"])

# ------------------------------------------------------------------ C13
def plane(c, i, D): return [zr(c.m("faces.%d.n.%d" % (i, k))) for k in range(D)], zr(c.m("faces.%d.d" % i))
def boxf(D):
    def post(c):
        b = [vec(c.old(), "rbounds", D, i) for i in (0, 1)]
        X = z3.Reals(" ".join("X%d" % k for k in range(D)))      # an arbitrary point
        out, cs = [], []
        for i in range(2 * D):
            n, d = plane(c, i, D)
            out.append(("face %d has a unit normal" % i, dot(n, n) == 1))
            cs.append(d + dot(n, X) >= 0)
        out.append(("the half-spaces of the faces intersect exactly to the box", And(*cs) == And(*[And(b[0][k] <= X[k], X[k] <= b[1][k]) for k in range(D)])))
        return out
    return post
FO = {0: (1, 2, 3), 1: (2, 3, 0), 2: (3, 0, 1), 3: (0, 1, 2)}
def tetf(c):
    v = [vec(c.old(), "verts", 3, i) for i in range(4)]; out = []
    for i in range(4):
        n, d = plane(c, i, 3); a, b, e = (v[j] for j in FO[i])
        N = cross(sub(b, a), sub(e, a))
        L = sqrt_of(dot(N, N))
        vol6 = det([sub(v[j], v[0]) for j in (1, 2, 3)])
        for j in FO[i]: out.append(("face %d passes through vertex %d" % (i, j), d + dot(n, v[j]) == 0))
        out.append(("face %d: normal times its length is the area vector (unit length)" % i, dot(n, n) * (L + EPS) * (L + EPS) == dot(N, N)))
        out.append(("face %d: the opposite vertex is on the inner side of a positive tetrahedron" % i, (d + dot(n, v[i])) * (L + EPS) == vol6))
    return out
def p2pre(c):
    return [("vertex count is not negative", c.i("numverts") >= 0)]
NX = lambda n: If(U + 1 == n, 0, U + 1)
def p2(c):
    c0 = c.old(); n = c.i("numverts")
    P = lambda i: [sel(c0.m("vertices.%d" % k), i) for k in range(2)]
    a, b = P(U), P(NX(n))
    nn = [sel(c.m("faces.n.%d" % k), U) for k in range(2)]; d = sel(c.m("faces.d"), U)
    N = [a[1] - b[1], b[0] - a[0]]; nN = dot(nn, N); NN = dot(N, N)
    return [("edge plane: the normal is parallel to the left-hand normal of the edge", nn[0] * N[1] == nn[1] * N[0]),
            ("edge plane: the normal has unit length", (NN - EPS * nN) * (NN - EPS * nN) == NN * nN * nN),
            ("edge plane: the normal points to the left of the edge", And(nn[0] * N[0] >= 0, nn[1] * N[1] >= 0)),
            ("edge plane passes through the first vertex", d + dot(nn, a) == 0), ("edge plane passes through the second vertex", d + dot(nn, b) == 0)]
def p2inv(c):
    n = c.i("numverts"); c0 = c.old()
    out = [("counter in range", c.counter_range(0, n))]
    done = And(rng(0, U, n), c.done(U))
    return out + [(nm, Implies(done, f)) for nm, f in p2(c)]
def p2post(c):
    n = c.i("numverts"); return [(nm, Implies(rng(0, U, n), f)) for nm, f in p2(c)]
FACES = [
    Fn("r2d_box_faces_from_verts", "src/r2d.c", params={"faces": ("fix", 4), "rbounds": ("fix", 2)}, post=boxf(2)),
    Fn("r3d_box_faces_from_verts", "src/r3d.c", params={"faces": ("fix", 6), "rbounds": ("fix", 2)}, post=boxf(3)),
    Fn("r3d_tet_faces_from_verts", "src/r3d.c", params={"faces": ("fix", 4), "verts": ("fix", 4)}, post=tetf),
    Fn("r2d_poly_faces_from_verts", "src/r2d.c", params={"faces": ("arr", lambda b: zi(b["numverts"])), "vertices": ("arr", lambda b: zi(b["numverts"])), "numverts": "scalar"},
       pre=p2pre, post=p2post, loops=[Loop("edges", p2inv)]),
]

# r3d_poly_faces_from_verts: an arbitrary face FF, planar and convex: all its vertices satisfy m.p = k for a
# unit vector m, and every ear cross product is a non-negative multiple EA of m (summing to SA)
FF = z3.Int("F!anyface"); VV = z3.Int("V!anycorner"); m3 = z3.Reals("m0 m1 m2"); kk = z3.Real("koff")
EA, SA = z3.Function("earA", Int, Real), z3.Function("sumA", Int, Real)
class P3:
    def __init__(s, c):
        c0 = c.old(); s.nf, s.nv = c.i("numfaces"), c.i("numverts")
        s.cnt = sel(c0.m("numvertsperface"), FF); s.ix = sel(c0.m("faceinds"), FF)
        s.vt = [c0.m("vertices.%d" % k) for k in range(3)]
    def P(s, v): i = sel(s.ix, v); return [sel(a, i) for a in s.vt]
    def wrap(s, x): return CMOD(x, s.cnt)
    def at(s, v):
        a, b, e = s.P(v), s.P(s.wrap(v + 1)), s.P(s.wrap(v + 2))
        C = cross(sub(b, a), sub(e, a))
        return Implies(rng(0, v, s.cnt), And(dot(m3, a) == kk, EA(v) >= 0, SA(v + 1) == SA(v) + EA(v), SA(v) >= 0, *[C[k] == EA(v) * m3[k] for k in range(3)]))
def p3pre(c):
    p = P3(c); c0 = c.old(); fi = c0.m("faceinds"); n = c0.m("numvertsperface"); f, v = z3.Ints("f v")
    return [("sizes", And(p.nf >= 0, p.nv >= 0)),
            ("every face has at least three corners", fa(f, Implies(rng(0, f, p.nf), n[f] >= 3), n[f])),
            ("corner indices are in range", fa([f, v], Implies(And(rng(0, f, p.nf), rng(0, v, n[f])), rng(0, fi[f][v], p.nv)), fi[f][v])),
            ("face F is planar and convex", And(m3[0] * m3[0] == 1 - m3[1] * m3[1] - m3[2] * m3[2], SA(0) == 0, SA(p.cnt) >= 0, fa(v, p.at(v), sel(p.ix, v))))]
def fn3(c): return [sel(c.m("faces.n.%d" % k), FF) for k in range(3)], sel(c.m("faces.d"), FF)
def p3(c):
    p = P3(c); n, d = fn3(c); x = dot(n, m3); A = SA(p.cnt)
    return [("face plane: normal parallel to the face normal", And(n[0] * m3[1] == n[1] * m3[0], n[0] * m3[2] == n[2] * m3[0], n[1] * m3[2] == n[2] * m3[1])),
            ("face plane: normal on the outer side", x >= 0),
            ("face plane: unit length", (A - EPS * x) * (A - EPS * x) == A * A * x * x),
            ("face plane contains the face", d == -kk * x)]
def p3inv(c):
    p = P3(c)
    return [("counter in range", c.counter_range(0, p.nf))] + [(nm, Implies(And(rng(0, FF, p.nf), c.done(FF)), f)) for nm, f in p3(c)]
def p3in(c):
    p = P3(c); f = c.lvof("faces"); v = c.lv; n, d = fn3(c); e = c.at("corners.entry"); n0, d0 = fn3(e)
    C = [zr(c.m("centroid.%d" % k)) for k in range(3)]
    cnt = sel(c.old().m("numvertsperface"), f)
    return [("counter in range", And(rng(0, f, p.nf), c.counter_range(0, cnt))),
            ("normal of face F is the sum of its ears", And(*[Implies(f == FF, n[k] == SA(v) * m3[k]) for k in range(3)])),
            ("other faces are untouched", Implies(f != FF, And(d == d0, *[n[k] == n0[k] for k in range(3)]))),
            ("centroid sum lies in the plane", Implies(f == FF, dot(m3, C) == zr(v) * kk))]
def p3head(c): return [P3(c).at(c.lv)] + modfacts(c.lv + 1, P3(c).cnt) + modfacts(c.lv + 2, P3(c).cnt)
def p3cuts(c):
    p = P3(c); h = c.at("faces.head"); f = h.lvof("faces"); n, d = fn3(c); x = dot(n, m3); C = [zr(c.m("centroid.%d" % k)) for k in range(3)]
    return [("offset is the plane's value at the centroid", Implies(f == FF, d == -x * dot(m3, C))),
            ("the centroid lies in the plane", Implies(f == FF, dot(m3, C) == kk)),
            ("normal components have the sign of the face normal", Implies(f == FF, And(*[n[k] * m3[k] >= 0 for k in range(3)])))]
FACES.append(Fn("r3d_poly_faces_from_verts", "src/r3d.c", params={"faces": ("arr", lambda b: zi(b["numfaces"])), "vertices": ("arr", lambda b: zi(b["numverts"])), "numverts": "scalar",
       "faceinds": ("rows", lambda b: zi(b["numfaces"])), "numvertsperface": ("arr", lambda b: zi(b["numfaces"])), "numfaces": "scalar"},
       pre=p3pre, post=lambda c: [(nm, Implies(rng(0, FF, P3(c).nf), f)) for nm, f in p3(c)],
       loops=[Loop("faces", p3inv, cuts=p3cuts, children=[Loop("corners", p3in, head_lemma=p3head, exit_cuts=lambda c: [("face has corners", sel(c.old().m("numvertsperface"), c.lvof("faces")) > 0), ("all corners visited", c.lv == sel(c.old().m("numvertsperface"), c.lvof("faces"))),
             ("centroid sum", Implies(c.lvof("faces") == FF, dot(m3, [zr(c.m("centroid.%d" % k)) for k in range(3)]) == z3.ToReal(P3(c).cnt) * kk))])])]))
prop("C13", fns=FACES, rt=[("p_basic.c", "faces")],
     assumptions=["unit length holds up to the 1e-299 guard added to the length in the norm macro", "polyhedron faces are planar and convex with at least three corners"])

# ------------------------------------------------------------------ C11
def num(t):
    n = numeral(z3.simplify(t)) if z3.is_expr(t) else numeral(t)
    return n
class G:
    """vertex graph built by a constructor: concrete neighbour indices"""
    def __init__(s, c, D, nmax=32):
        s.n = num(c.m("poly.nverts")); s.D = D
        k = s.n if isinstance(s.n, int) and 0 <= s.n <= nmax else 0
        s.p = [[zr(sel(c.m("poly.verts.pos.%d" % a), I(u))) for a in range(D)] for u in range(k)]
        s.nb = [[num(sel(c.m("poly.verts.pnbrs.%d" % q), I(u))) for q in range(D)] for u in range(k)]
    def ok(s, n):
        return s.n == n and all(isinstance(t, int) and 0 <= t < n and t != u and u in s.nb[t] for u in range(n) for t in s.nb[u]) and all(len(set(r)) == s.D for r in s.nb)
def B(x): return z3.BoolVal(bool(x))
def orientation(g, val):
    """the edges of every vertex, in slot order, span the same signed volume"""
    return [("edges of vertex %d are in the positive cyclic order" % u, det([sub(g.p[t], g.p[u]) for t in g.nb[u]]) == val) for u in range(g.n)]
def corners(g, b, D):
    """every corner of the box exactly once; every edge changes exactly one coordinate"""
    out, tags = [], []
    for u in range(g.n):
        tag = []
        for a in range(D):
            t = g.p[u][a]
            tag.append(0 if t.eq(b[0][a]) else 1 if t.eq(b[1][a]) else None)
        tags.append(tuple(tag))
    out.append(("every corner of the box is a vertex exactly once", B(len(set(tags)) == 2 ** D == g.n and all(x is not None for t in tags for x in t))))
    out.append(("every edge changes exactly one coordinate", B(all(sum(x != y for x, y in zip(tags[u], tags[t])) == 1 for u in range(g.n) for t in g.nb[u]))))
    return out, tags
def ibox(D):
    def post(c):
        b = [vec(c.old(), "rbounds", D, i) for i in (0, 1)]; g = G(c, D)
        out = [("well-formed graph of %d vertices" % 2 ** D, B(g.ok(2 ** D)))]
        if not g.ok(2 ** D): return out
        o, tags = corners(g, b, D); out += o
        w = [b[1][a] - b[0][a] for a in range(D)]
        if D == 2: out += [("counter-clockwise at vertex %d" % u, det([sub(g.p[g.nb[u][0]], g.p[u]), sub(g.p[g.nb[u][1]], g.p[u])]) == w[0] * w[1]) for u in range(4)]
        if D == 3: out += orientation(g, -(w[0] * w[1] * w[2]))
        if D == 4 and all(x is not None for t in tags for x in t):
            fi = lambda u, i, j: num(sel(c.m("poly.verts.finds.%d.%d" % (i, j)), I(u)))
            ax = [[[a for a in range(4) if tags[u][a] != tags[t][a]][0] for t in g.nb[u]] for u in range(16)]
            ids = {}
            okf = True
            for u in range(16):
                for i in range(4):
                    for j in range(4):
                        if i != j: ids.setdefault(frozenset((ax[u][i], ax[u][j])), set()).add(fi(u, i, j))
            okf = len(ids) == 6 and all(len(v) == 1 for v in ids.values()) and len(set().union(*ids.values())) == 6
            nf = num(c.m("poly.nfaces"))
            out.append(("face numbers: one per pair of axes, all in range", B(okf and nf == 6 and all(isinstance(x, int) and 0 <= x < 6 for v in ids.values() for x in v))))
        return out
    return post
def itet(c):
    v = [vec(c.old(), "verts", 3, i) for i in range(4)]; g = G(c, 3)
    out = [("well-formed graph of 4 vertices", B(g.ok(4)))]
    if not g.ok(4): return out
    out.append(("every given point is a vertex exactly once", B(sorted(i for p in g.p for i in range(4) if all(x.eq(y) for x, y in zip(p, v[i]))) == [0, 1, 2, 3])))
    vol6 = det([sub(v[j], v[0]) for j in (1, 2, 3)])
    return out + orientation(g, -vol6)
def isimp(c):
    v = [vec(c.old(), "verts", 4, i) for i in range(5)]; g = G(c, 4)
    out = [("well-formed graph of 5 vertices", B(g.ok(5)))]
    if not g.ok(5): return out
    out.append(("every given point is a vertex exactly once", B(sorted(i for p in g.p for i in range(5) if all(x.eq(y) for x, y in zip(p, v[i]))) == [0, 1, 2, 3, 4])))
    ids = {}
    for u in range(5):
        for i in range(4):
            for j in range(4):
                if i != j: ids.setdefault(frozenset((u, g.nb[u][i], g.nb[u][j])), set()).add(num(sel(c.m("poly.verts.finds.%d.%d" % (i, j)), I(u))))
    out.append(("face numbers: one per vertex triple, all in range", B(len(ids) == 10 and all(len(x) == 1 for x in ids.values()) and set().union(*ids.values()) == set(range(10)) and num(c.m("poly.nfaces")) == 10)))
    return out
def ip2(c):
    c0 = c.old(); n = c.i("numverts")
    P = [sel(c.m("poly.verts.pos.%d" % k), U) for k in range(2)]
    return [("vertex sits at the given point", And(*[P[k] == sel(c0.m("vertices.%d" % k), U) for k in range(2)])),
            ("next vertex", sel(c.m("poly.verts.pnbrs.0"), U) == If(U + 1 == n, 0, U + 1)),
            ("previous vertex", sel(c.m("poly.verts.pnbrs.1"), U) == If(U == 0, n - 1, U - 1))]
def ip2inv(c):
    n = c.i("numverts")
    return [("counter in range", c.counter_range(0, n)), ("vertex count", zi(c.m("poly.nverts")) == n)] + [(nm, Implies(And(rng(0, U, n), c.done(U)), f)) for nm, f in ip2(c)]
INIT = [
    Fn("r2d_init_box", "src/r2d.c", params={"poly": "obj", "rbounds": ("fix", 2)}, post=ibox(2)),
    Fn("r3d_init_box", "src/r3d.c", params={"poly": "obj", "rbounds": ("fix", 2)}, post=ibox(3)),
    Fn("rNd_init_box", "src/rNd.c", params={"poly": "obj", "rbounds": ("fix", 2)}, post=ibox(4), unroll=True),
    Fn("r3d_init_tet", "src/r3d.c", params={"poly": "obj", "verts": ("fix", 4)}, post=itet),
    Fn("rNd_init_simplex", "src/rNd.c", params={"poly": "obj", "verts": ("fix", 5)}, post=isimp, unroll=True),
    Fn("r2d_init_poly", "src/r2d.c", params={"poly": "obj", "vertices": ("arr", lambda b: zi(b["numverts"])), "numverts": "scalar"},
       pre=lambda c: [("at most as many vertices as the buffer holds", rng(0, c.i("numverts"), MAXV[2] + 1))],
       post=lambda c: [("vertex count", zi(c.m("poly.nverts")) == c.i("numverts"))] + [(nm, Implies(rng(0, U, c.i("numverts")), f)) for nm, f in ip2(c)], loops=[Loop("verts", ip2inv)]),
]
prop("C11", fns=INIT, rt=[("p_basic.c", "init")], assumptions=["RND_DIM = 4, the configured dimension"])
FNS = ORIENT + FACES + INIT
