"""C04: r2d_split and r2d_split_coord."""
from .polyops import *
from .clip2d import CHAIN
D = 2
MX = MAXV[2]
SD = lambda P: SDF[2](0, *P)            # signed distance to the splitting plane
HF = lambda P: HFF[2](*P)

class Kit:
    """names that differ between r2d_split (loop over polygons) and r2d_split_coord (one polygon)"""
    def __init__(s, inp, outs, sd_def, room, multi, sg=lambda x: x): s.sg = sg; s.inp, s.outs, s.sd_def, s.room, s.multi = inp, outs, sd_def, room, multi
    def base(s, c): return c.at("p.head") if s.multi else c.old()
    def H(s, c): return View(s.base(c), D, s.inp)
    def E(s, c): return View(c.at("insert.entry"), D, s.inp)
    def V(s, c): return View(c, D, s.inp)
    def out(s, c, b): return View(c, D, s.outs[b])
A1 = z3.ArraySort(Int, Int)
def gh(n): return fresh(A1, "gh_" + n)
def P_(v, u): return [a[u] for a in v.pos]
def ndone(c, n): return c.lv if (c.loop is None or c.loop[1] == "up") else n - 1 - c.lv

# ---- dist
def dist_inv(k):
    def inv(c):
        H = k.H(c); n = H.n; s, sd = c.m("sdists"), c.m("side"); r = c.i("nright"); d = ndone(c, n)
        return [("counter", c.counter_range(0, n)), ("count of vertices beyond the plane", And(0 <= r, r <= d)),
                ("signed distance and side of every processed vertex", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), And(k.sg(s[u_]) == SD(P_(H, u_)), sd[u_] == If(k.sg(s[u_]) < 0, I(1), I(0)))), s[u_], sd[u_], H.pos[0][u_])),
                ("no vertex counted: none is beyond", Implies(r == 0, fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), sd[u_] == 0), sd[u_]))),
                ("all vertices counted: all are beyond", Implies(r == d, fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), sd[u_] == 1), sd[u_]))),
                ("other sides are zero", fa(u_, Implies(And(rng(0, u_, MX), Not(And(rng(0, u_, n), c.done(u_)))), sd[u_] == 0), sd[u_]))]
    return inv
def dist_lemma(k):
    def lem(c):
        w = c.at("dist.head").lv
        return [k.sd_def(c, k.H(c).p(w))]
    return lem

# ---- insert
def ins_inv(k):
    def inv(c):
        E, v = k.E(c), k.V(c); onv, N = E.n, v.n; s, sd = c.m("sdists"), c.m("side")
        out = [("counter", c.counter_range(0, onv)), ("count", And(onv <= N, N <= MX))]
        for q in range(2):
            x = E.nb[q][u_]; m = v.nb[q][u_]
            new = And(rng(onv, m, N), v.nb[1 - q][m] == u_, v.nb[q][m] == -1, sd[m] == sd[u_])
            for b, kept in ((0, u_), (1, x)):
                o = x if b == 0 else u_
                out.append(("links %d of old vertices, side %d" % (q, b), fa(u_, Implies(And(rng(0, u_, onv), sd[u_] == b), If(And(c.done(kept), sd[x] == 1 - b),
                    And(new, *[v.pos[a][m] == LKF(E.pos[a][kept], E.pos[a][o], k.sg(s[kept]), k.sg(s[o])) for a in range(D)]), m == x)), v.nb[q][u_], E.nb[q][u_])))
        def kind(q):
            a = v.nb[1 - q][m_]; x = E.nb[q][a]
            return And(v.nb[q][m_] == -1, rng(0, a, onv), sd[a] == sd[m_], sd[x] == 1 - sd[a], Or(And(sd[a] == 0, c.done(a)), And(sd[a] == 1, c.done(x))), v.nb[q][a] == m_)
        out.append(("links of cut vertices", fa(m_, Implies(rng(onv, m_, N), Or(kind(0), kind(1))), v.nb[0][m_], v.nb[1][m_])))
        P = P_(v, m_)
        out.append(("cut vertices lie on the plane and inside the input", fa(m_, Implies(rng(onv, m_, N), And(SD(P) == 0, HF(P) >= 0)), v.pos[0][m_], v.pos[1][m_])))
        out.append(("old positions", fa(u_, Implies(rng(0, u_, onv), And(*[v.pos[a][u_] == E.pos[a][u_] for a in range(D)])), *[v.pos[a][u_] for a in range(D)])))
        out.append(("sides of old vertices", fa(u_, Implies(rng(0, u_, onv), sd[u_] == c.at("insert.entry").m("side")[u_]), sd[u_])))
        out.append(("sides are 0 or 1", fa(u_, Implies(rng(0, u_, N), Or(sd[u_] == 0, sd[u_] == 1)), sd[u_])))
        out.append(("unused sides are zero", fa(u_, Implies(And(N <= u_, u_ < MX), sd[u_] == 0), sd[u_])))
        return out
    return inv
def edges(k, c):
    E = k.E(c); w = c.at("insert.head").lv; s, sd = c.m("sdists"), c.m("side")
    for q in range(D):
        x = sel(E.nb[q], w); yield q, w, x, E.p(w), E.p(x), k.sg(sel(s, w)), k.sg(sel(s, x)), sel(sd, w), sel(sd, x)
def ins_lemma(k):
    def lem(c):
        out = []
        for q, w, x, A, B, sa, sb, ca, cb in edges(k, c): out += cut_facts([HF], A, B, sa, sb, SD)
        return out
    return lem
def ins_cuts(k):
    def cuts(c):
        v = k.V(c); out = []; hp = View(c.at("insert.head"), D, k.inp)
        for q, w, x, A, B, sa, sb, ca, cb in edges(k, c):
            out.append(("sides of the endpoints", And(Implies(ca == 0, And(sa >= 0, SD(A) == sa)), Implies(cb == 1, And(sb < 0, SD(B) == sb)))))
            out.append(("positions of the endpoints", And(w < hp.n, x < hp.n, 0 <= x, *([hp.pos[a][w] == A[a] for a in range(D)] + [hp.pos[a][x] == B[a] for a in range(D)]))))
            for b, new in ((0, sel(v.nb[q], w)), (1, sel(v.nb[1 - q], x))):
                for a in range(D):
                    out.append(("coordinate %d of the cut point of edge %d, side %d" % (a, q, b), Implies(And(ca == 0, cb == 1), sel(v.pos[a], new) == cutdef(A[a], B[a], sa, sb))))
        return out
    return cuts
def ins_room(k):
    def room(c):
        if not k.room: return []
        E, v = k.E(c), k.V(c); w = c.lv; sd = c.m("side")
        t = sum([If(And(sd[w] == 0, sd[E.nb[q][w]] != 0), 2, 0) for q in range(D)])
        return [v.n + t <= MX]
    return room

# ---- relink / walk
def relink_ghosts(c): return {g: gh(g) for g in ("O", "R", "F", "G")}
def relink_lemma(k):
    def lem(c):
        v = k.V(c); N = v.n; onv = k.E(c).n; nb = v.nb
        S = lambda u: rng(0, u, onv)
        O, R, F, G = [c.g(x) for x in "ORFG"]
        start = lambda m: And(rng(onv, m, N), nb[1][m] == -1)
        end = lambda m: And(rng(onv, m, N), nb[0][m] == -1)
        reqs = [("successor of an old vertex is old or new, and mutual", fa(u_, Implies(S(u_), Or(And(S(nb[0][u_]), nb[1][nb[0][u_]] == u_), And(end(nb[0][u_]), nb[1][nb[0][u_]] == u_))))),
                ("predecessor of an old vertex is old or new, and mutual", fa(u_, Implies(S(u_), Or(And(S(nb[1][u_]), nb[0][nb[1][u_]] == u_), And(start(nb[1][u_]), nb[0][nb[1][u_]] == u_))))),
                ("cut vertices hang on exactly one old vertex", fa(m_, Implies(rng(onv, m_, N), Or(And(start(m_), S(nb[0][m_]), nb[1][nb[0][m_]] == m_), And(end(m_), S(nb[1][m_]), nb[0][nb[1][m_]] == m_)))))]
        facts = [fa(u_, Implies(And(S(u_), nb[1][u_] >= onv), O[u_] == nb[1][u_]), O[u_], nb[1][u_]),
                 fa(u_, Implies(And(S(u_), nb[0][u_] < onv), And(O[nb[0][u_]] == O[u_], Implies(O[u_] >= onv, And(0 <= R[nb[0][u_]], R[nb[0][u_]] < R[u_])))), O[u_]),
                 fa(u_, Implies(And(S(u_), nb[0][u_] >= onv), O[u_] == G[nb[0][u_]]), O[u_], nb[0][u_]),
                 fa(m_, Implies(start(m_), And(end(F[m_]), G[F[m_]] == m_)), F[m_]),
                 fa(m_, Implies(end(m_), And(start(G[m_]), F[G[m_]] == m_)), G[m_])]
        return reqs, facts
    return lem
def relink_inv(k):
    def inv(c):
        E, v = View(c.at("relink.entry"), D, k.inp), k.V(c); N = E.n; onv = k.E(c).n; F, G = c.g("F"), c.g("G"); sd = c.m("side")
        return [("counter", c.counter_range(onv, N)), ("count", v.n == N),
           ("old vertices keep their links", fa(u_, Implies(rng(0, u_, onv), And(v.nb[0][u_] == E.nb[0][u_], v.nb[1][u_] == E.nb[1][u_])), v.nb[0][u_], v.nb[1][u_])),
           ("start vertices", fa(m_, Implies(And(rng(onv, m_, N), E.nb[1][m_] == -1), And(v.nb[0][m_] == E.nb[0][m_], v.nb[1][m_] == If(c.done(m_), F[m_], I(-1)))), v.nb[1][m_], E.nb[1][m_])),
           ("end vertices", fa(m_, Implies(And(rng(onv, m_, N), E.nb[0][m_] == -1), And(v.nb[1][m_] == E.nb[1][m_], v.nb[0][m_] == If(c.done(G[m_]), G[m_], I(-1)))), v.nb[0][m_], E.nb[0][m_])),
           ("partners are on the same side", fa(m_, Implies(And(rng(onv, m_, N), E.nb[1][m_] == -1, c.done(m_)), sd[F[m_]] == sd[m_]), F[m_]))]
    return inv
def walk_inv(k):
    def inv(c):
        onv = k.E(c).n; x = c.i("vcur"); m = c.lvof("relink"); O = c.g("O"); sd = c.m("side")
        return [("the walk is on the chain of its start vertex", And(rng(0, x, onv), O[x] == m, m >= onv, sd[x] == sd[m]))]
    return inv
def walk_exit(c): return [("the walk ends at the partner of its start vertex, on the same side", And(c.i("vcur") == c.g("F")[c.lvof("relink")], c.m("side")[c.i("vcur")] == c.m("side")[c.lvof("relink")]))]

# ---- compress / reindex
def same(a, b, i, j): return And(*[x[i] == y[j] for x, y in zip(a.nb + a.pos, b.nb + b.pos)])
def comp_inv(k):
    def inv(c):
        e = c.at("compress.entry"); E = View(e, D, k.inp); N = View(c.at("relink.entry"), D, k.inp).n; C0, cl = e.m("side"), c.m("side")
        nn = [k.out(c, b).n for b in range(2)]
        out = [("counter", And(c.counter_range(0, N), nn[0] >= 0, nn[1] >= 0, nn[0] + nn[1] == ndone(c, N))),
               ("other marks unchanged", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), cl[u_] == C0[u_]), cl[u_], C0[u_]))]
        w = k.V(c)
        out.append(("unprocessed vertices", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), same(w, E, u_, u_)), w.nb[0][u_], w.nb[1][u_], w.pos[0][u_], w.pos[1][u_])))
        for q in range(2):
            x = E.nb[q][u_]; out.append(("links %d are mutual and stay on one side" % q, fa(u_, Implies(rng(0, u_, N), And(rng(0, x, N), C0[x] == C0[u_], E.nb[1 - q][x] == u_)), x)))
        for b in range(2):
            v = k.out(c, b); src = c.g("src%d" % b)
            out += [("new index of processed vertices, side %d" % b, fa(u_, Implies(And(rng(0, u_, N), c.done(u_), C0[u_] == b), And(rng(0, cl[u_], nn[b]), src[cl[u_]] == u_)), cl[u_], C0[u_])),
                    ("moved vertices, side %d" % b, fa(j_, Implies(rng(0, j_, nn[b]), And(rng(0, src[j_], N), c.done(src[j_]), C0[src[j_]] == b, cl[src[j_]] == j_, same(v, E, j_, src[j_]))), src[j_], v.nb[0][j_], v.nb[1][j_], v.pos[0][j_], v.pos[1][j_]))]
        return out
    return inv
def comp_ghost(k):
    def g(c):
        h = c.at("compress.head"); out = {}
        for b in range(2):
            k0, k1 = k.out(h, b).n, k.out(c, b).n; src = c.g("src%d" % b); out["src%d" % b] = If(k1 > k0, z3.Store(src, k0, h.lv), src)
        return out
    g.keys = ("src0", "src1"); return g
def reidx_inv(k, b, lab):
    def inv(c):
        E, v = View(c.at(lab + ".entry"), D, k.outs[b]), k.out(c, b); cl = c.m("side"); n = E.n
        return [("counter", c.counter_range(0, n)), ("count", v.n == n)] + [
            ("links %d" % q, fa(j_, Implies(rng(0, j_, n), v.nb[q][j_] == If(c.done(j_), cl[E.nb[q][j_]], E.nb[q][j_])), v.nb[q][j_])) for q in range(D)]
    return inv

# ---- exact contract of one split
def parts(k, c):
    H = k.H(c); out = []; s = lambda u: SD(P_(H, u)); U = u_; J = j_
    whole = "compress.exit" not in c.st.labels
    for b in range(2):
        v = k.out(c, b); nm = ("non-negative side", "negative side")[b]; S = (lambda u: s(u) >= 0) if b == 0 else (lambda u: s(u) < 0)
        if not whole: out += [(nm + ": " + n_, f) for n_, f in valid2(v.n, v.nb)]
        out.append((nm + ": vertex count within the buffer", And(0 <= v.n, v.n <= MX)))
        out.append((nm + ": every vertex is on its side of the plane", fa(J, Implies(rng(0, J, v.n), SD(P_(v, J)) >= 0 if b == 0 else SD(P_(v, J)) <= 0))))
        out.append((nm + ": every vertex is inside the hull of the input", fa(J, Implies(rng(0, J, v.n), HF(P_(v, J)) >= 0))))
        if whole:
            out.append((nm + ": is the whole polygon when all its vertices are on this side, otherwise empty",
                        Or(And(v.n == H.n, fa(U, Implies(rng(0, U, H.n), And(same(v, H, U, U), S(U))))), And(v.n == 0, fa(U, Implies(rng(0, U, H.n), Not(S(U))))))))
            continue
        r = c.m("side"); src = c.g("src%d" % b); E2 = View(c.at("compress.entry"), D, k.inp)
        out.append((nm + ": every vertex on this side survives at its position", fa(U, Implies(And(rng(0, U, H.n), S(U)), And(rng(0, r[U], v.n), *[v.pos[a][r[U]] == H.pos[a][U] for a in range(D)])))))
        for q in range(2):
            x = H.nb[q][U]; t = v.nb[q][r[U]]; kp, cl = (U, x) if b == 0 else (x, U)
            out.append((nm + ": an uncut edge keeps its direction %d link" % q, fa(U, Implies(And(rng(0, U, H.n), S(U), S(x)), v.nb[q][r[U]] == r[x]))))
            out.append((nm + ": a cut edge ends at its cut point (direction %d)" % q, fa(U, Implies(And(rng(0, U, H.n), S(U), Not(S(x))),
                       And(rng(0, t, v.n), v.nb[1 - q][t] == r[U], *[v.pos[a][t] == LKF(H.pos[a][kp], H.pos[a][cl], s(kp), s(cl)) for a in range(D)])))))
        a0 = src[J]; I_ = View(c.at("insert.exit"), D, k.inp)
        own = lambda q: And(rng(0, I_.nb[1 - q][a0], H.n), S(I_.nb[1 - q][a0]), Not(S(H.nb[q][I_.nb[1 - q][a0]])), v.nb[q][r[I_.nb[1 - q][a0]]] == J)
        out.append((nm + ": every vertex is a vertex of the input on this side or the cut point of a bisected edge", fa(J, Implies(rng(0, J, v.n),
                   Or(And(rng(0, a0, H.n), S(a0), r[a0] == J), own(0), own(1))))))
    return out

def loops(k):
    return [Loop("dist", dist_inv(k), lemma=dist_lemma(k)),
        Loop("insert", ins_inv(k), lemma=ins_lemma(k), cuts=ins_cuts(k), head_lemma=ins_room(k)),
        Loop("relink", relink_inv(k), ghost_init=relink_ghosts, pre_lemma=relink_lemma(k), children=[Loop("walk", walk_inv(k), exit_cuts=walk_exit, decreases=lambda c: c.g("R")[c.i("vcur")])]),
        Loop("compress", comp_inv(k), ghost=comp_ghost(k), ghost_init=lambda c: {"src0": gh("src0"), "src1": gh("src1")}),
        Loop("reindex0", reidx_inv(k, 0, "reindex0")), Loop("reindex1", reidx_inv(k, 1, "reindex1"))]

def elem_pre(v):
    return [("vertex count within the buffer", v.n <= MX)] + [(n_, Implies(v.n > 0, f)) for n_, f in valid2(v.n, v.nb)] + [
        ("every vertex is on the non-negative side of an arbitrary functional", fa(u_, Implies(rng(0, u_, v.n), HF(P_(v, u_)) >= 0), v.pos[0][u_]))]

# ---- r2d_split
def sd_plane(c, P): return SD(P) == c.old().m("plane.d") + P[0] * c.old().m("plane.n.0") + P[1] * c.old().m("plane.n.1")
K1 = Kit("inpolys", ("out_pos", "out_neg"), sd_plane, True, True)
def p_inv(c): return [("every polygon is visited", c.counter_range(0, c.i("npolys")))]
def p_step(c):
    h = c.at("p.head"); H = K1.H(c); d = c.loop[1]
    out = [("the next polygon follows", c.lv == (h.lv + 1 if d == "up" else h.lv - 1))]
    if "dist.exit" not in c.st.labels:
        return out + [("an empty polygon gives two empty polygons", And(H.n <= 0, K1.out(c, 0).n == 0, K1.out(c, 1).n == 0))]
    return out + [("not empty", H.n > 0)] + parts(K1, c)
def p_post(c):
    n = c.i("npolys"); e, x = c.at("p.entry"), c.at("p.exit"); d = c.ex.linfo["p"][1]
    lo, hi = (e.lvof("p"), x.lvof("p")) if d == "up" else (x.lvof("p") + (1 if d == "down" else 0), e.lvof("p") + (1 if d == "down" else 0))
    return [("every polygon has been split", And(lo <= 0, hi >= n))]
F1 = Fn("r2d_split", "src/r2d.c", params={"inpolys": ("each", lambda b: b["npolys"], "p"), "npolys": "scalar", "plane": "scalar", "out_pos": ("each", lambda b: b["npolys"], "p"), "out_neg": ("each", lambda b: b["npolys"], "p")},
        pre=lambda c: [("polygon count", c.i("npolys") >= 0)], post=p_post, loops=[Loop("p", p_inv, each=lambda c: elem_pre(View(c, D, "inpolys")), step=p_step, children=loops(K1))])

# ---- r2d_split_coord: outpolys[0] may be the input polygon (as in r2d_rasterize) or not
def sd_coord(c, P): o = c.old(); return SD(P) == o.r("coord") - If(o.i("ax") == 0, P[0], P[1])
def coord(inplace):
    k = Kit("inpoly", ("inpoly" if inplace else "low", "high"), sd_coord, True, False, sg=lambda x: -x)
    def pre(c): return [("axis", rng(0, c.i("ax"), D))] + elem_pre(View(c, D, "inpoly"))
    def post(c):
        if "dist.exit" not in c.st.labels:
            out = [("an empty polygon is left alone", k.H(c).n <= 0)]
            for b in range(2):
                v, o = k.out(c, b), k.out(c.old(), b); out.append(("output %d is left alone" % b, And(v.n == o.n, *[x == y for x, y in zip(v.nb + v.pos, o.nb + o.pos)])))
            return out
        return [("not empty", k.H(c).n > 0)] + parts(k, c)
    f = Fn("r2d_split_coord", "src/v2d.c", params={"inpoly": "obj", "outpolys": ("ptrs", [k.outs[0], k.outs[1]]), "coord": "scalar", "ax": "scalar"}, pre=pre, post=post, loops=loops(k))
    f.label = "r2d_split_coord (%s)" % ("in place" if inplace else "separate outputs")
    return f
FNS = [F1, coord(True), coord(False)]
prop("C04", fns=FNS, lemmas=lemma_cut(2), rt=[("p_split.c", "split2"), ("p_split.c", "coord2")], lean=[("Chain.lean", ["Chain.chain"])], trusted=[CHAIN],
     assumptions=["the vertex buffers have room for two new vertices per bisected edge (r2d_split and r2d_split_coord have no capacity check)",
                  "input and output arrays of r2d_split do not overlap; r2d_split_coord is verified both for outpolys[0] == inpoly and for separate outputs"])
