"""C05: r3d_split and r3d_split_coord (same structure as split2d.py)."""
from .polyops import *
from .clip2d import CHAIN
D = 3
MX = MAXV[3]
SD = lambda P: SDF[3](0, *P)            # signed distance to the splitting plane
HF = lambda P: HFF[3](*P)

distinct = lambda nb, u: And(nb[0][u] != nb[1][u], nb[0][u] != nb[2][u], nb[1][u] != nb[2][u])
class Kit:
    """names that differ between r3d_split (loop over polyhedrons) and r3d_split_coord (one polyhedron)"""
    def __init__(s, inp, outs, sd_def, room, multi, sg=lambda x: x): s.sg = sg; s.inp, s.outs, s.sd_def, s.room, s.multi = inp, outs, sd_def, room, multi
    def base(s, c): return c.at("p.head") if s.multi else c.old()
    def H(s, c): return View(s.base(c), D, s.inp)
    def E(s, c): return View(c.at("insert.entry"), D, s.inp)
    def V(s, c): return View(c, D, s.inp)
    def out(s, c, b): return View(c, D, s.outs[b])
A1 = z3.ArraySort(Int, Int)
def gh(n): return fresh(A1, "gh_" + n)
def P_(v, u): return [a[u] for a in v.pos]
def ndone(c, n): return c.lv if (c.loop is None or c.loop[1] == "up") else n - 1 - c.lv

# ---- dist
def dist_inv(k):
    def inv(c):
        H = k.H(c); n = H.n; s, sd = c.m("sdists"), c.m("side"); r = c.i("nright"); d = ndone(c, n)
        return [("counter", c.counter_range(0, n)), ("count of vertices beyond the plane", And(0 <= r, r <= d)),
                ("signed distance and side of every processed vertex", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), And(k.sg(s[u_]) == SD(P_(H, u_)), sd[u_] == If(k.sg(s[u_]) < 0, I(1), I(0)))), s[u_], sd[u_], H.pos[0][u_])),
                ("no vertex counted: none is beyond", Implies(r == 0, fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), sd[u_] == 0), sd[u_]))),
                ("all vertices counted: all are beyond", Implies(r == d, fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), sd[u_] == 1), sd[u_]))),
                ("other sides are zero", fa(u_, Implies(And(rng(0, u_, MX), Not(And(rng(0, u_, n), c.done(u_)))), sd[u_] == 0), sd[u_]))]
    return inv
def dist_lemma(k):
    def lem(c):
        w = c.at("dist.head").lv
        return [k.sd_def(c, k.H(c).p(w))]
    return lem

# ---- insert
def ins_inv(k):
    def inv(c): return ins_state(k, c, lambda u, q: c.done(u), lambda u, x: c.done(x))
    return inv
def ins_mid(k):
    """between two slots of the vertex w being processed"""
    def mid(c, dn):
        w = c.lv; E = k.E(c); sd = c.m("side")
        return ins_state(k, c, lambda u, q: Or(c.done(u), And(u == w, dn(q))), lambda u, x: Or(c.done(x), And(x == w, Or(*[And(E.nb[b][w] == u, dn(b)) for b in range(D)])))) + [("the vertex is kept", And(sd[w] == 0, rng(0, w, E.n)))]
    return mid
def ins_state(k, c, done0, done1):
        E, v = k.E(c), k.V(c); onv, N = E.n, v.n; s, sd = c.m("sdists"), c.m("side")
        out = [("counter", c.counter_range(0, onv)), ("count", And(onv <= N, N <= MX))]
        for q in range(D):
            x = E.nb[q][u_]; m = v.nb[q][u_]
            new = And(rng(onv, m, N), v.nb[0][m] == u_, sd[m] == sd[u_])
            for b, kept in ((0, u_), (1, x)):
                o = x if b == 0 else u_
                out.append(("slot %d links of old vertices, side %d" % (q, b), fa(u_, Implies(And(rng(0, u_, onv), sd[u_] == b), If(And(done0(u_, q) if b == 0 else done1(u_, x), sd[x] == 1 - b),
                    And(new, *[v.pos[a][m] == LKF(E.pos[a][kept], E.pos[a][o], k.sg(s[kept]), k.sg(s[o])) for a in range(D)]), m == x)), v.nb[q][u_], E.nb[q][u_])))
        out.append(("neighbours of old vertices stay distinct", fa(u_, Implies(rng(0, u_, onv), distinct(v.nb, u_)), v.nb[0][u_], v.nb[1][u_], v.nb[2][u_])))
        a = v.nb[0][m_]
        def own(q):
            x = E.nb[q][a]; return And(v.nb[q][a] == m_, sd[x] == 1 - sd[a], Or(And(sd[a] == 0, done0(a, q)), And(sd[a] == 1, done1(a, x))))
        out.append(("owner of a cut vertex", fa(m_, Implies(rng(onv, m_, N), And(rng(0, a, onv), sd[a] == sd[m_], Or(*[own(q) for q in range(D)]))), v.nb[0][m_])))
        P = P_(v, m_)
        out.append(("cut vertices lie on the plane and inside the input", fa(m_, Implies(rng(onv, m_, N), And(SD(P) == 0, HF(P) >= 0)), *[v.pos[a][m_] for a in range(D)])))
        out.append(("old positions", fa(u_, Implies(rng(0, u_, onv), And(*[v.pos[a][u_] == E.pos[a][u_] for a in range(D)])), *[v.pos[a][u_] for a in range(D)])))
        out.append(("sides of old vertices", fa(u_, Implies(rng(0, u_, onv), sd[u_] == c.at("insert.entry").m("side")[u_]), sd[u_])))
        out.append(("sides are 0 or 1", fa(u_, Implies(rng(0, u_, N), Or(sd[u_] == 0, sd[u_] == 1)), sd[u_])))
        out.append(("unused sides are zero", fa(u_, Implies(And(N <= u_, u_ < MX), sd[u_] == 0), sd[u_])))
        return out
def edges(k, c):
    E = k.E(c); w = c.at("insert.head").lv; s, sd = c.m("sdists"), c.m("side")
    for q in range(D):
        x = sel(E.nb[q], w); yield q, w, x, E.p(w), E.p(x), k.sg(sel(s, w)), k.sg(sel(s, x)), sel(sd, w), sel(sd, x)
def ins_lemma(k):
    def lem(c):
        out = []
        for q, w, x, A, B, sa, sb, ca, cb in edges(k, c): out += cut_facts([HF], A, B, sa, sb, SD)
        return out
    return lem
def ins_cuts(k):
    def cuts(c, slot):
        v = k.V(c); out = []; hp = View(c.at("insert.head"), D, k.inp); E = k.E(c)
        for q, w, x, A, B, sa, sb, ca, cb in edges(k, c):
            if q != slot: continue
            N1 = View(c.at("insert.mid"), D, k.inp).n; cm = not z3.simplify(v.n).eq(z3.simplify(N1))
            out.append(("sides of the endpoints", And(Implies(ca == 0, And(sa >= 0, SD(A) == sa)), Implies(cb == 1, And(sb < 0, SD(B) == sb)), HF(A) >= 0, HF(B) >= 0)))
            out.append(("range of the endpoints", And(rng(0, w, E.n), rng(0, x, E.n), Or(*[E.nb[b][x] == w for b in range(D)]))))
            M = View(c.at("insert.mid"), D, k.inp); xm = sel(M.nb[q], w); s = c.m("sdists"); Am, Bm, am, bm = M.p(w), M.p(xm), k.sg(sel(s, w)), k.sg(sel(s, xm))
            out.append(("endpoints are unchanged", And(xm == x, *([Am[a] == A[a] for a in range(D)] + [Bm[a] == B[a] for a in range(D)]))))
            if cm: out.append(("the endpoints are on different sides", And(am >= 0, bm < 0)))
            for a in range(D):
                if cm: out.append(("coordinate %d of the cut point of edge %d" % (a, q), sel(v.pos[a], N1) == cutdef(Am[a], Bm[a], am, bm)))
                out.append(("coordinate %d of the cut point of edge %d, side 0" % (a, q), Implies(And(ca == 0, cb == 1), sel(v.pos[a], sel(v.nb[q], w)) == LKF(A[a], B[a], sa, sb))))
                for b in range(D): out.append(("coordinate %d of the cut point of edge %d, side 1, slot %d" % (a, q, b), Implies(And(ca == 0, cb == 1, sel(E.nb[b], x) == w), sel(v.pos[a], sel(v.nb[b], x)) == LKF(A[a], B[a], sa, sb))))
        return out
    return cuts
def ins_room(k):
    def room(c, dn=lambda q: z3.BoolVal(False)):
        if not k.room: return []
        E, v = k.E(c), k.V(c); w = c.lv; sd = c.m("side")
        t = sum([If(And(Not(dn(q)), sd[w] == 0, sd[E.nb[q][w]] != 0), 2, 0) for q in range(D)])
        return [v.n + t <= MX]
    return room

# ---- relink / walk
def relink_ghosts(c): return {g: gh(g) for g in ("O0", "O1", "O2", "R0", "R1", "R2", "F", "G")}
def relink_lemma(k):
    def lem(c):
        v = k.V(c); N = v.n; onv = k.E(c).n; nb = v.nb
        S = lambda u: rng(0, u, onv); W = lambda m: rng(onv, m, N)
        O = [c.g("O%d" % q) for q in range(3)]; R = [c.g("R%d" % q) for q in range(3)]; F, G = c.g("F"), c.g("G")
        reqs = [("slot %d of an old vertex leads to an old vertex that links back or to its own cut vertex" % q,
                 fa(u_, Implies(S(u_), Or(And(S(nb[q][u_]), back(nb, nb[q][u_], u_)), And(W(nb[q][u_]), nb[0][nb[q][u_]] == u_))))) for q in range(3)]
        reqs += [("neighbours of an old vertex are distinct", fa(u_, Implies(S(u_), distinct(nb, u_)))),
                 ("a cut vertex hangs on exactly one old vertex", fa(m_, Implies(W(m_), And(S(nb[0][m_]), back(nb, nb[0][m_], m_)))))]
        facts = [fa(u_, Implies(S(u_), Or(And(S(nb[q][u_]), back(nb, nb[q][u_], u_)), And(W(nb[q][u_]), nb[0][nb[q][u_]] == u_))), nb[q][u_]) for q in range(3)]
        facts += [fa(u_, Implies(S(u_), distinct(nb, u_)), nb[0][u_], nb[1][u_], nb[2][u_])]
        for q in range(3):
            pq = (q + 2) % 3; t = nb[q][u_]
            facts.append(fa(u_, Implies(And(S(u_), nb[pq][u_] >= onv), O[q][u_] == nb[pq][u_]), nb[pq][u_]))
            for b in range(3):
                nq = (b + 1) % 3
                facts.append(fa(u_, Implies(And(S(u_), t < onv, nb[b][t] == u_), And(O[nq][t] == O[q][u_], Implies(O[q][u_] >= onv, And(0 <= R[nq][t], R[nq][t] < R[q][u_])))), nb[b][t]))
            facts.append(fa(u_, Implies(And(S(u_), t >= onv), O[q][u_] == G[t]), t))
            facts.append(fa(u_, Implies(And(S(u_), O[q][u_] >= onv), R[q][u_] >= 0), R[q][u_]))
        facts.append(fa(m_, Implies(W(m_), And(W(F[m_]), G[F[m_]] == m_)), F[m_]))
        facts.append(fa(m_, Implies(W(m_), And(W(G[m_]), F[G[m_]] == m_)), G[m_]))
        return reqs, facts
    return lem
def relink_inv(k):
    def inv(c):
        E, v = View(c.at("relink.entry"), D, k.inp), k.V(c); N = E.n; onv = k.E(c).n; F, G = c.g("F"), c.g("G"); sd = c.m("side"); W = rng(onv, m_, N)
        out = [("counter", c.counter_range(onv, N)), ("count", v.n == N),
            ("old vertices keep their links", fa(u_, Implies(rng(0, u_, onv), And(*[v.nb[q][u_] == E.nb[q][u_] for q in range(3)])), *[v.nb[q][u_] for q in range(3)])),
            ("owners", fa(m_, Implies(W, v.nb[0][m_] == E.nb[0][m_]), v.nb[0][m_])),
            ("forward links of processed cut vertices", fa(m_, Implies(And(W, c.done(m_)), v.nb[2][m_] == F[m_]), v.nb[2][m_])),
            ("backward links of their partners", fa(m_, Implies(And(W, c.done(G[m_])), v.nb[1][m_] == G[m_]), v.nb[1][m_])),
            ("partners are on the same side", fa(m_, Implies(And(W, c.done(m_)), sd[F[m_]] == sd[m_]), F[m_]))]
        for q in range(3): out.append(("slot %d of an old vertex stays on its side" % q, fa(u_, Implies(rng(0, u_, onv), sd[E.nb[q][u_]] == sd[u_]), E.nb[q][u_])))
        return out
    return inv
def relink_exit(k):
    def cuts(c):
        v = k.V(c); N = v.n; onv = k.E(c).n; sd = c.m("side")
        out = [("cut vertices are linked cyclically", fa(m_, Implies(rng(onv, m_, N), And(rng(onv, v.nb[1][m_], N), rng(onv, v.nb[2][m_], N), v.nb[2][v.nb[1][m_]] == m_, v.nb[1][v.nb[2][m_]] == m_)), v.nb[1][m_], v.nb[2][m_]))]
        for q in range(3): out.append(("slot %d is mutual and stays on one side" % q, fa(u_, Implies(rng(0, u_, N), And(rng(0, v.nb[q][u_], N), sd[v.nb[q][u_]] == sd[u_], back(v.nb, v.nb[q][u_], u_))), v.nb[q][u_])))
        return out
    return cuts
def _back(k, c):
    v = k.V(c); x, vc = c.i("vnext"), c.i("vcur"); return v, x, vc, [v.nb[b][x] == vc for b in range(3)]
def walk_inv(k):
    def inv(c):
        onv = k.E(c).n; N = View(c.at("relink.entry"), D, k.inp).n; v, x, vc, B = _back(k, c); m = c.lvof("relink"); sd = c.m("side")
        O = [c.g("O%d" % q) for q in range(3)]
        return [("start vertex", rng(onv, m, N)), ("the walk stays on the side of its start vertex", sd[x] == sd[m]),
            ("the walk is on the chain of its start vertex or at its partner", Or(
                And(rng(0, x, onv), Or(*B), *[Implies(B[b], O[(b + 1) % 3][x] == m) for b in range(3)]),
                And(rng(onv, x, N), v.nb[0][x] == vc, c.g("F")[m] == x)))]
    return inv
def walk_var(k):
    def var(c):
        onv = k.E(c).n; v, x, vc, B = _back(k, c); R = [c.g("R%d" % q) for q in range(3)]
        return If(x < onv, 1 + If(B[0], R[1][x], If(B[1], R[2][x], R[0][x])), I(0))
    return var
def walk_exit(c): return [("the walk ends at the partner of its start vertex, on the same side", And(c.i("vcur") == c.g("F")[c.lvof("relink")], c.m("side")[c.i("vcur")] == c.m("side")[c.lvof("relink")]))]

# ---- compress / reindex
def same(a, b, i, j): return And(*[x[i] == y[j] for x, y in zip(a.nb + a.pos, b.nb + b.pos)])
def comp_inv(k):
    def inv(c):
        e = c.at("compress.entry"); E = View(e, D, k.inp); N = View(c.at("relink.entry"), D, k.inp).n; C0, cl = e.m("side"), c.m("side")
        nn = [k.out(c, b).n for b in range(2)]
        out = [("counter", And(c.counter_range(0, N), nn[0] >= 0, nn[1] >= 0, nn[0] + nn[1] == ndone(c, N))),
               ("other marks unchanged", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), cl[u_] == C0[u_]), cl[u_], C0[u_]))]
        w = k.V(c)
        out.append(("unprocessed vertices", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), same(w, E, u_, u_)), *[a[u_] for a in w.nb + w.pos])))
        for q in range(D):
            x = E.nb[q][u_]; out.append(("slot %d is mutual and stays on one side" % q, fa(u_, Implies(rng(0, u_, N), And(rng(0, x, N), C0[x] == C0[u_], back(E.nb, x, u_))), x)))
        onv = k.E(c).n
        out.append(("cut vertices are linked cyclically", fa(m_, Implies(rng(onv, m_, N), And(rng(onv, E.nb[1][m_], N), rng(onv, E.nb[2][m_], N), E.nb[2][E.nb[1][m_]] == m_, E.nb[1][E.nb[2][m_]] == m_)), E.nb[1][m_], E.nb[2][m_])))
        for b in range(2):
            v = k.out(c, b); src = c.g("src%d" % b)
            out += [("new index of processed vertices, side %d" % b, fa(u_, Implies(And(rng(0, u_, N), c.done(u_), C0[u_] == b), And(rng(0, cl[u_], nn[b]), src[cl[u_]] == u_)), cl[u_], C0[u_])),
                    ("moved vertices, side %d" % b, fa(j_, Implies(rng(0, j_, nn[b]), And(rng(0, src[j_], N), c.done(src[j_]), C0[src[j_]] == b, cl[src[j_]] == j_, same(v, E, j_, src[j_]))), src[j_], *[a[j_] for a in v.nb + v.pos]))]
        return out
    return inv
def comp_ghost(k):
    def g(c):
        h = c.at("compress.head"); out = {}
        for b in range(2):
            k0, k1 = k.out(h, b).n, k.out(c, b).n; src = c.g("src%d" % b); out["src%d" % b] = If(k1 > k0, z3.Store(src, k0, h.lv), src)
        return out
    g.keys = ("src0", "src1"); return g
def reidx_inv(k, b, lab):
    def inv(c):
        E, v = View(c.at(lab + ".entry"), D, k.outs[b]), k.out(c, b); cl = c.m("side"); n = E.n
        return [("counter", c.counter_range(0, n)), ("count", v.n == n)] + [
            ("links %d" % q, fa(j_, Implies(rng(0, j_, n), v.nb[q][j_] == If(c.done(j_), cl[E.nb[q][j_]], E.nb[q][j_])), v.nb[q][j_])) for q in range(D)]
    return inv

# ---- exact contract of one split
def parts(k, c):
    H = k.H(c); out = []; s = lambda u: SD(P_(H, u)); U = u_; J = j_
    whole = "compress.exit" not in c.st.labels
    for b in range(2):
        v = k.out(c, b); nm = ("non-negative side", "negative side")[b]; S = (lambda u: s(u) >= 0) if b == 0 else (lambda u: s(u) < 0)
        if not whole: out += [(nm + ": " + n_, f) for n_, f in valid3(v.n, v.nb)]
        out.append((nm + ": vertex count within the buffer", And(0 <= v.n, v.n <= MX)))
        out.append((nm + ": every vertex is on its side of the plane", fa(J, Implies(rng(0, J, v.n), SD(P_(v, J)) >= 0 if b == 0 else SD(P_(v, J)) <= 0))))
        out.append((nm + ": every vertex is inside the hull of the input", fa(J, Implies(rng(0, J, v.n), HF(P_(v, J)) >= 0))))
        if whole:
            out.append((nm + ": is the whole polyhedron when all its vertices are on this side, otherwise empty",
                        Or(And(v.n == H.n, fa(U, Implies(rng(0, U, H.n), And(same(v, H, U, U), S(U))))), And(v.n == 0, fa(U, Implies(rng(0, U, H.n), Not(S(U))))))))
            continue
        r = c.m("side"); src = c.g("src%d" % b); E2 = View(c.at("compress.entry"), D, k.inp)
        out.append((nm + ": every vertex on this side survives at its position", fa(U, Implies(And(rng(0, U, H.n), S(U)), And(rng(0, r[U], v.n), *[v.pos[a][r[U]] == H.pos[a][U] for a in range(D)])))))
        for q in range(D):
            x = H.nb[q][U]; t = v.nb[q][r[U]]; kp, cl = (U, x) if b == 0 else (x, U)
            out.append((nm + ": an uncut edge keeps its slot %d link" % q, fa(U, Implies(And(rng(0, U, H.n), S(U), S(x)), v.nb[q][r[U]] == r[x]))))
            out.append((nm + ": a cut edge ends at its cut point (slot %d)" % q, fa(U, Implies(And(rng(0, U, H.n), S(U), Not(S(x))),
                       And(rng(0, t, v.n), v.nb[0][t] == r[U], *[v.pos[a][t] == LKF(H.pos[a][kp], H.pos[a][cl], s(kp), s(cl)) for a in range(D)])))))
        a0 = src[J]; I_ = View(c.at("insert.exit"), D, k.inp); o = I_.nb[0][a0]
        out.append((nm + ": every vertex is a vertex of the input on this side or the cut point of a bisected edge", fa(J, Implies(rng(0, J, v.n),
                   Or(And(rng(0, a0, H.n), S(a0), r[a0] == J), And(rng(0, o, H.n), S(o), Or(*[And(Not(S(H.nb[q][o])), v.nb[q][r[o]] == J) for q in range(D)])))))))
        out.append((nm + ": cut points are linked cyclically", fa(J, Implies(And(rng(0, J, v.n), a0 >= H.n),
                   And(rng(0, v.nb[1][J], v.n), rng(0, v.nb[2][J], v.n), v.nb[2][v.nb[1][J]] == J, v.nb[1][v.nb[2][J]] == J)))))
    return out

def loops(k):
    return [Loop("dist", dist_inv(k), lemma=dist_lemma(k)),
        Loop("insert", ins_inv(k), lemma=ins_lemma(k), mid=ins_mid(k), mid_cuts=ins_cuts(k), mid_lemma=ins_room(k), head_lemma=ins_room(k)),
        Loop("relink", relink_inv(k), ghost_init=relink_ghosts, pre_lemma=relink_lemma(k), exit_cuts=relink_exit(k), children=[Loop("walk", walk_inv(k), exit_cuts=walk_exit, decreases=walk_var(k))]),
        Loop("compress", comp_inv(k), ghost=comp_ghost(k), ghost_init=lambda c: {"src0": gh("src0"), "src1": gh("src1")}),
        Loop("reindex0", reidx_inv(k, 0, "reindex0")), Loop("reindex1", reidx_inv(k, 1, "reindex1"))]

def elem_pre(v):
    return [("vertex count within the buffer", v.n <= MX)] + [(n_, Implies(v.n > 0, f)) for n_, f in valid3(v.n, v.nb) + simple3(v.n, v.nb)] + [
        ("every vertex is on the non-negative side of an arbitrary functional", fa(u_, Implies(rng(0, u_, v.n), HF(P_(v, u_)) >= 0), v.pos[0][u_]))]

# ---- r3d_split
def sd_plane(c, P): return SD(P) == c.old().m("plane.d") + P[0] * c.old().m("plane.n.0") + P[1] * c.old().m("plane.n.1") + P[2] * c.old().m("plane.n.2")
K1 = Kit("inpolys", ("out_pos", "out_neg"), sd_plane, False, True)
def p_inv(c): return [("every polyhedron is visited", c.counter_range(0, c.i("npolys")))]
def p_step(c):
    h = c.at("p.head"); H = K1.H(c); d = c.loop[1]
    out = [("the next polyhedron follows", c.lv == (h.lv + 1 if d == "up" else h.lv - 1))]
    if "dist.exit" not in c.st.labels:
        return out + [("an empty polyhedron gives two empty polyhedrons", And(H.n <= 0, K1.out(c, 0).n == 0, K1.out(c, 1).n == 0))]
    return out + [("not empty", H.n > 0)] + parts(K1, c)
def p_post(c):
    if "p.exit" not in c.st.labels:
        return [("status 0 only when the vertex buffer is full", And(zi(c.ret) == 0, K1.V(c).n == MX))]
    n = c.i("npolys"); e, x = c.at("p.entry"), c.at("p.exit"); d = c.ex.linfo["p"][1]
    lo, hi = (e.lvof("p"), x.lvof("p")) if d == "up" else (x.lvof("p") + (1 if d == "down" else 0), e.lvof("p") + (1 if d == "down" else 0))
    return [("every polyhedron has been split", And(lo <= 0, hi >= n)), ("status 1", zi(c.ret) == 1)]
F1 = Fn("r3d_split", "src/r3d.c", params={"inpolys": ("each", lambda b: b["npolys"], "p"), "npolys": "scalar", "plane": "scalar", "out_pos": ("each", lambda b: b["npolys"], "p"), "out_neg": ("each", lambda b: b["npolys"], "p")},
        pre=lambda c: [("polyhedron count", c.i("npolys") >= 0)], post=p_post, loops=[Loop("p", p_inv, each=lambda c: elem_pre(View(c, D, "inpolys")), step=p_step, children=loops(K1))])

# ---- r3d_split_coord: outpolys[0] may be the input polyhedron (as in r3d_rasterize) or not
def sd_coord(c, P): o = c.old(); return SD(P) == o.r("coord") - If(o.i("ax") == 0, P[0], If(o.i("ax") == 1, P[1], P[2]))
def coord(inplace):
    k = Kit("inpoly", ("inpoly" if inplace else "low", "high"), sd_coord, True, False, sg=lambda x: -x)
    def pre(c): return [("axis", rng(0, c.i("ax"), D))] + elem_pre(View(c, D, "inpoly"))
    def post(c):
        if "dist.exit" not in c.st.labels:
            out = [("an empty polyhedron is left alone", k.H(c).n <= 0)]
            for b in range(2):
                v, o = k.out(c, b), k.out(c.old(), b); out.append(("output %d is left alone" % b, And(v.n == o.n, *[x == y for x, y in zip(v.nb + v.pos, o.nb + o.pos)])))
            return out
        return [("not empty", k.H(c).n > 0)] + parts(k, c)
    f = Fn("r3d_split_coord", "src/v3d.c", params={"inpoly": "obj", "outpolys": ("ptrs", [k.outs[0], k.outs[1]]), "coord": "scalar", "ax": "scalar"}, pre=pre, post=post, loops=loops(k))
    f.label = "r3d_split_coord (%s)" % ("in place" if inplace else "separate outputs")
    return f
FNS = [F1, coord(True), coord(False)]
prop("C05", fns=FNS, lemmas=lemma_cut(3), rt=[("p_split.c", "split3"), ("p_split.c", "coord3")], lean=[("Chain.lean", ["Chain.chain"])], trusted=[CHAIN],
     assumptions=["for r3d_split_coord the vertex buffers have room for two new vertices per bisected edge (it has no capacity check)", "no doubled edges (neighbours of a vertex are distinct)",
                  "input and output arrays of r3d_split do not overlap; r3d_split_coord is verified both for outpolys[0] == inpoly and for separate outputs"])
