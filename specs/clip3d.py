"""C02: r3d_clip.  Half-edge (x,q) = edge leaving vertex x in slot q; the face to its left continues
at the neighbour t with slot (b+1)%3, b the slot of t that points back to x."""
from .polyops import *
D = 3
SD = lambda q: (lambda P: SDF[3](q, *P))
HF = lambda P: HFF[3](*P)
MX = MAXV[3]
def sd_def(c, q, P):
    return SDF[3](q, *P) == sel(c.m("planes.d"), q) + P[0] * sel(c.m("planes.n.0"), q) + P[1] * sel(c.m("planes.n.1"), q) + P[2] * sel(c.m("planes.n.2"), q)
pos_at = lambda v, u: [a[u] for a in v.pos]
distinct = lambda nb, u: And(nb[0][u] != nb[1][u], nb[0][u] != nb[2][u], nb[1][u] != nb[2][u])

def pre(c):
    v = View(c, D); npl = c.i("nplanes"); P0 = v.p(U0)
    return [("vertex count within the buffer", And(v.n >= 0, v.n <= MX)), ("plane count", npl >= 0)] + valid3(v.n, v.nb) + simple3(v.n, v.nb) + [
        ("every vertex is on the non-negative side of an arbitrary functional", fa(u_, Implies(rng(0, u_, v.n), HF(pos_at(v, u_)) >= 0), v.pos[0][u_])),
        ("arbitrary plane", rng(0, QP, npl)),
        ("tracked vertex", Implies(TRK, And(rng(0, U0, v.n), fa(q_, Implies(rng(0, q_, npl), SD(q_)(P0) >= 0), SD(q_)(P0)))))]

# ---- planes
def tracked(c, v):
    t = c.g("trk"); P0 = View(c.old(), D).p(U0)
    return Implies(TRK, And(rng(0, t, v.n), *[v.pos[k][t] == P0[k] for k in range(D)]))
def planes_inv(c):
    v = View(c, D); npl = c.i("nplanes")
    return [("plane counter", c.counter_range(0, npl)), ("vertex count", And(v.n >= 0, v.n <= MX))] + valid3(v.n, v.nb) + [
        ("no vertex beyond a plane already applied", fa(u_, Implies(And(rng(0, u_, v.n), c.done(QP)), SD(QP)(pos_at(v, u_)) >= 0), v.pos[0][u_])),
        ("no vertex outside the hull of the input", fa(u_, Implies(rng(0, u_, v.n), HF(pos_at(v, u_)) >= 0), v.pos[0][u_])),
        ("a vertex inside all half-spaces is retained", tracked(c, v))]
def planes_head(c):
    v = View(c, D); return [f for _, f in simple3(v.n, v.nb)]
def planes_ghost(c):
    if "reindex.exit" in c.st.labels: return {"trk": sel(c.m("clipped"), c.g("trk"))}
    return {"trk": c.g("trk")}
planes_ghost.keys = ("trk",)
def planes_step(c):
    h = c.at("planes.head"); H, v = View(h, D), View(c, D); p = h.lv
    if "reindex.exit" not in c.st.labels:
        if "insert.exit" in c.st.labels: return []
        return [("nothing changes when no vertex is clipped", And(v.n == H.n, *[a == b for a, b in zip(v.nb + v.pos, H.nb + H.pos)])),
                ("a plane is skipped only if every vertex is on its non-negative side", fa(u_, Implies(rng(0, u_, H.n), And(c.m("sdists")[u_] >= 0, SD(p)(pos_at(H, u_)) >= 0))))]
    r = c.m("clipped"); s = lambda u: SD(p)(pos_at(H, u)); K = lambda u: s(u) >= 0
    src = c.g("src"); out = []; U = u_
    w = c.g("wmx"); out.append(("a vertex strictly inside exists when the plane is cut (otherwise the result is empty)", And(rng(0, w, H.n), c.m("sdists")[w] > 0, s(w) > 0)))
    out.append(("every kept vertex survives at its position", fa(U, Implies(And(rng(0, U, H.n), K(U)), And(rng(0, r[U], v.n), *[v.pos[k][r[U]] == H.pos[k][U] for k in range(D)])))))
    for q in range(D):
        x = H.nb[q][U]
        out.append(("an uncut edge keeps its slot %d link" % q, fa(U, Implies(And(rng(0, U, H.n), K(U), K(x)), v.nb[q][r[U]] == r[x]))))
        t = v.nb[q][r[U]]
        out.append(("a cut edge ends at its cut point (slot %d)" % q, fa(U, Implies(And(rng(0, U, H.n), K(U), Not(K(x))),
                   And(rng(0, t, v.n), v.nb[0][t] == r[U], *[v.pos[k][t] == LKF(H.pos[k][U], H.pos[k][x], s(U), s(x)) for k in range(D)])))))
    J = j_; a0 = src[J]; E = View(c.at("insert.exit"), D); o = E.nb[0][a0]
    out.append(("every vertex of the result is a kept vertex or the cut point of a bisected edge", fa(J, Implies(rng(0, J, v.n),
               Or(And(rng(0, a0, H.n), K(a0), r[a0] == J), And(rng(0, o, H.n), K(o), Or(*[And(Not(K(H.nb[q][o])), v.nb[q][r[o]] == J) for q in range(D)])))))))
    out.append(("cut points are linked cyclically: slots 1 and 2 are inverse to each other", fa(J, Implies(And(rng(0, J, v.n), a0 >= H.n),
               And(rng(0, v.nb[1][J], v.n), rng(0, v.nb[2][J], v.n), v.nb[2][v.nb[1][J]] == J, v.nb[1][v.nb[2][J]] == J)))))
    return out

# ---- dist
def dist_inv(c):
    h = c.at("planes.head"); H = View(h, D); n = H.n; p = h.lvof("planes"); s, cl = c.m("sdists"), c.m("clipped")
    smin, smax = c.r("smin"), c.r("smax")
    w = c.g("wmx")
    return [("counter", c.counter_range(0, n)),
            ("the largest signed distance is attained", Or(smax == R("-1000000000000000000000000000000"), And(rng(0, w, n), c.done(w), s[w] == smax))),
            ("signed distance, extremes and flag of every processed vertex", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)),
                And(s[u_] == SD(p)(pos_at(H, u_)), smin <= s[u_], s[u_] <= smax, cl[u_] == If(s[u_] < 0, I(1), I(0)))), s[u_], cl[u_], H.pos[0][u_])),
            ("other vertices are not flagged", fa(u_, Implies(And(rng(0, u_, MX), Not(And(rng(0, u_, n), c.done(u_)))), cl[u_] == 0), cl[u_]))]
def dist_ghost(c):
    h = c.at("dist.head"); w = c.g("wmx"); return {"wmx": If(c.r("smax") == h.r("smax"), w, h.lv)}
dist_ghost.keys = ("wmx",)
def dist_lemma(c):
    h = c.at("planes.head"); H = View(h, D); p = h.lvof("planes"); w = c.at("dist.head").lv
    return [sd_def(c, p, H.p(w))]

# ---- insert
def ins_inv(c):
    e = c.at("insert.entry"); E, v = View(e, D), View(c, D); onv, N = E.n, v.n; s, cl = c.m("sdists"), c.m("clipped")
    p = c.lvof("planes")
    out = [("counter", c.counter_range(0, onv)), ("count", And(onv <= N, N <= MX))]
    for q in range(D):
        x = E.nb[q][u_]; m = v.nb[q][u_]
        out.append(("slot %d links of old vertices" % q, fa(u_, Implies(rng(0, u_, onv), If(And(c.done(u_), cl[u_] == 0, cl[x] != 0),
            And(rng(onv, m, N), v.nb[0][m] == u_, *[v.pos[k][m] == LKF(E.pos[k][u_], E.pos[k][x], s[u_], s[x]) for k in range(D)]), m == x)), v.nb[q][u_], E.nb[q][u_])))
    out.append(("neighbours of old vertices stay distinct", fa(u_, Implies(rng(0, u_, onv), distinct(v.nb, u_)), v.nb[0][u_], v.nb[1][u_], v.nb[2][u_])))
    a = v.nb[0][m_]
    out.append(("owner of a cut vertex", fa(m_, Implies(rng(onv, m_, N), And(rng(0, a, onv), c.done(a), cl[a] == 0, Or(*[And(v.nb[q][a] == m_, cl[E.nb[q][a]] != 0) for q in range(D)]))), v.nb[0][m_])))
    P = pos_at(v, m_)
    out.append(("cut vertices lie on the plane, inside earlier planes and inside the input", fa(m_, Implies(rng(onv, m_, N),
        And(SD(p)(P) == 0, HF(P) >= 0, Implies(c.doneof("planes", QP), SD(QP)(P) >= 0))), *[v.pos[k][m_] for k in range(D)])))
    out.append(("old positions", fa(u_, Implies(rng(0, u_, onv), And(*[v.pos[k][u_] == E.pos[k][u_] for k in range(D)])), *[v.pos[k][u_] for k in range(D)])))
    return out
def edges_of(c, lab="insert"):
    h = c.at(lab + ".head"); E = View(c.at(lab + ".entry"), D); w = h.lv; s, cl = c.m("sdists"), c.m("clipped")
    for q in range(D):
        x = sel(E.nb[q], w); yield q, w, x, E.p(w), E.p(x), sel(s, w), sel(s, x), sel(cl, w), sel(cl, x)
def ins_lemma(c):
    p = c.lvof("planes"); out = []
    for q, w, x, A, B, sa, sb, ca, cb in edges_of(c): out += cut_facts([HF, SD(QP)], A, B, sa, sb, SD(p))
    return out
def ins_cuts(c):
    v = View(c, D); out = []; p = c.lvof("planes")
    for q, w, x, A, B, sa, sb, ca, cb in edges_of(c):
        out.append(("flags of the endpoints", And(Implies(ca == 0, And(sa >= 0, SD(p)(A) == sa)), Implies(cb != 0, And(sb < 0, SD(p)(B) == sb)))))
        hp = View(c.at("insert.head"), D); N0 = hp.n
        out.append(("positions of the endpoints", And(w < N0, x < N0, hp.nb[q][w] == x, *([hp.pos[k][w] == A[k] for k in range(D)] + [hp.pos[k][x] == B[k] for k in range(D)]))))
        new = sel(v.nb[q], w)
        for k in range(D):
            out.append(("coordinate %d of the cut point of edge %d" % (k, q), Implies(And(ca == 0, cb != 0), sel(v.pos[k], new) == cutdef(A[k], B[k], sa, sb))))
    return out

# ---- relink / walk
def relink_ghosts(c):
    A = z3.ArraySort(Int, Int)
    return {g: fresh(A, "gh_" + g) for g in ("O0", "O1", "O2", "R0", "R1", "R2", "F", "G")}
def relink_lemma(c):
    v = View(c, D); N = v.n; onv = View(c.at("insert.entry"), D).n; cl = c.m("clipped"); nb = v.nb
    S = lambda u: And(rng(0, u, onv), cl[u] == 0); W = lambda m: rng(onv, m, N)
    O = [c.g("O%d" % q) for q in range(3)]; R = [c.g("R%d" % q) for q in range(3)]; F, G = c.g("F"), c.g("G")
    reqs = [("slot %d of a kept vertex leads to a kept vertex that links back or to its own cut vertex" % q,
             fa(u_, Implies(S(u_), Or(And(S(nb[q][u_]), back(nb, nb[q][u_], u_)), And(W(nb[q][u_]), nb[0][nb[q][u_]] == u_))))) for q in range(3)]
    reqs += [("neighbours of a kept vertex are distinct", fa(u_, Implies(S(u_), distinct(nb, u_)))),
             ("a cut vertex hangs on exactly one kept vertex", fa(m_, Implies(W(m_), And(S(nb[0][m_]), back(nb, nb[0][m_], m_)))))]
    facts = []
    for q in range(3):
        pq = (q + 2) % 3; t = nb[q][u_]
        facts.append(fa(u_, Implies(And(S(u_), nb[pq][u_] >= onv), O[q][u_] == nb[pq][u_]), nb[pq][u_]))
        for b in range(3):
            nq = (b + 1) % 3
            facts.append(fa(u_, Implies(And(S(u_), t < onv, nb[b][t] == u_), And(O[nq][t] == O[q][u_], Implies(O[q][u_] >= onv, And(0 <= R[nq][t], R[nq][t] < R[q][u_])))), nb[b][t]))
        facts.append(fa(u_, Implies(And(S(u_), t >= onv), O[q][u_] == G[t]), t))
        facts.append(fa(u_, Implies(And(S(u_), O[q][u_] >= onv), R[q][u_] >= 0), R[q][u_]))
    facts.append(fa(m_, Implies(W(m_), And(W(F[m_]), G[F[m_]] == m_)), F[m_]))
    facts.append(fa(m_, Implies(W(m_), And(W(G[m_]), F[G[m_]] == m_)), G[m_]))
    return reqs, facts
def relink_inv(c):
    e = c.at("relink.entry"); E, v = View(e, D), View(c, D); N = E.n; onv = View(c.at("insert.entry"), D).n
    F, G = c.g("F"), c.g("G"); W = rng(onv, m_, N)
    return [("counter", c.counter_range(onv, N)), ("count", v.n == N),
            ("old vertices keep their links", fa(u_, Implies(rng(0, u_, onv), And(*[v.nb[q][u_] == E.nb[q][u_] for q in range(3)])), *[v.nb[q][u_] for q in range(3)])),
            ("owners", fa(m_, Implies(W, v.nb[0][m_] == E.nb[0][m_]), v.nb[0][m_])),
            ("forward links of processed cut vertices", fa(m_, Implies(And(W, c.done(m_)), v.nb[2][m_] == F[m_]), v.nb[2][m_])),
            ("backward links of their partners", fa(m_, Implies(And(W, c.done(G[m_])), v.nb[1][m_] == G[m_]), v.nb[1][m_]))]
def relink_exit(c):
    """after relinking, the kept and the cut vertices form a graph closed under mutual links"""
    v = View(c, D); N = v.n; cl = c.m("clipped"); onv = View(c.at("insert.entry"), D).n
    T = lambda u: And(rng(0, u, N), cl[u] == 0)
    out = [("cut vertices count as kept", fa(u_, Implies(rng(onv, u_, N), cl[u_] == 0), cl[u_])),
           ("cut vertices are linked cyclically", fa(m_, Implies(rng(onv, m_, N), And(rng(onv, v.nb[1][m_], N), rng(onv, v.nb[2][m_], N), v.nb[2][v.nb[1][m_]] == m_, v.nb[1][v.nb[2][m_]] == m_)), v.nb[1][m_], v.nb[2][m_]))]
    for q in range(3): out.append(("slot %d of a kept or cut vertex is mutual" % q, fa(u_, Implies(T(u_), And(T(v.nb[q][u_]), back(v.nb, v.nb[q][u_], u_))), v.nb[q][u_])))
    return out
def _back(c):
    """(vcur, vnext, nb, [nb_B[vnext]==vcur])"""
    v = View(c, D); x, vc = c.i("vnext"), c.i("vcur"); return v, x, vc, [v.nb[b][x] == vc for b in range(3)]
def walk_inv(c):
    onv = View(c.at("insert.entry"), D).n; N = View(c.at("relink.entry"), D).n; v, x, vc, B = _back(c); cl = c.m("clipped"); m = c.lvof("relink")
    O = [c.g("O%d" % q) for q in range(3)]
    return [("start vertex", rng(onv, m, N)),
            ("the walk is on the chain of its start vertex or at its partner", Or(
                And(rng(0, x, onv), cl[x] == 0, Or(*B), *[Implies(B[b], O[(b + 1) % 3][x] == m) for b in range(3)]),
                And(rng(onv, x, N), v.nb[0][x] == vc, c.g("F")[m] == x)))]
def walk_var(c):
    onv = View(c.at("insert.entry"), D).n; v, x, vc, B = _back(c); R = [c.g("R%d" % q) for q in range(3)]
    return If(x < onv, 1 + If(B[0], R[1][x], If(B[1], R[2][x], R[0][x])), I(0))
def walk_exit(c):
    return [("the walk ends at the partner of its start vertex", c.i("vcur") == c.g("F")[c.lvof("relink")])]

# ---- compress / reindex
def comp_inv(c):
    e = c.at("compress.entry"); E, v = View(e, D), View(c, D); N = E.n; C0, cl = e.m("clipped"), c.m("clipped"); k = c.i("numunclipped"); src = c.g("src")
    same = lambda a, b, i, j: And(*[x[i] == y[j] for x, y in zip(a.nb + a.pos, b.nb + b.pos)])
    return [("counter", And(c.counter_range(0, N), 0 <= k, k <= c.lv)), ("count", v.n == N),
            ("new index of processed vertices", fa(u_, Implies(And(rng(0, u_, N), c.done(u_), C0[u_] == 0), And(rng(0, cl[u_], k), src[cl[u_]] == u_)), cl[u_], C0[u_])),
            ("other marks unchanged", fa(u_, Implies(And(rng(0, u_, N), Or(Not(c.done(u_)), C0[u_] != 0)), cl[u_] == C0[u_]), cl[u_], C0[u_])),
            ("moved vertices", fa(j_, Implies(rng(0, j_, k), And(rng(0, src[j_], N), c.done(src[j_]), C0[src[j_]] == 0, cl[src[j_]] == j_, same(v, E, j_, src[j_]))), src[j_], *[a[j_] for a in v.nb + v.pos])),
            ("unprocessed vertices", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), same(v, E, u_, u_)), *[a[u_] for a in v.nb + v.pos]))]
def comp_ghost(c):
    h = c.at("compress.head"); k0, k1 = h.i("numunclipped"), c.i("numunclipped"); src = c.g("src")
    return {"src": If(k1 > k0, z3.Store(src, k0, h.lv), src)}
comp_ghost.keys = ("src",)
def reidx_inv(c):
    e = c.at("reindex.entry"); E, v = View(e, D), View(c, D); cl = c.m("clipped"); k = E.n
    return [("counter", c.counter_range(0, k)), ("count", v.n == k)] + [
        ("links %d" % q, fa(j_, Implies(rng(0, j_, k), v.nb[q][j_] == If(c.done(j_), cl[E.nb[q][j_]], E.nb[q][j_])), v.nb[q][j_])) for q in range(D)]

def post(c):
    v = View(c, D); o = View(c.old(), D); npl = c.i("nplanes"); out = []; L = c.st.labels; ret = zi(c.ret)
    if "planes.entry" not in L: return [("an empty polyhedron is left alone and reported", And(o.n <= 0, v.n == o.n, ret == 0))]
    if "insert.entry" in L and "planes.exit" not in L:
        return [("status 0 only when the vertex buffer is full", And(ret == 0, v.n == MX))]
    out += [("clip result: " + n, f) for n, f in valid3(v.n, v.nb)]
    out.append(("clip result: status is 1", ret == 1))
    out.append(("clip result: vertex count within the buffer", And(v.n >= 0, v.n <= MX)))
    out.append(("clip result: every vertex is on the non-negative side of every plane", fa(u_, Implies(rng(0, u_, v.n), SD(QP)(pos_at(v, u_)) >= 0))))
    out.append(("clip result: every vertex is inside the hull of the input", fa(u_, Implies(rng(0, u_, v.n), HF(pos_at(v, u_)) >= 0))))
    if "planes.exit" in L:
        out.append(("clip result: a vertex inside all half-spaces is retained", tracked(c, v)))
    else:
        h = c.at("planes.head"); H = View(h, D); p = h.lvof("planes")
        out.append(("emptied only if no vertex is strictly inside the half-space", And(v.n == 0, rng(0, p, npl), fa(u_, Implies(rng(0, u_, H.n), And(c.m("sdists")[u_] <= 0, SD(p)(pos_at(H, u_)) <= 0))))))
    return out

LOOPS = [Loop("planes", planes_inv, head_lemma=planes_head, ghost=planes_ghost, ghost_init=lambda c: {"trk": U0}, step=planes_step, children=[
    Loop("dist", dist_inv, lemma=dist_lemma, ghost=dist_ghost, ghost_init=lambda c: {"wmx": I(-1)}),
    Loop("insert", ins_inv, lemma=ins_lemma, cuts=ins_cuts),
    Loop("relink", relink_inv, ghost_init=relink_ghosts, pre_lemma=relink_lemma, exit_cuts=relink_exit, children=[Loop("walk", walk_inv, exit_cuts=walk_exit, decreases=walk_var)]),
    Loop("compress", comp_inv, ghost=comp_ghost, ghost_init=lambda c: {"src": fresh(z3.ArraySort(Int, Int), "gh_src")}),
    Loop("reindex", reidx_inv)])]
FNS = [Fn("r3d_clip", "src/r3d.c", params={"poly": "obj", "planes": ("arr", lambda b: b["nplanes"]), "nplanes": "scalar"}, pre=pre, post=post, loops=LOOPS)]

from .clip2d import CHAIN
prop("C02", fns=FNS, lemmas=lemma_cut(3), rt=[("p_clip.c", "clip3")], lean=[("Chain.lean", ["Chain.chain"])], trusted=[CHAIN], budget=20.0,
     assumptions=["the polyhedron has no doubled edges (neighbours of a vertex are distinct) when each plane is applied; this holds for every convex polyhedron", "vertex coordinates give |signed distance| < 1e30 (initial value of the running extremes)"])
