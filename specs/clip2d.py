"""C01: r2d_clip."""
from .polyops import *
D = 2
SD = lambda q: (lambda P: SDF[2](q, *P))
HF = lambda P: HFF[2](*P)
MX = MAXV[2]

def sd_def(c, q, P):
    return SDF[2](q, *P) == sel(c.m("planes.d"), q) + P[0] * sel(c.m("planes.n.0"), q) + P[1] * sel(c.m("planes.n.1"), q)

def pre(c):
    v = View(c, D); npl = c.i("nplanes"); P0 = v.p(U0)
    return [("vertex count within the buffer", And(v.n >= 0, v.n <= MX)), ("plane count", npl >= 0)] + valid2(v.n, v.nb) + [
        ("every vertex is on the non-negative side of an arbitrary functional", fa(u_, Implies(rng(0, u_, v.n), HF([a[u_] for a in v.pos]) >= 0), v.pos[0][u_])),
        ("arbitrary plane", rng(0, QP, npl)),
        ("tracked vertex", Implies(TRK, And(rng(0, U0, v.n), fa(q_, Implies(rng(0, q_, npl), SD(q_)(P0) >= 0), SD(q_)(P0)))))]

# ---- planes
def tracked(c, v):
    t = c.g("trk"); P0 = View(c.old(), D).p(U0)
    return Implies(TRK, And(rng(0, t, v.n), *[v.pos[k][t] == P0[k] for k in range(D)]))
def planes_inv(c):
    v = View(c, D); npl = c.i("nplanes")
    return [("plane counter", c.counter_range(0, npl)), ("vertex count", And(v.n >= 0, v.n <= MX))] + valid2(v.n, v.nb) + [
        ("no vertex beyond a plane already applied", fa(u_, Implies(And(rng(0, u_, v.n), c.done(QP)), SD(QP)([a[u_] for a in v.pos]) >= 0), v.pos[0][u_])),
        ("no vertex outside the hull of the input", fa(u_, Implies(rng(0, u_, v.n), HF([a[u_] for a in v.pos]) >= 0), v.pos[0][u_])),
        ("a vertex inside all half-planes is retained", tracked(c, v))]
def planes_ghost(c):
    if "reindex.exit" in c.st.labels: return {"trk": sel(c.m("clipped"), c.g("trk"))}
    return {"trk": c.g("trk")}
planes_ghost.keys = ("trk",)
def planes_step(c):
    """exact contract of one plane"""
    h = c.at("planes.head"); H, v = View(h, D), View(c, D); p = h.lv
    if "reindex.exit" not in c.st.labels:
        if "insert.exit" in c.st.labels: return []
        s = c.m("sdists")
        return [("nothing changes when no vertex is clipped", And(v.n == H.n, *[a == b for a, b in zip(v.nb + v.pos, H.nb + H.pos)])),
                ("a plane is skipped only if every vertex is on its non-negative side", fa(u_, Implies(rng(0, u_, H.n), SD(p)([a[u_] for a in H.pos]) >= 0)))]
    r = c.m("clipped"); s = lambda u: SD(p)([a[u] for a in H.pos]); K = lambda u: s(u) >= 0
    src = c.g("src"); out = []
    U = u_
    w = c.g("wmx"); out.append(("a vertex strictly inside exists when the plane is cut (otherwise the result is empty)", And(rng(0, w, H.n), c.m("sdists")[w] > 0, s(w) > 0)))
    out.append(("every kept vertex survives at its position", fa(U, Implies(And(rng(0, U, H.n), K(U)), And(rng(0, r[U], v.n), *[v.pos[k][r[U]] == H.pos[k][U] for k in range(D)])))))
    for q in range(2):
        x = H.nb[q][U]
        out.append(("an uncut edge keeps its direction %d link" % q, fa(U, Implies(And(rng(0, U, H.n), K(U), K(x)), v.nb[q][r[U]] == r[x]))))
        t = v.nb[q][r[U]]
        out.append(("a cut edge ends at its cut point (direction %d)" % q, fa(U, Implies(And(rng(0, U, H.n), K(U), Not(K(x))),
                   And(rng(0, t, v.n), v.nb[1 - q][t] == r[U], *[v.pos[k][t] == LKF(H.pos[k][U], H.pos[k][x], s(U), s(x)) for k in range(D)])))))
    J = j_; a0 = src[J]
    ow = lambda q: And(K(H.nb[q][U]), )
    e = c.at("insert.exit"); E = View(e, D)
    own = lambda q: And(rng(0, E.nb[1 - q][a0], H.n), K(E.nb[1 - q][a0]), Not(K(H.nb[q][E.nb[1 - q][a0]])), v.nb[q][r[E.nb[1 - q][a0]]] == J)
    out.append(("every vertex of the result is a kept vertex or the cut point of a bisected edge", fa(J, Implies(rng(0, J, v.n),
               Or(And(rng(0, a0, H.n), K(a0), r[a0] == J), own(0), own(1))))))
    return out

# ---- dist
def dist_inv(c):
    h = c.at("planes.head"); H = View(h, D); n = H.n; p = h.lvof("planes"); s, cl = c.m("sdists"), c.m("clipped")
    smin, smax = c.r("smin"), c.r("smax")
    w = c.g("wmx")
    return [("counter", c.counter_range(0, n)),
            ("the largest signed distance is attained", Or(smax == R("-1000000000000000000000000000000"), And(rng(0, w, n), c.done(w), s[w] == smax))),
            ("signed distance, extremes and flag of every processed vertex", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)),
                And(s[u_] == SD(p)([a[u_] for a in H.pos]), smin <= s[u_], s[u_] <= smax, cl[u_] == If(s[u_] < 0, I(1), I(0)))), s[u_], cl[u_], H.pos[0][u_])),
            ("other vertices are not flagged", fa(u_, Implies(And(rng(0, u_, MX), Not(And(rng(0, u_, n), c.done(u_)))), cl[u_] == 0), cl[u_]))]
def dist_ghost(c):
    h = c.at("dist.head"); w = c.g("wmx"); return {"wmx": If(c.r("smax") == h.r("smax"), w, h.lv)}
dist_ghost.keys = ("wmx",)
def dist_lemma(c):
    h = c.at("planes.head"); H = View(h, D); p = h.lvof("planes"); w = c.at("dist.head").lv
    return [sd_def(c, p, H.p(w))]

# ---- insert
def ins_inv(c):
    e = c.at("insert.entry"); E, v = View(e, D), View(c, D); onv, N = E.n, v.n; s, cl = c.m("sdists"), c.m("clipped")
    p = c.lvof("planes")
    out = [("counter", c.counter_range(0, onv)), ("count", And(onv <= N, N <= MX))]
    for q in range(2):
        x = E.nb[q][u_]; m = v.nb[q][u_]
        out.append(("links %d of old vertices" % q, fa(u_, Implies(rng(0, u_, onv), If(And(c.done(u_), cl[u_] == 0, cl[x] != 0),
            And(rng(onv, m, N), v.nb[1 - q][m] == u_, v.nb[q][m] == -1, *[v.pos[k][m] == LKF(E.pos[k][u_], E.pos[k][x], s[u_], s[x]) for k in range(D)]), m == x)), v.nb[q][u_], E.nb[q][u_])))
    def kind(q):
        a = v.nb[1 - q][m_]
        return And(v.nb[q][m_] == -1, rng(0, a, onv), c.done(a), cl[a] == 0, cl[E.nb[q][a]] != 0, v.nb[q][a] == m_)
    out.append(("links of cut vertices", fa(m_, Implies(rng(onv, m_, N), Or(kind(0), kind(1))), v.nb[0][m_], v.nb[1][m_])))
    P = [a[m_] for a in v.pos]
    out.append(("cut vertices lie on the plane, inside earlier planes and inside the input", fa(m_, Implies(rng(onv, m_, N),
        And(SD(p)(P) == 0, HF(P) >= 0, Implies(c.doneof("planes", QP), SD(QP)(P) >= 0))), v.pos[0][m_], v.pos[1][m_])))
    out.append(("old positions", fa(u_, Implies(rng(0, u_, onv), And(*[v.pos[k][u_] == E.pos[k][u_] for k in range(D)])), *[v.pos[k][u_] for k in range(D)])))
    return out
def edges_of(c, lab="insert"):
    """the bisected-edge candidates of the vertex processed in this iteration"""
    h = c.at(lab + ".head"); E = View(c.at(lab + ".entry"), D); w = h.lv; s, cl = c.m("sdists"), c.m("clipped")
    for q in range(D):
        x = sel(E.nb[q], w); yield q, w, x, E.p(w), E.p(x), sel(s, w), sel(s, x), sel(cl, w), sel(cl, x)
def ins_lemma(c):
    p = c.lvof("planes"); out = []
    for q, w, x, A, B, sa, sb, ca, cb in edges_of(c): out += cut_facts([HF, SD(QP)], A, B, sa, sb, SD(p))
    return out
def ins_cuts(c):
    v = View(c, D); out = []
    p = c.lvof("planes")
    for q, w, x, A, B, sa, sb, ca, cb in edges_of(c):
        out.append(("flags of the endpoints", And(Implies(ca == 0, And(sa >= 0, SD(p)(A) == sa)), Implies(cb != 0, And(sb < 0, SD(p)(B) == sb)))))
        hp = View(c.at("insert.head"), D); N0 = hp.n
        out.append(("positions of the endpoints", And(w < N0, x < N0, hp.nb[q][w] == x, *([hp.pos[k][w] == A[k] for k in range(D)] + [hp.pos[k][x] == B[k] for k in range(D)]))))
        new = sel(v.nb[q], w)
        for k in range(D):
            out.append(("coordinate %d of the cut point of edge %d" % (k, q), Implies(And(ca == 0, cb != 0), sel(v.pos[k], new) == cutdef(A[k], B[k], sa, sb))))
    return out
def ins_room(c):
    E, v = View(c.at("insert.entry"), D), View(c, D); w = c.lv; cl = c.m("clipped")
    k = sum([If(And(cl[w] == 0, cl[E.nb[q][w]] != 0), 1, 0) for q in range(D)])
    return [v.n + k <= MX]

# ---- relink / walk
def relink_ghosts(c):
    A = z3.ArraySort(Int, Int)
    return {g: fresh(A, "gh_" + g) for g in ("O", "R", "F", "G")}
def relink_lemma(c):
    v = View(c, D); N = v.n; onv = View(c.at("insert.entry"), D).n; cl = c.m("clipped"); nb = v.nb
    S = lambda u: And(rng(0, u, onv), cl[u] == 0)
    O, R, F, G = [c.g(x) for x in "ORFG"]
    start = lambda m: And(rng(onv, m, N), nb[1][m] == -1)
    end = lambda m: And(rng(onv, m, N), nb[0][m] == -1)
    reqs = [("successor of a kept vertex is kept or new, and mutual", fa(u_, Implies(S(u_), Or(And(S(nb[0][u_]), nb[1][nb[0][u_]] == u_), And(end(nb[0][u_]), nb[1][nb[0][u_]] == u_))))),
            ("predecessor of a kept vertex is kept or new, and mutual", fa(u_, Implies(S(u_), Or(And(S(nb[1][u_]), nb[0][nb[1][u_]] == u_), And(start(nb[1][u_]), nb[0][nb[1][u_]] == u_))))),
            ("cut vertices hang on exactly one kept vertex", fa(m_, Implies(rng(onv, m_, N), Or(And(start(m_), S(nb[0][m_]), nb[1][nb[0][m_]] == m_), And(end(m_), S(nb[1][m_]), nb[0][nb[1][m_]] == m_)))))]
    facts = [fa(u_, Implies(And(S(u_), nb[1][u_] >= onv), O[u_] == nb[1][u_]), O[u_], nb[1][u_]),
             fa(u_, Implies(And(S(u_), nb[0][u_] < onv), And(O[nb[0][u_]] == O[u_], Implies(O[u_] >= onv, And(0 <= R[nb[0][u_]], R[nb[0][u_]] < R[u_])))), O[u_]),
             fa(u_, Implies(And(S(u_), nb[0][u_] >= onv), O[u_] == G[nb[0][u_]]), O[u_], nb[0][u_]),
             fa(m_, Implies(start(m_), And(end(F[m_]), G[F[m_]] == m_)), F[m_]),
             fa(m_, Implies(end(m_), And(start(G[m_]), F[G[m_]] == m_)), G[m_])]
    return reqs, facts
def relink_inv(c):
    e = c.at("relink.entry"); E, v = View(e, D), View(c, D); N = E.n; onv = View(c.at("insert.entry"), D).n
    F, G = c.g("F"), c.g("G")
    out = [("counter", c.counter_range(onv, N)), ("count", v.n == N),
           ("old vertices keep their links", fa(u_, Implies(rng(0, u_, onv), And(v.nb[0][u_] == E.nb[0][u_], v.nb[1][u_] == E.nb[1][u_])), v.nb[0][u_], v.nb[1][u_])),
           ("start vertices", fa(m_, Implies(And(rng(onv, m_, N), E.nb[1][m_] == -1), And(v.nb[0][m_] == E.nb[0][m_], v.nb[1][m_] == If(c.done(m_), F[m_], I(-1)))), v.nb[1][m_], E.nb[1][m_])),
           ("end vertices", fa(m_, Implies(And(rng(onv, m_, N), E.nb[0][m_] == -1), And(v.nb[1][m_] == E.nb[1][m_], v.nb[0][m_] == If(c.done(G[m_]), G[m_], I(-1)))), v.nb[0][m_], E.nb[0][m_]))]
    return out
def walk_inv(c):
    onv = View(c.at("insert.entry"), D).n; x = c.i("vcur"); cl = c.m("clipped"); m = c.lvof("relink"); O = c.g("O")
    return [("the walk is on the chain of its start vertex", And(rng(0, x, onv), cl[x] == 0, O[x] == m, m >= onv))]
def walk_exit(c):
    return [("the walk ends at the partner of its start vertex", c.i("vcur") == c.g("F")[c.lvof("relink")])]

# ---- compress / reindex
def comp_inv(c):
    e = c.at("compress.entry"); E, v = View(e, D), View(c, D); N = E.n; C0, cl = e.m("clipped"), c.m("clipped"); k = c.i("numunclipped"); src = c.g("src")
    same = lambda a, b, i, j: And(*[x[i] == y[j] for x, y in zip(a.nb + a.pos, b.nb + b.pos)])
    return [("counter", And(c.counter_range(0, N), 0 <= k, k <= c.lv)), ("count", v.n == N),
            ("new index of processed vertices", fa(u_, Implies(And(rng(0, u_, N), c.done(u_), C0[u_] == 0), And(rng(0, cl[u_], k), src[cl[u_]] == u_)), cl[u_], C0[u_])),
            ("other marks unchanged", fa(u_, Implies(And(rng(0, u_, N), Or(Not(c.done(u_)), C0[u_] != 0)), cl[u_] == C0[u_]), cl[u_], C0[u_])),
            ("moved vertices", fa(j_, Implies(rng(0, j_, k), And(rng(0, src[j_], N), c.done(src[j_]), C0[src[j_]] == 0, cl[src[j_]] == j_, same(v, E, j_, src[j_]))), src[j_], v.nb[0][j_], v.nb[1][j_], v.pos[0][j_], v.pos[1][j_])),
            ("unprocessed vertices", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), same(v, E, u_, u_)), v.nb[0][u_], v.nb[1][u_], v.pos[0][u_], v.pos[1][u_]))]
def comp_ghost(c):
    h = c.at("compress.head"); k0, k1 = h.i("numunclipped"), c.i("numunclipped"); src = c.g("src")
    return {"src": If(k1 > k0, z3.Store(src, k0, h.lv), src)}
comp_ghost.keys = ("src",)
def reidx_inv(c):
    e = c.at("reindex.entry"); E, v = View(e, D), View(c, D); cl = c.m("clipped"); k = E.n
    out = [("counter", c.counter_range(0, k)), ("count", v.n == k)]
    for q in range(D):
        out.append(("links %d" % q, fa(j_, Implies(rng(0, j_, k), v.nb[q][j_] == If(c.done(j_), cl[E.nb[q][j_]], E.nb[q][j_])), v.nb[q][j_])))
    return out

def post(c):
    v = View(c, D); o = View(c.old(), D); npl = c.i("nplanes"); out = []
    out += [("clip result: " + n, f) for n, f in valid2(v.n, v.nb)]
    out.append(("clip result: vertex count within the buffer", And(v.n >= 0, v.n <= MX)))
    out.append(("clip result: every vertex is on the non-negative side of every plane", fa(u_, Implies(rng(0, u_, v.n), Implies(o.n > 0, SD(QP)([a[u_] for a in v.pos]) >= 0)))))
    out.append(("clip result: every vertex is inside the hull of the input", fa(u_, Implies(rng(0, u_, v.n), HF([a[u_] for a in v.pos]) >= 0))))
    if "planes.exit" in c.st.labels:
        out.append(("clip result: a vertex inside all half-planes is retained", tracked(c, v)))
    elif "planes.head" in c.st.labels:
        h = c.at("planes.head"); H = View(h, D); p = h.lvof("planes")
        out.append(("emptied only if no vertex is strictly inside the half-plane", And(v.n == 0, rng(0, p, npl), fa(u_, Implies(rng(0, u_, H.n), SD(p)([a[u_] for a in H.pos]) <= 0)))))
    else:
        out.append(("an empty polygon is left alone", And(o.n <= 0, v.n == o.n)))
    return out

LOOPS = [Loop("planes", planes_inv, ghost=planes_ghost, ghost_init=lambda c: {"trk": U0}, step=planes_step, children=[
    Loop("dist", dist_inv, lemma=dist_lemma, ghost=dist_ghost, ghost_init=lambda c: {"wmx": I(-1)}),
    Loop("insert", ins_inv, lemma=ins_lemma, cuts=ins_cuts, head_lemma=ins_room),
    Loop("relink", relink_inv, ghost_init=relink_ghosts, pre_lemma=relink_lemma, children=[Loop("walk", walk_inv, exit_cuts=walk_exit, decreases=lambda c: c.g("R")[c.i("vcur")])]),
    Loop("compress", comp_inv, ghost=comp_ghost, ghost_init=lambda c: {"src": fresh(z3.ArraySort(Int, Int), "gh_src")}),
    Loop("reindex", reidx_inv)])]
FNS = [Fn("r2d_clip", "src/r2d.c", params={"poly": "obj", "planes": ("arr", lambda b: b["nplanes"]), "nplanes": "scalar"}, pre=pre, post=post, loops=LOOPS)]

CHAIN = "chain lemma: a finite injective partial map splits into chains from its starts to its ends and cycles (proved in Lean, lean/Chain.lean, re-checked on every run); trusted: its instantiation at the relink loop in the form of ghost functions O, R, F, G over vertex indices; its hypotheses are obligations"
prop("C01", fns=FNS, lemmas=lemma_cut(2), rt=[("p_clip.c", "clip2")], lean=[("Chain.lean", ["Chain.chain"])], trusted=[CHAIN],
     assumptions=["the vertex buffer has room for the cut vertices of every plane (r2d_clip has no capacity check)", "vertex coordinates give |signed distance| < 1e30 (initial value of the running extremes)"])
