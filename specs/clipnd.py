"""C03: rNd_clip at RND_DIM = 4, one invariant per loop. The loop which closes off the new 2-faces is an assumed
loop contract: its frame is computed from its body, its effect on the new vertices' links is not proved (driver clipN
decides it in bounds)."""
from .polyops import *
D = 4
SD = lambda q: (lambda P: SDF[4](q, *P))
HF = lambda P: HFF[4](*P)
MX = MAXV[4]
def sd_def(c, q, P):
    return SDF[4](q, *P) == sum([P[k] * sel(c.m("planes.n.%d" % k), q) for k in range(D)], sel(c.m("planes.d"), q))
pos_at = lambda v, u: [a[u] for a in v.pos]
distinct = lambda nb, u: And(*[nb[i][u] != nb[j][u] for i in range(D) for j in range(i)])
def valid4(n, nb): return [("neighbour %d is in range and links back" % q, fa(u_, Implies(rng(0, u_, n), And(rng(0, nb[q][u_], n), back(nb, nb[q][u_], u_))), nb[q][u_])) for q in range(D)]
def simple4(n, nb): return [("the neighbours of every vertex are distinct", fa(u_, Implies(rng(0, u_, n), distinct(nb, u_)), *[a[u_] for a in nb]))]

def pre(c):
    v = View(c, D); npl = c.i("nplanes"); P0 = v.p(U0)
    return [("vertex count within the buffer", And(v.n >= 0, v.n <= MX)), ("plane count", npl >= 0)] + valid4(v.n, v.nb) + simple4(v.n, v.nb) + [
        ("every vertex is on the non-negative side of an arbitrary functional", fa(u_, Implies(rng(0, u_, v.n), HF(pos_at(v, u_)) >= 0), v.pos[0][u_])),
        ("arbitrary plane", rng(0, QP, npl)),
        ("tracked vertex", Implies(TRK, And(rng(0, U0, v.n), fa(q_, Implies(rng(0, q_, npl), SD(q_)(P0) >= 0), SD(q_)(P0)))))]

# ---- planes
def tracked(c, v):
    t = c.g("trk"); P0 = View(c.old(), D).p(U0)
    return Implies(TRK, And(rng(0, t, v.n), *[v.pos[k][t] == P0[k] for k in range(D)]))
def planes_inv(c):
    v = View(c, D); npl = c.i("nplanes")
    return [("plane counter", c.counter_range(0, npl)), ("vertex count", And(v.n >= 0, v.n <= MX))] + valid4(v.n, v.nb) + [
        ("no vertex beyond a plane already applied", fa(u_, Implies(And(rng(0, u_, v.n), c.done(QP)), SD(QP)(pos_at(v, u_)) >= 0), v.pos[0][u_])),
        ("no vertex outside the hull of the input", fa(u_, Implies(rng(0, u_, v.n), HF(pos_at(v, u_)) >= 0), v.pos[0][u_])),
        ("a vertex inside all half-spaces is retained", tracked(c, v))]
def planes_head(c):
    v = View(c, D); return [f for _, f in simple4(v.n, v.nb)]
def planes_ghost(c):
    if "reindex.exit" in c.st.labels: return {"trk": sel(c.m("clipped"), c.g("trk"))}
    return {"trk": c.g("trk")}
planes_ghost.keys = ("trk",)
def planes_step(c):
    h = c.at("planes.head"); H, v = View(h, D), View(c, D); p = h.lv
    if "reindex.exit" not in c.st.labels:
        if "insert.exit" in c.st.labels: return []
        return [("nothing changes when no vertex is clipped", And(v.n == H.n, *[a == b for a, b in zip(v.nb + v.pos, H.nb + H.pos)])),
                ("a plane is skipped only if every vertex is on its non-negative side", fa(u_, Implies(rng(0, u_, H.n), And(c.m("sdists")[u_] >= 0, SD(p)(pos_at(H, u_)) >= 0))))]
    r = c.m("clipped"); s = lambda u: SD(p)(pos_at(H, u)); K = lambda u: s(u) >= 0
    src = c.g("src"); out = []; U = u_
    w = c.g("wmx"); out.append(("a vertex strictly inside exists when the plane is cut (otherwise the result is empty)", And(rng(0, w, H.n), c.m("sdists")[w] > 0, s(w) > 0)))
    out.append(("every kept vertex survives at its position", fa(U, Implies(And(rng(0, U, H.n), K(U)), And(rng(0, r[U], v.n), *[v.pos[k][r[U]] == H.pos[k][U] for k in range(D)])))))
    for q in range(D):
        x = H.nb[q][U]
        out.append(("an uncut edge keeps its slot %d link" % q, fa(U, Implies(And(rng(0, U, H.n), K(U), K(x)), v.nb[q][r[U]] == r[x]))))
        t = v.nb[q][r[U]]
        out.append(("a cut edge ends at its cut point (slot %d)" % q, fa(U, Implies(And(rng(0, U, H.n), K(U), Not(K(x))),
                   And(rng(0, t, v.n), v.nb[0][t] == r[U], *[v.pos[k][t] == LKF(H.pos[k][U], H.pos[k][x], s(U), s(x)) for k in range(D)])))))
    J = j_; a0 = src[J]; E = View(c.at("insert.exit"), D); o = E.nb[0][a0]
    out.append(("every vertex of the result is a kept vertex or the cut point of a bisected edge", fa(J, Implies(rng(0, J, v.n),
               Or(And(rng(0, a0, H.n), K(a0), r[a0] == J), And(rng(0, o, H.n), K(o), Or(*[And(Not(K(H.nb[q][o])), v.nb[q][r[o]] == J) for q in range(D)])))))))
    return out

# ---- dist
def dist_inv(c):
    h = c.at("planes.head"); H = View(h, D); n = H.n; p = h.lvof("planes"); s, cl = c.m("sdists"), c.m("clipped")
    smin, smax = c.r("smin"), c.r("smax")
    w = c.g("wmx")
    return [("counter", c.counter_range(0, n)),
            ("the largest signed distance is attained", Or(smax == R("-1000000000000000000000000000000"), And(rng(0, w, n), c.done(w), s[w] == smax))),
            ("signed distance, extremes and flag of every processed vertex", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)),
                And(s[u_] == SD(p)(pos_at(H, u_)), smin <= s[u_], s[u_] <= smax, cl[u_] == If(s[u_] < 0, I(1), I(0)))), s[u_], cl[u_], H.pos[0][u_])),
            ("other vertices are not flagged", fa(u_, Implies(And(rng(0, u_, MX), Not(And(rng(0, u_, n), c.done(u_)))), cl[u_] == 0), cl[u_]))]
def dist_ghost(c):
    h = c.at("dist.head"); w = c.g("wmx"); return {"wmx": If(c.r("smax") == h.r("smax"), w, h.lv)}
dist_ghost.keys = ("wmx",)
def dist_lemma(c):
    h = c.at("planes.head"); H = View(h, D); p = h.lvof("planes"); w = c.at("dist.head").lv
    return [sd_def(c, p, H.p(w))]

# ---- insert
def ins_inv(c):
    e = c.at("insert.entry"); E, v = View(e, D), View(c, D); onv, N = E.n, v.n; s, cl = c.m("sdists"), c.m("clipped")
    p = c.lvof("planes")
    out = [("counter", c.counter_range(0, onv)), ("count", And(onv <= N, N <= MX))]
    for q in range(D):
        x = E.nb[q][u_]; m = v.nb[q][u_]
        out.append(("slot %d links of old vertices" % q, fa(u_, Implies(rng(0, u_, onv), If(And(c.done(u_), cl[u_] == 0, cl[x] != 0),
            And(rng(onv, m, N), v.nb[0][m] == u_, *[v.pos[k][m] == LKF(E.pos[k][u_], E.pos[k][x], s[u_], s[x]) for k in range(D)]), m == x)), v.nb[q][u_], E.nb[q][u_])))
    out.append(("neighbours of old vertices stay distinct", fa(u_, Implies(rng(0, u_, onv), distinct(v.nb, u_)), *[a[u_] for a in v.nb])))
    a = v.nb[0][m_]
    out.append(("owner of a cut vertex", fa(m_, Implies(rng(onv, m_, N), And(rng(0, a, onv), c.done(a), cl[a] == 0, Or(*[And(v.nb[q][a] == m_, cl[E.nb[q][a]] != 0) for q in range(D)]))), v.nb[0][m_])))
    P = pos_at(v, m_)
    out.append(("cut vertices lie on the plane, inside earlier planes and inside the input", fa(m_, Implies(rng(onv, m_, N),
        And(SD(p)(P) == 0, HF(P) >= 0, Implies(c.doneof("planes", QP), SD(QP)(P) >= 0))), *[v.pos[k][m_] for k in range(D)])))
    out.append(("old positions", fa(u_, Implies(rng(0, u_, onv), And(*[v.pos[k][u_] == E.pos[k][u_] for k in range(D)])), *[v.pos[k][u_] for k in range(D)])))
    return out
def edges_of(c, lab="insert"):
    h = c.at(lab + ".head"); E = View(c.at(lab + ".entry"), D); w = h.lv; s, cl = c.m("sdists"), c.m("clipped")
    for q in range(D):
        x = sel(E.nb[q], w); yield q, w, x, E.p(w), E.p(x), sel(s, w), sel(s, x), sel(cl, w), sel(cl, x)
def ins_lemma(c):
    p = c.lvof("planes"); out = []
    for q, w, x, A, B, sa, sb, ca, cb in edges_of(c): out += cut_facts([HF, SD(QP)], A, B, sa, sb, SD(p))
    return out
def ins_cuts(c):
    v = View(c, D); out = []; p = c.lvof("planes")
    for q, w, x, A, B, sa, sb, ca, cb in edges_of(c):
        out.append(("flags of the endpoints", And(Implies(ca == 0, And(sa >= 0, SD(p)(A) == sa)), Implies(cb != 0, And(sb < 0, SD(p)(B) == sb)))))
        hp = View(c.at("insert.head"), D); N0 = hp.n
        out.append(("positions of the endpoints", And(w < N0, x < N0, hp.nb[q][w] == x, *([hp.pos[k][w] == A[k] for k in range(D)] + [hp.pos[k][x] == B[k] for k in range(D)]))))
        new = sel(v.nb[q], w)
        for k in range(D):
            out.append(("coordinate %d of the cut point of edge %d" % (k, q), Implies(And(ca == 0, cb != 0), sel(v.pos[k], new) == cutdef(A[k], B[k], sa, sb))))
    return out

def ins_room(c):
    E, v = View(c.at("insert.entry"), D), View(c, D); w = c.lv; cl = c.m("clipped")
    return [v.n + sum([If(And(cl[w] == 0, cl[E.nb[q][w]] != 0), 1, 0) for q in range(D)]) <= MX]

# ---- closing the new 2-faces (assumed)
def close_inv(c):
    e = c.at("close.entry"); E, v = View(e, D), View(c, D); N = E.n; onv = View(c.at("insert.entry"), D).n; out = []
    out.append(("count", v.n == N))
    for q in range(D): out.append(("old vertices keep slot %d" % q, fa(u_, Implies(rng(0, u_, onv), v.nb[q][u_] == E.nb[q][u_]), v.nb[q][u_])))
    out.append(("new vertices keep their first link", fa(m_, Implies(rng(onv, m_, N), v.nb[0][m_] == E.nb[0][m_]), v.nb[0][m_])))
    for q in range(1, D): t = v.nb[q][m_]; out.append(("slot %d of a new vertex leads to a new vertex that links back" % q, fa(m_, Implies(rng(onv, m_, N), And(rng(onv, t, N), Or(*[v.nb[b][t] == m_ for b in range(1, D)]))), t)))
    return out

# ---- compress / reindex
def comp_inv(c):
    e = c.at("compress.entry"); E, v = View(e, D), View(c, D); N = E.n; C0, cl = e.m("clipped"), c.m("clipped"); k = c.i("numunclipped"); src = c.g("src")
    same = lambda a, b, i, j: And(*[x[i] == y[j] for x, y in zip(a.nb + a.pos, b.nb + b.pos)])
    return [("counter", And(c.counter_range(0, N), 0 <= k, k <= c.lv)), ("count", v.n == N),
            ("new index of processed vertices", fa(u_, Implies(And(rng(0, u_, N), c.done(u_), C0[u_] == 0), And(rng(0, cl[u_], k), src[cl[u_]] == u_)), cl[u_], C0[u_])),
            ("other marks unchanged", fa(u_, Implies(And(rng(0, u_, N), Or(Not(c.done(u_)), C0[u_] != 0)), cl[u_] == C0[u_]), cl[u_], C0[u_])),
            ("moved vertices", fa(j_, Implies(rng(0, j_, k), And(rng(0, src[j_], N), c.done(src[j_]), C0[src[j_]] == 0, cl[src[j_]] == j_, same(v, E, j_, src[j_]))), src[j_], *[a[j_] for a in v.nb + v.pos])),
            ("unprocessed vertices", fa(u_, Implies(And(rng(0, u_, N), Not(c.done(u_))), same(v, E, u_, u_)), *[a[u_] for a in v.nb + v.pos]))]
def comp_ghost(c):
    h = c.at("compress.head"); k0, k1 = h.i("numunclipped"), c.i("numunclipped"); src = c.g("src")
    return {"src": If(k1 > k0, z3.Store(src, k0, h.lv), src)}
comp_ghost.keys = ("src",)
def reidx_inv(c):
    e = c.at("reindex.entry"); E, v = View(e, D), View(c, D); cl = c.m("clipped"); k = E.n
    return [("counter", c.counter_range(0, k)), ("count", v.n == k)] + [
        ("links %d" % q, fa(j_, Implies(rng(0, j_, k), v.nb[q][j_] == If(c.done(j_), cl[E.nb[q][j_]], E.nb[q][j_])), v.nb[q][j_])) for q in range(D)]

def close_exit(c):
    v = View(c, D); onv = View(c.at("insert.entry"), D).n; cl = c.m("clipped"); live = lambda u: And(rng(0, u, v.n), cl[u] == 0)
    return [("cut vertices are not flagged", fa(u_, Implies(rng(onv, u_, v.n), cl[u_] == 0), cl[u_]))] + [
            ("slot %d of a surviving vertex leads to a surviving vertex that links back" % q, fa(u_, Implies(live(u_), And(live(v.nb[q][u_]), back(v.nb, v.nb[q][u_], u_))), v.nb[q][u_])) for q in range(D)]
def reidx_exit(c):
    """where the cut point of a bisected edge has gone"""
    E, X, v = View(c.at("insert.entry"), D), View(c.at("insert.exit"), D), View(c, D); r, C0 = c.m("clipped"), c.at("compress.entry").m("clipped"); t = c.g("trk"); P0 = View(c.old(), D).p(U0)
    out = [("the tracked vertex is not flagged", Implies(TRK, And(rng(0, t, E.n), C0[t] == 0))), ("the tracked vertex moves with its position", Implies(TRK, And(rng(0, r[t], v.n), *[v.pos[k][r[t]] == P0[k] for k in range(D)])))] + valid4(v.n, v.nb)
    for q in range(D):
        m = X.nb[q][u_]; cond = And(rng(0, u_, E.n), C0[u_] == 0, C0[E.nb[q][u_]] != 0)
        for nm, f in (("is a new vertex", And(rng(E.n, m, X.n), C0[m] == 0, X.nb[0][m] == u_)), ("gets an index", And(rng(0, r[m], v.n), c.g("src")[r[m]] == m)), ("keeps its place", And(*[v.pos[k][r[m]] == X.pos[k][m] for k in range(D)])),
                      ("is what its owner is linked to", v.nb[q][r[u_]] == r[m]), ("is linked to its owner", v.nb[0][r[m]] == r[u_])):
            out.append(("cut point of slot %d %s" % (q, nm), fa(u_, Implies(cond, f), E.nb[q][u_], r[u_])))
    return out

def post(c):
    v = View(c, D); o = View(c.old(), D); npl = c.i("nplanes"); out = []; L = c.st.labels
    if "planes.entry" not in L: return [("an empty polytope is left alone", And(o.n <= 0, v.n == o.n))]
    out += [("clip result: " + n, f) for n, f in valid4(v.n, v.nb)]
    out.append(("clip result: vertex count within the buffer", And(v.n >= 0, v.n <= MX)))
    out.append(("clip result: every vertex is on the non-negative side of every hyperplane", fa(u_, Implies(rng(0, u_, v.n), SD(QP)(pos_at(v, u_)) >= 0))))
    out.append(("clip result: every vertex is inside the hull of the input", fa(u_, Implies(rng(0, u_, v.n), HF(pos_at(v, u_)) >= 0))))
    if "planes.exit" in L:
        out.append(("clip result: a vertex inside all half-spaces is retained", tracked(c, v)))
    else:
        h = c.at("planes.head"); H = View(h, D); p = h.lvof("planes")
        out.append(("emptied only if no vertex is strictly inside the half-space", And(v.n == 0, rng(0, p, npl), fa(u_, Implies(rng(0, u_, H.n), And(c.m("sdists")[u_] <= 0, SD(p)(pos_at(H, u_)) <= 0))))))
    return out

LOOPS = [Loop("planes", planes_inv, head_lemma=planes_head, ghost=planes_ghost, ghost_init=lambda c: {"trk": U0}, step=planes_step, children=[
    Loop("dist", dist_inv, lemma=dist_lemma, ghost=dist_ghost, ghost_init=lambda c: {"wmx": I(-1)}),
    Loop("insert", ins_inv, lemma=ins_lemma, cuts=ins_cuts, head_lemma=ins_room),
    Loop("close", lambda c: [], assumed=True, exit_lemma=lambda c: [f for _, f in close_inv(c)], exit_cuts=close_exit, children=[Loop("walk", lambda c: [])]),
    Loop("compress", comp_inv, ghost=comp_ghost, ghost_init=lambda c: {"src": fresh(z3.ArraySort(Int, Int), "gh_src")}),
    Loop("reindex", reidx_inv, exit_cuts=reidx_exit)])]
FNS = [Fn("rNd_clip", "src/rNd.c", params={"poly": "obj", "planes": ("arr", lambda b: b["nplanes"]), "nplanes": "scalar"}, pre=pre, post=post, loops=LOOPS)]

CLOSE = "assumed loop contract: the loop of rNd_clip which closes the new 2-faces leaves the links of old vertices and the first link of new ones alone and links the other slots of new vertices to new vertices, mutually (driver clipN, bounded); its frame is read off its text"
prop("C03", fns=FNS, lemmas=lemma_cut(4), rt=[("p_clip.c", "clipN")], bounded=[("p_clip.c", "clipN")], trusted=[CLOSE], budget=20.0,
     assumptions=["RND_DIM = 4", "the polytope has no doubled edges when each hyperplane is applied", "the vertex buffer has room for the cut vertices of every hyperplane (rNd_clip has no capacity check)", "distances are below 1e30 in magnitude (initial value of the running extremes)"])
