"""C15, C20: r2d_is_good, r3d_is_good, rNd_is_good.

CNT(k,x)   number of links to x from the vertices below k (defined by its recursion)
REACH(a,b) b can be reached from a along links: the least relation that is reflexive and closed under links
ZC(A)      number of zero entries of A among the vertices (a finite count)
A query is an arbitrary pair of vertices VA < VB, arbitrary X, Y in the same component, and an arbitrary vertex set SS
that no link enters or leaves except at VA and VB: the graph stays connected without VA and VB iff SS cannot separate X from Y."""
from .polyops import *
CNT, REACH = z3.Function("CNT", Int, Int, Int), z3.Function("REACH", Int, Int, z3.BoolSort())
AI = z3.ArraySort(Int, Int); ZC = z3.Function("ZC", AI, Int)
VA, VB, VC, X, Y, ROOT = z3.Ints("VA VB VC X Y ROOT"); CUT = [VA, VB, VC]; SS = z3.Const("SS", z3.ArraySort(Int, z3.BoolSort()))
k_ = z3.Int("k")

def nbs(c, D): return [c.m("poly.verts.pnbrs.%d" % q) for q in range(D)]
def nv(c): return zi(c.m("poly.nverts"))
def local(nb, n, w):
    x = [a[w] for a in nb]; D = len(nb)
    return And(*[x[i] != x[j] for i in range(D) for j in range(i)], *[y != w for y in x], *[rng(0, y, n) for y in x])
def cnt_step(c, D): nb = nbs(c, D); return [fa(u_, CNT(c.lv + 1, u_) == sum([If(a[c.lv] == u_, 1, 0) for a in nb], CNT(c.lv, u_)), CNT(c.lv + 1, u_)), Implies(rng(0, c.lv, nv(c)), And(*[CNT(c.lv + 1, sel(a, c.lv)) >= 0 for a in nb]) == And(*[CNT(c.lv + 1, sel(a, c.lv)) >= 0 for a in nb]))]
def make(D):
    MX = MAXV[D]
    def pre(c): return [("vertex count within the buffer", nv(c) <= MX), ("no links from no vertices", fa(u_, CNT(0, u_) == 0, CNT(0, u_)))]
    def ginv(c):
        """shape facts about the whole polytope known after the counting loops"""
        nb, n = nbs(c, D), nv(c)
        return [("links of every vertex are sound", fa(u_, Implies(rng(0, u_, n), local(nb, n, u_)), *[a[u_] for a in nb])), ("every vertex has as many links to it as from it", fa(u_, Implies(rng(0, u_, n), CNT(n, u_) == D), CNT(n, u_)))]
    def count(c):
        nb, n, v = nbs(c, D), nv(c), c.m("vct")
        return [("counter", c.counter_range(0, n)), ("links counted so far", fa(u_, Implies(rng(0, u_, MX), v[u_] == CNT(c.lv, u_)), v[u_])),
                ("links of the vertices seen are sound", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), local(nb, n, u_)), *[a[u_] for a in nb]))]
    def check(c):
        n = nv(c)
        return [("counter", c.counter_range(0, n)), ("vertices seen have as many links to them as from them", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), CNT(n, u_) == D), CNT(n, u_), c.m("vct")[u_]))]
    def unchanged(c): return [("the polytope is unchanged", And(nv(c) == nv(c.old()), *[a == b for a, b in zip(nbs(c, D), nbs(c.old(), D))]))]
    def post(c):
        nb, n, r = nbs(c, D), nv(c), zi(c.ret); L = c.st.labels; out = unchanged(c)
        out.append(("the result is 0 or 1", Or(r == 0, r == 1)))
        bad_local = Not(fa(u_, Implies(rng(0, u_, n), local(nb, n, u_)), nb[0][u_])); bad_count = Not(fa(u_, Implies(rng(0, u_, n), CNT(n, u_) == D), CNT(n, u_)))
        if D == 4 and "seen.head" in L and "subs.exit" not in L:
            sb, R, M = sub(c), c.m("regions"), c.m("vct"); s = c.at("fill2.entry").i("vc"); v = c.lvof("seen"); root = c.g("RT")[R[sb[0]]]
            out.append(("rejected: three vertices separate two others of their component", Implies(r == 0, And(0 <= sb[0], sb[0] < sb[1], sb[1] < sb[2], sb[2] < n, rng(0, s, n), rng(0, v, n), *[And(s != w, v != w) for w in sb], rng(0, root, n), *[REACH(root, w) for w in sb + [s, v]]))))
            out.append(("rejected: no link crosses from one side to the other", Implies(r == 0, And(M[s] != 0, M[v] == 0, fa(u_, Implies(And(rng(0, u_, n), *[u_ != w for w in sb], M[u_] != 0), And(*[Or(*[a[u_] == w for w in sb], M[a[u_]] != 0) for a in nb])), nb[0][u_])))))
        elif D == 3 and "seen.head" in L and "pairs.exit" not in L:
            va, vb, R, M = c.lvof("pairs"), c.lvof("second"), c.m("regions"), c.m("vct"); s = c.at("fill2.entry").i("vc"); v = c.lvof("seen"); root = c.g("RT")[R[va]]
            out.append(("rejected: two vertices separate two others of their component", Implies(r == 0, And(rng(0, va, n), va < vb, vb < n, rng(0, s, n), rng(0, v, n), s != va, s != vb, v != va, v != vb, rng(0, root, n), *[REACH(root, w) for w in (va, vb, s, v)]))))
            out.append(("rejected: no link crosses from one side to the other", Implies(r == 0, And(M[s] != 0, M[v] == 0, fa(u_, Implies(And(rng(0, u_, n), u_ != va, u_ != vb, M[u_] != 0), And(*[Or(a[u_] == va, a[u_] == vb, M[a[u_]] != 0) for a in nb])), nb[0][u_])))))
        else: out.append(("rejected only if some links are unsound or some vertex has the wrong number of links to it", Implies(r == 0, Or(bad_local, bad_count))))
        out.append(("accepted: links of every vertex are in range, distinct and not to itself", Implies(And(r == 1, rng(0, U, n)), local(nb, n, U))))
        out.append(("accepted: every vertex has as many links to it as from it", Implies(And(r == 1, rng(0, U, n)), CNT(n, U) == D)))
        if D == 4: out.append(("accepted: no three vertices separate their component", Implies(And(r == 1, query(c)), SS[X] == SS[Y])))
        if D == 3: out.append(("accepted: no two vertices separate their component", Implies(And(r == 1, query(c)), SS[X] == SS[Y])))
        return out
    def query(c):
        nb, n = nbs(c, D), nv(c)
        if D == 4: return And(0 <= VA, VA < VB, VB < VC, VC < n, rng(0, X, n), rng(0, Y, n), rng(0, ROOT, n), *[And(*[a != w for w in CUT]) for a in (X, Y)], *[REACH(ROOT, w) for w in CUT + [X, Y]],
                   fa(u_, Implies(And(rng(0, u_, n), *[u_ != w for w in CUT]), And(*[Or(*[a[u_] == w for w in CUT], SS[a[u_]] == SS[u_]) for a in nb])), *[a[u_] for a in nb]))
        return And(0 <= VA, VA < VB, VB < n, rng(0, X, n), rng(0, Y, n), rng(0, ROOT, n), *[And(a != VA, a != VB) for a in (X, Y)], *[REACH(ROOT, w) for w in (VA, VB, X, Y)],
                   fa(u_, Implies(And(rng(0, u_, n), u_ != VA, u_ != VB), And(*[Or(a[u_] == VA, a[u_] == VB, SS[a[u_]] == SS[u_]) for a in nb])), *[a[u_] for a in nb]))
    # ---- components
    def regs(c):
        nb, n, R, r = nbs(c, D), nv(c), c.m("regions"), c.i("rcur"); RT = c.g("RT")
        return [("range of component numbers", And(r >= 1, fa(u_, Implies(rng(0, u_, n), And(0 <= R[u_], R[u_] < r)), R[u_])))] + [
                ("components are closed, link %d" % q, fa(u_, Implies(And(rng(0, u_, n), R[u_] != 0), R[nb[q][u_]] == R[u_]), nb[q][u_])) for q in range(D)] + [
                ("every vertex of a component can be reached from its root", fa(u_, Implies(And(rng(0, u_, n), R[u_] != 0), And(rng(0, RT[R[u_]], n), REACH(RT[R[u_]], u_))), R[u_]))]
    def comps(c):
        n, R = nv(c), c.m("regions")
        return [("counter", c.counter_range(0, n))] + regs(c) + [("vertices seen have a component", fa(u_, Implies(And(rng(0, u_, n), c.done(u_)), R[u_] != 0), R[u_]))]
    def cghost(c):
        h = c.at("comps.head"); r0, r1 = h.i("rcur"), c.i("rcur"); return {"RT": If(r1 == r0, c.g("RT"), z3.Store(c.g("RT"), r0, h.lv))}
    cghost.keys = ("RT",)
    def noenter(c):
        """counting lemma: if no link leaves a set and every vertex has as many links to it as from it, none enters it"""
        nb, n, R = nbs(c, D), nv(c), c.m("regions")
        reqs = [("no link leaves the components found so far (%d)" % q, fa(u_, Implies(And(rng(0, u_, n), R[u_] != 0), R[nb[q][u_]] != 0), nb[q][u_])) for q in range(D)] + ginv(c)
        facts = [fa(u_, Implies(And(rng(0, u_, n), R[nb[q][u_]] != 0), R[u_] != 0), nb[q][u_]) for q in range(D)]
        return reqs, facts
    def zfacts(n, A, i, x):
        return [And(0 <= ZC(A), ZC(A) <= n), Implies(And(rng(0, i, n), sel(A, i) == 0, x != 0), And(ZC(A) >= 1, ZC(z3.Store(A, i, x)) == ZC(A) - 1))]
    def onstack(c, y):
        P, S, h = c.g("P"), c.m("stack"), c.i("nvstack"); return And(0 <= P[y], P[y] < h, S[P[y]] == y)
    def fghost(lab):
        def g(c):
            h0 = c.at(lab + ".head"); P, S, n0, n1 = c.g("P"), c.m("stack"), h0.i("nvstack"), c.i("nvstack"); Q = P
            for i in range(D): Q = z3.Store(Q, S[n0 - 1 + i], n0 - 1 + i)
            return {"P": If(n1 == n0 - 1, P, Q)}
        g.keys = ("P",); return g
    def fginit(c): return {"P": z3.Store(fresh(AI, "gh_P"), c.m("stack")[0], 0)}
    def fill1(c):
        nb, n, R, S, h, r = nbs(c, D), nv(c), c.m("regions"), c.m("stack"), c.i("nvstack"), c.i("rcur"); e = c.at("fill1.entry"); E = e.m("regions"); V = c.lvof("comps")
        return [("stack height", And(0 <= h, h <= 1 + (D - 1) * (ZC(E) - ZC(R)), 0 <= ZC(R))), ("component number", r == e.i("rcur")),
                ("stack entries are vertices reached from the root", fa(k_, Implies(rng(0, k_, h), And(rng(0, S[k_], n), REACH(V, S[k_]))), S[k_])),
                ("only vertices reached from the root join the component", fa(u_, Implies(rng(0, u_, n), Or(R[u_] == E[u_], And(E[u_] == 0, R[u_] == r, REACH(V, u_)))), R[u_], E[u_])),
                ("the root is in the component or waiting", Or(R[V] == r, And(h >= 1, onstack(c, V))))] + [
                ("neighbour %d of a vertex of the component is in it or waiting" % q, fa(u_, Implies(And(rng(0, u_, n), R[u_] == r), Or(R[nb[q][u_]] == r, And(onstack(c, nb[q][u_]), E[nb[q][u_]] == 0))), nb[q][u_])) for q in range(D)]
    def head1(c):
        n, R, S, h = nv(c), c.m("regions"), c.m("stack"), c.i("nvstack"); nb = nbs(c, D); w = sel(S, h - 1); V = c.lvof("comps")
        return zfacts(n, R, w, c.i("rcur")) + [Implies(And(h > 0, rng(0, w, n), REACH(V, w)), And(*[REACH(V, sel(a, w)) for a in nb]))]
    def pre1(c): V = c.lvof("comps"); r, f = noenter(c); return r, f + [REACH(V, V), And(0 <= ZC(c.m("regions")), ZC(c.m("regions")) <= nv(c))]
    F1 = Loop("fill1", fill1, ghost=fghost("fill1"), ghost_init=fginit, head_lemma=head1, pre_lemma=pre1, decreases=lambda c: (D + 1) * ZC(c.m("regions")) + c.i("nvstack"))
    # ---- pairs
    def minimal(c):
        """induction principle of REACH for the relation 'same component number'"""
        nb, n, R = nbs(c, D), nv(c), c.m("regions")
        return ([("linked vertices have the same component number (%d)" % q, fa(u_, Implies(rng(0, u_, n), R[nb[q][u_]] == R[u_]), nb[q][u_])) for q in range(D)] + ginv(c),
                [Implies(And(rng(0, ROOT, n), rng(0, w, n), REACH(ROOT, w)), R[w] == R[ROOT]) for w in CUT[:D - 1] + [X, Y]])
    def concl(c): return Implies(query(c), SS[X] == SS[Y])
    def pairs(c): n = nv(c); return [("counter", c.counter_range(0, n)), ("first vertices seen", Implies(c.done(VA), concl(c)))]
    def second(c): va = c.lvof("pairs"); n = nv(c); return [("counter", c.counter_range(va + 1, n)), ("component number", c.i("rcur") == c.m("regions")[va]), ("second vertices seen", Implies(And(va == VA, c.done(VB)), concl(c)))]
    def sub(c): return [c.m("subset.%d" % i) for i in range(3)]
    def cut(c): return [zi(x) for x in sub(c)] if D == 4 else [c.lvof("pairs"), c.lvof("second")]
    def subs(c):
        a = [zi(x) for x in sub(c)]; n = nv(c)
        return [("subset in increasing order", And(0 <= a[0], a[0] < a[1], a[1] < a[2], a[2] <= If(n < 2, 2, n))), ("subsets seen", Implies(Or(VC < a[2], And(VC == a[2], VB < a[1]), And(VC == a[2], VB == a[1], VA < a[0])), concl(c)))]
    def find(c):
        nb, n, R = nbs(c, D), nv(c), c.m("regions"); mk = cut(c); va = mk[0]; r = R[va]
        return [("counter", c.counter_range(0, n)), ("neighbours of the first vertex", And(r == c.i("rcur"), local(nb, n, va), *[R[a[va]] == r for a in nb])), ("no third vertex yet", fa(u_, Implies(And(rng(0, u_, n), c.done(u_), R[u_] == r), Or(*[u_ == w for w in mk])), R[u_]))]
    def find_exit(c): return [("there is another vertex in the component", And(rng(0, c.i("vc"), nv(c)), c.m("regions")[c.i("vc")] == c.i("rcur"), *[c.i("vc") != w for w in cut(c)]))]
    def here(c): return And(*[a == b for a, b in zip(cut(c), CUT)])
    def fill2(c):
        nb, n, R, S, h, r, M = nbs(c, D), nv(c), c.m("regions"), c.m("stack"), c.i("nvstack"), c.i("rcur"), c.m("vct"); e = c.at("fill2.entry"); s = e.i("vc"); mk = cut(c)
        same = lambda y: Implies(And(here(c), query(c)), SS[y] == SS[s]); E = e.m("vct")
        return [("stack height", And(0 <= h, h <= 1 + (D - 1) * (ZC(E) - ZC(M)), 0 <= ZC(M))), ("the removed vertices are marked", And(*[M[w] != 0 for w in mk])),
                ("stack entries are vertices of the component on the side of the start", fa(k_, Implies(rng(0, k_, h), And(rng(0, S[k_], n), R[S[k_]] == r, Or(*[S[k_] == w for w in mk], same(S[k_])))), S[k_])),
                ("marked vertices are in the component on the side of the start", fa(u_, Implies(And(rng(0, u_, n), M[u_] != 0), Or(*[u_ == w for w in mk], And(R[u_] == r, same(u_)))), M[u_])),
                ("the start is marked or waiting", Or(M[s] != 0, And(h >= 1, onstack(c, s))))] + [
                ("neighbour %d of a marked vertex is marked or waiting" % q, fa(u_, Implies(And(rng(0, u_, n), M[u_] != 0, *[u_ != w for w in mk]), Or(M[nb[q][u_]] != 0, onstack(c, nb[q][u_]))), nb[q][u_])) for q in range(D)]
    def head2(c): n, M, S, h = nv(c), c.m("vct"), c.m("stack"), c.i("nvstack"); w = sel(S, h - 1); return zfacts(n, M, w, I(1))
    def pre2(c): return [], [And(0 <= ZC(c.m("vct")), ZC(c.m("vct")) <= nv(c))]
    F2 = Loop("fill2", fill2, ghost=fghost("fill2"), ghost_init=fginit, head_lemma=head2, pre_lemma=pre2, decreases=lambda c: (D + 1) * ZC(c.m("vct")) + c.i("nvstack"))
    def seen(c):
        n, R, M, r = nv(c), c.m("regions"), c.m("vct"), c.i("rcur")
        return [("counter", c.counter_range(0, n)), ("vertices of the component seen are marked", fa(u_, Implies(And(rng(0, u_, n), c.done(u_), R[u_] == r), M[u_] != 0), M[u_], R[u_]))]
    lo = [Loop("count", count, head_lemma=lambda c: cnt_step(c, D)), Loop("check", check)]
    if D == 4: lo += [Loop("comps", comps, ghost=cghost, ghost_init=lambda c: {"RT": fresh(AI, "gh_RT")}, children=[F1]),
                      Loop("subs", subs, pre_lemma=minimal, children=[Loop("find", find, exit_cuts=find_exit), F2, Loop("seen", seen)])]
    if D == 3: lo += [Loop("comps", comps, ghost=cghost, ghost_init=lambda c: {"RT": fresh(AI, "gh_RT")}, children=[F1]),
                      Loop("pairs", pairs, pre_lemma=minimal, children=[Loop("second", second, children=[Loop("find", find, exit_cuts=find_exit), F2, Loop("seen", seen)])])]
    return Fn({2: "r2d_is_good", 3: "r3d_is_good", 4: "rNd_is_good"}[D], {2: "src/r2d.c", 3: "src/r3d.c", 4: "src/rNd.c"}[D], params={"poly": "obj"}, pre=pre, post=post, loops=lo)
FNS = [make(2), make(3), make(4)]
ASM = ["reachability is the least relation that is reflexive and closed under links: its induction principle is instantiated once, for 'same component number'",
       "the counting lemmas (lean/Count.lean) are instantiated by hand at the flood fills: a set that no link leaves is not entered either; marking a vertex lowers the number of unmarked ones by one"]
LEAN = [("Count.lean", ["no_enter", "zeros_store", "zeros_le"])]
prop("C15", fns=FNS[:2], rt=[("p_good.c", "good2"), ("p_good.c", "good3")], lean=LEAN, assumptions=ASM)
prop("C20", fns=FNS[2:], rt=[("p_good.c", "goodN")], lean=LEAN, assumptions=ASM + ["dimension 4 (RND_DIM as configured)"])
