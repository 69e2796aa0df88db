"""C17, C18, C19: rasterize / voxelize over the contracts of split_coord / split (C04-C06) and reduce (C07, C08).

An arbitrary cell CELL of the grid and an arbitrary moment MT are tracked.
  MIN(P)      moment MT of the part of P inside CELL            MOM(P)   moment MT of P
  GE[a](P,x)  P lies in x_a >= x                                LE[a](P,x)
Every stack entry lies inside its index box; the moments of the stack entries inside CELL plus what
the grid cell has gained always add up to the moment of the input inside CELL."""
from .common import *
from .polyops import rng, fa, sel, u_
Bool = z3.BoolSort(); AR, AI = z3.ArraySort(Int, Real), z3.ArraySort(Int, Int)
CL = z3.Function("clog2", Int, Int)
PR = {2: "r2d", 3: "r3d", 4: "rNd"}; FILE = {2: "src/v2d.c", 3: "src/v3d.c", 4: "src/vNd.c"}
FUN = {2: "r2d_rasterize", 3: "r3d_voxelize", 4: "rNd_voxelize"}; SPLIT = {2: "r2d_split_coord", 3: "r3d_split_coord", 4: "rNd_split"}; RED = {d: PR[d] + "_reduce" for d in PR}
k_ = z3.Int("k")
CI = z3.Ints("CELL0 CELL1 CELL2 CELL3"); MT, NM, GL, XI = z3.Ints("MT NM GRIDLEN XI"); G = z3.Ints("G0 G1 G2 G3")

class W:
    def __init__(s, D):
        s.D = D; sig = [Int] + [AI] * D + [AR] * D
        s.ID = z3.Function("Polytope%d" % D, *sig, Int)        # a name for each polytope value
        s.mins, s.moms = z3.Function("MomIn%d" % D, Int, Real), z3.Function("Mom%d" % D, Int, Real)
        s.ge = [z3.Function("GE%d_%d" % (D, a), Int, Real, Bool) for a in range(D)]
        s.le = [z3.Function("LE%d_%d" % (D, a), Int, Real, Bool) for a in range(D)]
        s.co = [z3.Function("coordinate%d_%d" % (D, a), Int, Real) for a in range(D)]     # i -> d[a] * i
        s.MIN = lambda *P: s.mins(s.ID(*P)); s.MOM = lambda *P: s.moms(s.ID(*P))
        s.GE = [lambda *q, a=a: s.ge[a](s.ID(*q[:-1]), q[-1]) for a in range(D)]
        s.LE = [lambda *q, a=a: s.le[a](s.ID(*q[:-1]), q[-1]) for a in range(D)]
        s.n3 = "verts.pnbrs.%d"; s.ps = "verts.pos.%d"
    def pv(s, c, nm):
        return [zi(c.m(nm + ".nverts"))] + [c.m("%s.verts.pnbrs.%d" % (nm, q)) for q in range(s.D)] + [c.m("%s.verts.pos.%d" % (nm, a)) for a in range(s.D)]
    def row(s, c, k):
        """polytope in stack entry k"""
        return [sel(x, k) for x in [c.m("stack.poly.nverts")] + [c.m("stack.poly.verts.pnbrs.%d" % q) for q in range(s.D)] + [c.m("stack.poly.verts.pos.%d" % a) for a in range(s.D)]]
    def box(s, c, k): return [[sel(c.m("stack.ibox.%d.%d" % (b, a)), k) for a in range(s.D)] for b in range(2)]
    def ib(s, c): return [[zi(c.m("ibox.%d.%d" % (b, a))) for a in range(s.D)] for b in range(2)]
    def dd(s, c): return [zr(c.m("d.%d" % a)) for a in range(s.D)]
    def lin(s, ix):       # row-major index, Horner form
        r = ix[0]
        for a in range(1, s.D): r = r * G[a] + ix[a]
        return r
    def total(s):
        r = G[0]
        for a in range(1, s.D): r = r * G[a]
        return r
    def mo(s, c): return sel(c.m("moments"), MT) if s.D < 4 else zr(c.m("moments.0"))
    def gidx(s, ix, m): return NM * s.lin(ix) + m

class SplitC:
    """C04/C05/C06 as seen by a caller: the two parts make up the input, each on its side of the coordinate"""
    def __init__(s, w):
        s.w = w; s.name = SPLIT[w.D]; s.argnames = ["inpoly", "outpolys", "coord", "ax"]; s.derefs = {"low": ("outpolys", 0), "high": ("outpolys", 1)}; s.modifies = ["low", "high"]
    def call_pre(s, c): return [("axis", rng(0, c.i("ax"), s.w.D)), ("not empty", zi(c.m("inpoly.nverts")) > 0)]
    def call_post(s, c):
        w = s.w; P, L, H = w.pv(c.old(), "inpoly"), w.pv(c, "low"), w.pv(c, "high"); x = c.old().r("coord"); ax = c.old().i("ax"); y = z3.Real("y")
        out = [("moments add up", w.MIN(*P) == w.MIN(*L) + w.MIN(*H))]
        for a in range(w.D):
            out += [("low side %d" % a, Implies(ax == a, w.LE[a](*L, x))), ("high side %d" % a, Implies(ax == a, w.GE[a](*H, x)))]
            for F in (w.GE[a], w.LE[a]):
                for O in (L, H): out.append(("part of the input", fa(y, Implies(F(*P, y), F(*O, y)), F(*O, y))))
        return out
class ReduceC:
    def __init__(s, w): s.w = w; s.name = RED[w.D]; s.argnames = ["poly", "moments", "polyorder"]; s.arrargs = ("moments",); s.modifies = ["moments"]
    def call_pre(s, c): return [("order", c.i("polyorder") == z3.Int("ORDER")), ("polytope not empty", zi(c.m("poly.nverts")) > 0)]
    def call_post(s, c): return [("moment", Implies(rng(0, MT, NM), s.w.mo(c) == s.w.MOM(*s.w.pv(c, "poly"))))]

def idx_lemmas():
    i, j, i2, j2, I_, J_ = z3.Ints("i j i2 j2 I J")
    a, b = rng(0, i, I_), rng(0, j, J_)
    return [Lemma("row-major index is in range", [a, b, (i + 1) * J_ <= I_ * J_], And(0 <= i * J_ + j, i * J_ + j < I_ * J_)),
            Lemma("row-major index: monotone product", [i + 1 <= I_, J_ > 0], (i + 1) * J_ <= I_ * J_),
            Lemma("row-major index: lower bound", [0 <= i, 0 <= j, J_ > 0], 0 <= i * J_ + j),
            Lemma("row-major index is injective", [rng(0, j, J_), rng(0, j2, J_), i * J_ + j == i2 * J_ + j2, Or(i == i2, (i + 1) * J_ <= i2 * J_, (i2 + 1) * J_ <= i * J_)], And(Implies(i == i2, j == j2), i == i2)),
            Lemma("row-major index: distinct rows", [J_ > 0, i + 1 <= i2], (i + 1) * J_ <= i2 * J_)]
def idx_facts(pairs, J_, I_=None):
    """instances: pairs = [(i,j),(i2,j2)]"""
    (i, j), (i2, j2) = pairs; out = []
    if I_ is not None:
        for x, y in pairs: out.append(Implies(And(rng(0, x, I_), rng(0, y, J_)), And(0 <= x * J_ + y, x * J_ + y < I_ * J_)))
    out.append(Implies(And(rng(0, j, J_), rng(0, j2, J_), i * J_ + j == i2 * J_ + j2), And(i == i2, j == j2)))
    return out
def all_idx_facts(w, ix, m):
    out = []; h, t, tot = ix[0], CI[0], G[0]
    for a in range(1, w.D):
        out += idx_facts([(h, ix[a]), (t, CI[a])], G[a], tot); h, t, tot = h * G[a] + ix[a], t * G[a] + CI[a], tot * G[a]
    return out + idx_facts([(h, m), (t, MT)], NM, tot)

def make(D):
    w = W(D)
    def pre(c):
        ib, d, o = w.ib(c), w.dd(c), c.i("polyorder"); P = w.pv(c, "poly"); out = []
        for a in range(D):
            out += [("spacing is positive, axis %d" % a, d[a] > 0), ("tracked cell, axis %d" % a, Implies(G[a] > 0, rng(0, CI[a], G[a]))),
                    ("the polytope lies inside the index box, axis %d" % a, And(w.GE[a](*P, d[a] * zr(ib[0][a])), w.LE[a](*P, d[a] * zr(ib[1][a]))))]
        out += [("coordinate of an index", And(*[w.co[a](ib[b][a]) == d[a] * zr(ib[b][a]) for a in range(D) for b in range(2)]))]
        out += [("order", And(o >= 0, o == z3.Int("ORDER"))), ("number of moments", {2: 2 * NM == (o + 1) * (o + 2), 3: 6 * NM == (o + 1) * (o + 2) * (o + 3), 4: NM == 1}[D]), ("at least one moment", NM >= 1), ("tracked moment", rng(0, MT, NM)),
                ("the destination grid holds all moments of all cells", GL >= w.total() * NM), ("an element beyond the grid", And(w.total() * NM <= XI, XI < GL)), ("log2 of a positive size is not negative", And(*[Implies(G[a] >= 1, CL(G[a]) >= 0) for a in range(D)])), ("grid size positive or nothing to do", Implies(And(*[G[a] > 0 for a in range(D)]), w.total() >= 1))]
        if D == 4:
            t = G[0]
            for a in range(1, D): out.append(("log2 of a product", Implies(And(t >= 1, G[a] >= 1), And(t * G[a] >= 1, CL(t) + CL(G[a]) <= CL(t * G[a]) + 1, CL(t * G[a]) >= 0)))); t = t * G[a]
        return out
    def lohi(c): ib, d = w.ib(c.old()), w.dd(c.old()); return [(d[a] * zr(ib[0][a] + CI[a]), d[a] * zr(ib[0][a] + CI[a] + 1)) for a in range(D)]
    IDX = lambda c: NM * w.lin(CI[:D]) + MT
    def rank(c, k): B = w.box(c, k); return sum([CL(B[1][a] - B[0][a]) for a in range(1, D)], CL(B[1][0] - B[0][0]))
    def size(c, k, a): B = w.box(c, k); return B[1][a] - B[0][a]
    RT = sum([CL(G[a]) for a in range(1, D)], CL(G[0]))
    def entry(c, k):
        """what is known of stack entry k"""
        P = c.g("PG")[k]; B, ib, d = w.box(c, k), w.ib(c.old()), w.dd(c.old()); out = []
        for a in range(D):
            out += [ib[0][a] <= B[0][a], B[1][a] <= ib[1][a], B[0][a] + 1 <= B[1][a]]
            out += [w.ge[a](P, w.co[a](B[0][a])), w.le[a](P, w.co[a](B[1][a]))]
        return out
    def inv(c):
        c0 = c.old(); n = c.i("nstack"); T = c.g("T"); g, g0 = c.m("dest_grid"), c0.m("dest_grid")
        trig = sel(c.m("stack.poly.nverts"), k_)
        out = [("stack height", n >= 0), ("sums of the tracked cell over the stack", And(T[0] == 0, fa(k_, Implies(rng(0, k_, n), T[k_ + 1] == T[k_] + w.mins(c.g("PG")[k_])), c.g("PG")[k_]))), ("names of the stack entries", fa(k_, Implies(rng(0, k_, n), c.g("PG")[k_] == w.ID(*w.row(c, k_))), trig)),
               ("what the cell gained and what the stack still holds add up to the input", T[n] + (g[IDX(c)] - g0[IDX(c)]) == w.MIN(*w.pv(c0, "poly"))),
               ("nothing is written beyond the grid", g[XI] == g0[XI]), *[("size of each stack entry, axis %d" % a, fa(k_, Implies(rng(0, k_, n), c.g("SZ%d" % a)[k_] == w.box(c, k_)[1][a] - w.box(c, k_)[0][a]), w.box(c, k_)[0][a])) for a in range(D)],
               ("levels left below each stack entry", fa(k_, Implies(rng(0, k_, n), c.g("RK")[k_] == sum([CL(c.g("SZ%d" % a)[k_]) for a in range(1, D)], CL(c.g("SZ0")[k_]))))), ("stack entries have room to be split", fa(k_, Implies(rng(0, k_, n), c.g("RK")[k_] + k_ <= RT))),]
        names = [x for a in range(D) for x in ("box inside the grid from below, axis %d" % a, "box inside the grid from above, axis %d" % a, "box not empty, axis %d" % a, "polytope inside its box from below, axis %d" % a, "polytope inside its box from above, axis %d" % a)]
        for nm, f in zip(names, entry(c, k_)):
            a = int(nm[-1]); out.append((nm, fa(k_, Implies(rng(0, k_, n), f), w.box(c, k_)[int("above" in nm)][a])))
        return out
    def head(c):
        """instances at the popped entry"""
        n = c.i("nstack"); k = n - 1; out = []; T = c.g("T")
        out.append(Implies(n > 0, And(c.g("PG")[k] == w.ID(*w.row(c, k)), c.g("RK")[k] == rank(c, k), *[c.g("SZ%d" % a)[k] == size(c, k, a) for a in range(D)], T[n] == T[k] + w.MIN(*w.row(c, k)), rank(c, k) + k <= RT)))
        out += [Implies(n > 0, f) for f in entry(c, k)]
        P, B = w.row(c, k), w.box(c, k); lh = lohi(c); d = w.dd(c.old())
        out.append(Implies(P[0] <= 0, w.MIN(*P) == 0))
        ib = w.ib(c.old())
        for a in range(D):
            lo, hi = lh[a]
            for x, y in ((ib[0][a] + CI[a] + 1, B[0][a]), (B[1][a], ib[0][a] + CI[a])): out.append(Implies(x <= y, d[a] * zr(x) <= d[a] * zr(y)))     # monotone
            x, y = d[a] * zr(B[0][a]), d[a] * zr(B[1][a])
            out += [Implies(And(w.GE[a](*P, x), x >= hi), w.MIN(*P) == 0), Implies(And(w.LE[a](*P, y), y <= lo), w.MIN(*P) == 0)]
            s = B[1][a] - B[0][a]
            out += [w.co[a](q) == d[a] * zr(q) for q in (B[0][a], B[1][a], B[0][a] + s / 2)]
            out += [CL(I(1)) == 0, Implies(s >= 1, CL(s) >= 0)]
            for p in (s / 2, s - s / 2): out.append(Implies(s >= 2, And(CL(p) >= 0, CL(p) <= CL(s) - 1, CL(s) >= 1)))
        out.append(Implies(And(*[And(w.GE[a](*P, lh[a][0]), w.LE[a](*P, lh[a][1])) for a in range(D)]), w.MIN(*P) == w.MOM(*P)))
        out += all_idx_facts(w, [B[0][a] - ib[0][a] for a in range(D)], I(0))
        return out
    def cuts(c):
        h = c.at("stack.head"); n0, n1 = h.i("nstack"), c.i("nstack"); d = w.dd(c.old()); out = []
        P = w.row(h, n0 - 1); M = w.MIN(*P); g, gh = c.m("dest_grid"), h.m("dest_grid")
        if not z3.simplify(n1 - n0 > 0).eq(z3.BoolVal(True)):
            ib = w.ib(c.old()); ix = [w.box(h, n0 - 1)[0][a] - ib[0][a] for a in range(D)]; here = And(*[ix[a] == CI[a] for a in range(D)])
            return [("the popped entry is in the tracked cell or misses it", Or(P[0] <= 0, And(here, M == w.MOM(*P)), And(Not(here), M == 0))), ("the tracked cell gains what the popped entry has inside it", g[IDX(c)] == gh[IDX(c)] + M)]
        out.append(("the halves make up the popped entry", M == w.MIN(*w.row(c, n0 - 1)) + w.MIN(*w.row(c, n0))))
        B = w.box(h, n0 - 1); s = [B[1][a] - B[0][a] for a in range(D)]; RK = [CL(x) for x in s]
        for k, who in ((n0 - 1, "lower"), (n0, "upper")):
            N = w.box(c, k)
            out.append(("%s half: box is a half along one axis" % who, Or(*[And(s[a] >= 2, *[And(N[0][b] == B[0][b], N[1][b] == B[1][b]) for b in range(D) if b != a],
                        *([N[0][a] == B[0][a], N[1][a] == B[0][a] + s[a] / 2] if who == "lower" else [N[0][a] == B[0][a] + s[a] / 2, N[1][a] == B[1][a]])) for a in range(D)])))
            out.append(("%s half: has room to be split" % who, rank(c, k) + k <= RT))
            P = w.row(c, k)
            for a in range(D):
                out.append(("%s half: lower bound, axis %d" % (who, a), w.GE[a](*P, w.co[a](N[0][a])))); out.append(("%s half: upper bound, axis %d" % (who, a), w.LE[a](*P, w.co[a](N[1][a]))))
        return out
    def ghost(c):
        h = c.at("stack.head"); n0, n1 = h.i("nstack"), c.i("nstack"); T = c.g("T"); k = n0 - 1
        if z3.simplify(n1 - n0 > 0).eq(z3.BoolVal(True)):
            a = T[k] + w.MIN(*w.row(c, k)); return {**{"SZ%d" % a: z3.Store(z3.Store(c.g("SZ%d" % a), k, size(c, k, a)), n0, size(c, n0, a)) for a in range(D)}, "PG": z3.Store(z3.Store(c.g("PG"), k, w.ID(*w.row(c, k))), n0, w.ID(*w.row(c, n0))), "RK": z3.Store(z3.Store(c.g("RK"), k, rank(c, k)), n0, rank(c, n0)), "T": z3.Store(z3.Store(T, n0, a), n0 + 1, a + w.MIN(*w.row(c, k + 1)))}
        return {"T": T}
    ghost.keys = ("T", "RK", "PG", *["SZ%d" % a for a in range(D)])
    def ginit(c): T = fresh(AR, "gh_T"); return {**{"SZ%d" % a: z3.Store(fresh(AI, "gh_SZ"), 0, size(c, I(0), a)) for a in range(D)}, "PG": z3.Store(fresh(AI, "gh_PG"), 0, w.ID(*w.row(c, I(0)))), "RK": z3.Store(fresh(AI, "gh_RK"), 0, rank(c, I(0))), "T": z3.Store(z3.Store(T, 0, R(0)), 1, w.MIN(*w.row(c, I(0))))}
    # ---- adding the moments of one cell
    def cellix(c): h = c.at("stack.head"); k = h.i("nstack") - 1; B = w.box(h, k); ib = w.ib(c.old()); return [B[0][a] - ib[0][a] for a in range(D)]
    def minv(c):
        e = c.at("mom.entry"); g, g1 = c.m("dest_grid"), e.m("dest_grid"); ix = cellix(c); here = And(*[ix[a] == CI[a] for a in range(D)])
        return [("counter", c.counter_range(0, NM)), ("the tracked element of the grid", g[IDX(c)] == g1[IDX(c)] + If(And(here, c.done(MT)), w.mo(c), R(0))),
                ("nothing is written beyond the grid", g[XI] == g1[XI])]
    def mhead(c): return all_idx_facts(w, cellix(c), c.lv)
    def post(c):
        c0 = c.old(); g, g0 = c.m("dest_grid"), c0.m("dest_grid"); P, P0 = w.pv(c, "poly"), w.pv(c0, "poly"); out = []
        if "stack.entry" in c.st.labels:
            out.append(("every cell receives the moments of its part of the polytope, added to what it held", g[IDX(c)] == g0[IDX(c)] + w.MIN(*P0)))
            out.append(("elements beyond the grid are unchanged", g[XI] == g0[XI]))
        else: out.append(("nothing is done only for an empty polytope or an empty box", And(g == g0, Or(P0[0] <= 0, *[G[a] <= 0 for a in range(D)]))))
        out.append(("the polytope is unchanged", And(*[x == y for x, y in zip(P, P0)])))
        for b in range(2): out.append(("index box %d is unchanged" % b, And(*[w.ib(c)[b][a] == w.ib(c0)[b][a] for a in range(D)])))
        return out
    f = Fn(FUN[D], FILE[D], params={"poly": "obj", "ibox": ("fix", 2), "dest_grid": ("arr", GL), "d": "scalar", "polyorder": "scalar"}, pre=pre, post=post,
           contracts={SPLIT[D]: SplitC(w), RED[D]: ReduceC(w)},
           loops=[Loop("stack", inv, head_lemma=head, ghost=ghost, ghost_init=ginit, cuts=cuts, abstract=lambda c: [NM], children=[Loop("mom", minv, head_lemma=mhead, abstract=(lambda c: [w.lin(cellix(c))]) if D > 3 else None)])])
    # wlog: the upper corner is called lower corner + G, with G an arbitrary vector
    f.init = lambda c: [("ibox.1.%d" % a, zi(c.m("ibox.0.%d" % a)) + G[a]) for a in range(D)]
    return f
FNS = [make(2), make(3), make(4)]

ASM = ["the part of a polytope inside a cell is taken from the contracts of the split functions (%s): the two halves make up the input, each lies on its side, parts lie where the input lies",
       "the reduce contract (%s): the moments of a polytope; measure facts assumed: an empty polytope and one beside the cell contribute nothing, one inside the cell contributes all its moments",
       "the polytope lies inside its index box (what get_ibox and clamp_ibox establish, C16)",
       "ceil(log2(n)) is the exact integer value; its laws (clog2(1)=0, clog2 of either half of s>=2 is at most clog2(s)-1, clog2(a)+clog2(b) <= clog2(ab)+1) are proved in lean/Clog.lean",
       "index and stack arithmetic does not overflow an int; the destination grid does not overlap the polytope or the index box"]
for D, pid, sp, rd, t in ((2, "C17", "C04", "C07", "rast2"), (3, "C18", "C05", "C08", "vox3"), (4, "C19", "C06, over the bounded C03", "checked in bounds by the driver below only", "voxN")):
    prop(pid, fns=[make(D)], lemmas=idx_lemmas(), lean=[("Clog.lean", ["clog_one", "clog_half_lo", "clog_half_hi", "clog_mul"])], rt=[("p_vox.c", t)], bounded=[("p_vox.c", t)] if D == 4 else [], assumptions=[a % x if "%s" in a else a for a, x in zip(ASM, (sp, rd, 0, 0, 0))])
