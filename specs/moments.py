"""C07/C08/C09: moment integrals.  An arbitrary but fixed moment (IO,JO[,KO]) of order CO is followed
through all loops; its storage index is TRI(CO)+JO (2D) or TET(CO)+TRI(CO-IO)+KO (3D).  Nothing bounds
the polynomial order or the vertex count."""
from .common import *
from .polyops import fa, rng, u_, valid2, valid3, simple3
from dv.symx import smart_select as sel
CO, IO, JO = z3.Ints("CO!order IO!ofx JO!ofy"); KO = CO - IO - JO
TRI, TET = z3.Function("TRI", Int, Int), z3.Function("TET", Int, Int)
t_, c_ = z3.Ints("t c")
def idx(D, c, i, j=None): return TRI(c) + (c - i) if D == 2 else TET(c) + TRI(c - i) + (c - i - j)
MM = {2: idx(2, CO, IO), 3: idx(3, CO, IO, JO)}
NUM = {2: lambda p: TRI(p + 1), 3: lambda p: TET(p + 1)}
BIN = z3.Function("BIN", Int, Int, Real)          # BIN(n,k): binomial coefficient
FACT = z3.Function("powi", Real, Int, Real)
def mono(F, a, b): return And(Implies(a <= b, F(a) <= F(b)), Implies(b <= a, F(b) <= F(a)))
def trif(x): return And(TRI(x + 1) == TRI(x) + x + 1, TRI(x) >= 0)
def tetf(x): return And(TET(x + 1) == TET(x) + TRI(x + 1), TET(x) >= 0, TRI(x + 1) >= x + 1)
def lem_idx():
    a, b = z3.Ints("a b"); Ta, Tb, Tc = z3.Ints("Ta Tb Tc")
    d2 = lambda T, x: 2 * T == x * (x + 1); d3 = lambda T, x: 6 * T == x * (x + 1) * (x + 2)
    return [Lemma("triangular numbers are monotone", [a >= 0, a <= b, d2(Ta, a), d2(Tb, b)], Ta <= Tb), Lemma("triangular numbers: step", [a >= 0, d2(Ta, a), d2(Tb, a + 1)], And(Tb == Ta + a + 1, Ta >= 0)),
            Lemma("tetrahedral numbers are monotone", [a >= 0, a <= b, d3(Ta, a), d3(Tb, b)], Ta <= Tb), Lemma("tetrahedral numbers: step", [a >= 0, d3(Ta, a), d3(Tb, a + 1), d2(Tc, a + 1)], And(Tb == Ta + Tc, Ta >= 0, Tc >= a + 1))]
def cellfacts(D, P, c, i, j=None):
    """instances of the index lemmas for the cell (c,i[,j]) against the followed cell and the array end"""
    if D == 2:
        out = [trif(c), trif(CO), mono(TRI, c + 1, CO), mono(TRI, CO + 1, c), mono(TRI, c + 1, P + 1)]
        return [And(Implies(rng(0, c, P + 1), And(*out)), trif(CO), mono(TRI, CO + 1, P + 1))]
    s, SO = c - i, CO - IO
    out = [tetf(c), mono(TET, c + 1, CO), mono(TET, CO + 1, c), mono(TET, c + 1, P + 1)]
    inn = [trif(s), mono(TRI, s + 1, SO), mono(TRI, SO + 1, s), mono(TRI, s + 1, c + 1)]
    return [Implies(rng(0, c, P + 1), And(*out)), Implies(And(rng(0, c, P + 1), 0 <= s, s <= c), And(*inn)), tetf(CO), trif(SO), mono(TET, CO + 1, P + 1), mono(TRI, SO + 1, CO + 1)]
def passed(c, i, j=None):
    """has the cell enumeration passed the followed cell, when it stands before (c,i[,j])?"""
    if j is None: return Or(CO < c, And(CO == c, IO > i))
    return Or(CO < c, And(CO == c, Or(IO > i, And(IO == i, JO > j))))
def base(D, P):
    out = [("polynomial order", P >= 0), ("a moment of that order", And(0 <= CO, CO <= P, 0 <= IO, 0 <= JO, KO >= 0 if D == 3 else CO == IO + JO))]
    out += [("index lemmas", And(TRI(0) == 0, TET(0) == 0, trif(I(0)), tetf(I(0)), mono(TRI, I(1), CO), mono(TET, I(1), CO), BIN(0, 0) == 1, 2 * TRI(P + 1) == (P + 1) * (P + 2), 6 * TET(P + 1) == (P + 1) * (P + 2) * (P + 3), *cellfacts(D, P, CO, IO, JO)))]
    return out

# ------------------------------------------------------------------ C09 shift_moments

PS = z3.Function("PS", Int, Real)                 # partial sums of the binomial expansion of the followed moment
def binfacts(n, k): return [BIN(n, 0) == 1, BIN(n, n) == 1, Implies(And(0 < k, k < n), BIN(n, k) == BIN(n - 1, k) + BIN(n - 1, k - 1))]
def shift_term(c0, D, mi, mj, mk):
    vc = [zr(c0.m("vc.%d" % a)) for a in range(D)]; mom = c0.m("moments")
    e = [IO, JO, KO][:D]; mm = [mi, mj, mk][:D]
    t = BIN(e[0], mm[0])
    for a in range(1, D): t = t * BIN(e[a], mm[a])
    for a in range(D): t = t * FACT(vc[a], e[a] - mm[a])
    return t * sel(mom, idx(D, mi + mj + (mk if D == 3 else 0), mi, mj))
def shift(D):
    nm = {2: "r2d", 3: "r3d"}[D]
    def pre(c): return base(D, c.i("polyorder")) + [("partial sums start at zero", PS(0) == 0)]
    def zero(c):
        P = c.i("polyorder")
        return [("counter in range", c.counter_range(0, NUM[D](P))), ("cleared so far", Implies(c.done(MM[D]), sel(c.m("moments2"), MM[D]) == 0))]
    def Btab(c, upto, partial=None):
        B = c.m("B"); n, k = z3.Ints("n k")
        done = rng(0, n, upto)
        if partial is not None: done = Or(done, And(n == upto, k > partial))
        return fa([n, k], Implies(And(done, 0 <= k, k <= n), B[k][n] == BIN(n, k)), B[k][n])
    def pas(c):
        P = c.i("polyorder"); return [("counter in range", c.counter_range(1, P + 1)), ("rows of Pascal's triangle", Btab(c, c.lv))]
    def pasi(c):
        o = c.lvof("pascal"); P = c.i("polyorder")
        return [("counter in range", And(c.counter_range(0, o + 1), rng(1, o, P + 1))), ("current row", Btab(c, o, c.lv))]
    def pasl(c): return binfacts(c.lvof("pascal"), c.lv)
    def have(c, cond, val):
        x = sel(c.m("moments2"), MM[D]); return And(Implies(cond, x == val), Implies(Not(cond), x == 0))
    def midx(c): return c.i("m")
    full = lambda: If(True, PS(NUM[D](CO)), 0)
    def outer(c):
        P = c.i("polyorder"); o = c.lv
        return [("counter in range", c.counter_range(1, P + 1)), ("storage index", midx(c) == (TRI(o) if D == 2 else TET(o))), ("finished moments hold the whole expansion", have(c, And(CO >= 1, CO < o), PS(NUM[D](CO))))]
    def ci(c):
        P = c.i("polyorder"); o, i = c.lvof("order"), c.lv
        return [("counter in range", And(c.counter_range(0, o + 1), rng(1, o, P + 1))), ("storage index", midx(c) == (idx(2, o, i) if D == 2 else TET(o) + TRI(o - i))),
                ("finished moments hold the whole expansion", have(c, And(CO >= 1, Or(CO < o, And(CO == o, IO > i))), PS(NUM[D](CO))))]
    def cj(c):
        P = c.i("polyorder"); o, i, j = c.lvof("order"), c.lvof("i"), c.lv
        return [("counter in range", And(c.counter_range(0, o - i + 1), rng(1, o, P + 1), rng(0, i, o + 1))), ("storage index", midx(c) == idx(3, o, i, j)),
                ("finished moments hold the whole expansion", have(c, And(CO >= 1, passed(o, i, j)), PS(NUM[D](CO))))]
    def cur(c):
        if D == 2: return c.lvof("order"), c.lvof("i"), None
        return c.lvof("order"), c.lvof("i"), c.lvof("j")
    def here(c):
        o, i, j = cur(c)
        h = And(o == CO, i == IO)
        if D == 3: h = And(h, j == JO)
        return h, (passed(o, i) if D == 2 else passed(o, i, j)), And(rng(1, o, c.i("polyorder") + 1), rng(0, i, o + 1), *([rng(0, j, o - i + 1)] if D == 3 else [])), (idx(2, o, i) if D == 2 else idx(3, o, i, j))
    def summing(c, mmval):
        h, p, r, ix = here(c); x = sel(c.m("moments2"), MM[D]); mm = c.i("mm")
        return [("outer counters", And(r, midx(c) == ix)), ("source index", mm == mmval), ("partial sum of the expansion", And(Implies(h, x == PS(mm)), Implies(And(Not(h), p, CO >= 1), x == PS(NUM[D](CO))), Implies(And(Not(h), Or(Not(p), CO < 1)), x == 0)))]
    def so(c):
        o = cur(c)[0]; q = c.lv
        return [("counter in range", c.counter_range(0, o + 1))] + summing(c, TRI(q) if D == 2 else TET(q))
    def si(c):
        o = cur(c)[0]; q = c.lvof("morder"); mi = c.lv
        return [("counter in range", And(c.counter_range(0, q + 1), rng(0, q, o + 1)))] + summing(c, idx(2, q, mi) if D == 2 else TET(q) + TRI(q - mi))
    def sj(c):
        o = cur(c)[0]; q, mi, mj = c.lvof("morder"), c.lvof("mi"), c.lv
        return [("counter in range", And(c.counter_range(0, q - mi + 1), rng(0, q, o + 1), rng(0, mi, q + 1)))] + summing(c, idx(3, q, mi, mj))
    def step(c):
        """definition of the partial sums at the current source cell"""
        q = c.lvof("morder"); mi = c.lvof("mi"); c0 = c.old()
        if D == 2: mj, mk, m = q - mi, I(0), idx(2, q, mi)
        else: mj = c.lvof("mj"); mk = q - mi - mj; m = idx(3, q, mi, mj)
        ins = And(mi <= IO, mj <= JO, *([mk <= KO] if D == 3 else []))
        T = shift_term(c0, D, mi, mj, mk); P = c.i("polyorder")
        if D == 2: fx = [trif(q), mono(TRI, q + 1, P + 1)]
        else: fx = [tetf(q), mono(TET, q + 1, P + 1), trif(q - mi), mono(TRI, q - mi + 1, q + 1)]
        return [Implies(ins, PS(m + 1) == PS(m) + T), Implies(Not(ins), PS(m + 1) == PS(m)), Implies(And(rng(0, q, P + 1), 0 <= mi, mi <= q), And(*fx))]
    def binall(c):
        B = c.m("B"); P = c.i("polyorder")
        out = []
        q, mi = c.lvof("morder"), c.lvof("mi"); mj = q - mi if D == 2 else c.lvof("mj")
        for e, k in [(IO, mi), (JO, mj)] + ([(KO, q - mi - mj)] if D == 3 else []): out.append(Implies(And(0 <= k, k <= e, e <= P), sel(sel(B, k), e) == BIN(e, k)))
        return out
    def copyl(c):
        P = c.i("polyorder"); x = sel(c.m("moments"), MM[D]); dn = And(c.done(MM[D]), MM[D] >= 1)
        return [("counter in range", c.counter_range(1, NUM[D](P))), ("copied so far", And(Implies(dn, x == sel(c.m("moments2"), MM[D])), Implies(Not(dn), x == sel(c.old().m("moments"), MM[D]))))]
    cf = lambda c: cellfacts(D, c.i("polyorder"), *[x for x in (c.lvof("order"), c.lvof("i") if "i" in c.ex.linfo else None, None) if x is not None][:2])
    def hl(lev):
        def f(c):
            P = c.i("polyorder"); o = c.lvof("order")
            if lev == 0: return cellfacts(D, P, o, o, I(0)) + ([trif(o)] if D == 2 else [tetf(o)])
            i = c.lvof("i")
            if lev == 1 or D == 2: return cellfacts(D, P, o, i, o - i)
            return cellfacts(D, P, o, i, c.lvof("j"))
        return f
    zl = Loop("zero", zero)
    pl = Loop("pascal", pas, head_lemma=lambda c: binfacts(c.lv, I(0)), children=[Loop("row", pasi, head_lemma=lambda c: binfacts(c.lvof("pascal"), c.lv))])
    inner = Loop("mi", si, head_lemma=(lambda c: step(c) + binall(c)) if D == 2 else (lambda c: [trif(c.lvof("morder") - c.lv), tetf(c.lvof("morder"))]),
                 children=[] if D == 2 else [Loop("mj", sj, head_lemma=lambda c: step(c) + binall(c))])
    srt = Loop("morder", so, head_lemma=lambda c: [trif(c.lv)] + ([tetf(c.lv)] if D == 3 else []), children=[inner])
    if D == 2: nest = Loop("order", outer, head_lemma=hl(0), children=[Loop("i", ci, head_lemma=hl(1), children=[srt])])
    else: nest = Loop("order", outer, head_lemma=hl(0), children=[Loop("i", ci, head_lemma=hl(1), children=[Loop("j", cj, head_lemma=hl(2), children=[srt])])])
    def post(c):
        x = sel(c.m("moments"), MM[D]); c0 = c.old()
        return [("moment 0 is unchanged", Implies(CO == 0, x == sel(c0.m("moments"), MM[D]))), ("a moment is the binomial expansion of the shifted monomial", Implies(CO >= 1, x == PS(NUM[D](CO))))]
    return Fn(nm + "_shift_moments", "src/%s.c" % nm, params={"moments": ("arr", lambda b: NUM[D](zi(b["polyorder"]))), "polyorder": "scalar", "vc": "scalar"}, pre=pre, post=post, loops=[zl, pl, nest, Loop("copy", copyl)])

# ------------------------------------------------------------------ poly_center
def center(D):
    nm = {2: "r2d", 3: "r3d"}[D]
    CS = [z3.Function("CS%d" % a, Int, Real) for a in range(D)]       # prefix sums of the coordinates
    def head(c): return [CS[a](c.lv + 1) == CS[a](c.lv) + sel(c.old().m("poly.verts.pos.%d" % a), c.lv) for a in range(D)]
    def inv(c):
        n = zi(c.old().m("poly.nverts")); v = c.lv; down = c.loop[1] != "up"
        return [("counter in range", c.counter_range(0, n))] + [("sum of coordinate %d" % a, zr(c.m("vc.%d" % a)) == (CS[a](n) - CS[a](v + 1) if down else CS[a](v))) for a in range(D)]
    def post(c):
        c0 = c.old(); n = zi(c0.m("poly.nverts"))
        r = c.ret
        vals = [r.vals[k] for k in sorted(r.vals, key=str)]
        return [("centre coordinate %d is the mean" % a, zr(vals[a]) * zr(n) == CS[a](n)) for a in range(D)] + [("vertex count unchanged", zi(c.m("poly.nverts")) == n)] + [("positions unchanged %d" % a, c.m("poly.verts.pos.%d" % a) == c0.m("poly.verts.pos.%d" % a)) for a in range(D)]
    return Fn(nm + "_poly_center", "src/%s.c" % nm, params={"poly": "obj"}, pre=lambda c: [("vertex count", rng(1, zi(c.m("poly.nverts")), MAXV[D] + 1)), ("prefix sums start at zero", And(*[f(0) == 0 for f in CS]))], post=post, loops=[Loop("verts", inv, head_lemma=head)])

# ------------------------------------------------------------------ C07 r2d_reduce
MU = {2: z3.Function("MULT2", Int, Int, Real), 3: z3.Function("MULT3", Int, Int, Int, Real)}     # multinomial coefficients
Cu, Du = z3.Function("Cu", Int, Int, Int, Real), z3.Function("Du", Int, Int, Int, Real)           # Koehl's polynomials of the edge leaving vertex u
SV = z3.Function("SV", Int, Real)                                                                 # prefix sums over the vertices
def koehl2(u, i, j, v0, v1):
    g = lambda cnd, x: If(cnd, x, R(0))
    out = [Cu(u, 0, 0) == 1, Du(u, 0, 0) == 1]
    for a in (0, 1):
        for b in (0, 1):
            cond = And(i > 0 if a else i == 0, j > 0 if b else j == 0)
            if not a and not b: continue
            cs = ([v1[0] * Cu(u, i - 1, j)] if a else []) + ([v1[1] * Cu(u, i, j - 1)] if b else [])
            ds = ([v0[0] * Du(u, i - 1, j)] if a else []) + ([v0[1] * Du(u, i, j - 1)] if b else [])
            out.append(Implies(cond, And(Cu(u, i, j) == sum(cs[1:], cs[0]), Du(u, i, j) == sum(ds[1:], ds[0]) + Cu(u, i, j))))
    return out
def multf(D, i, j, k=None):
    out = [MU[2](0, 0) == 1] if D == 2 else [MU[3](0, 0, 0) == 1]
    M = (lambda i, j, k: MU[2](i, j)) if D == 2 else MU[3]
    for a in (0, 1):
        for b in (0, 1):
            for e in ((0,) if D == 2 else (0, 1)):
                if not (a or b or e): continue
                cond = And(i > 0 if a else i == 0, j > 0 if b else j == 0, *([k > 0 if e else k == 0] if D == 3 else []))
                s = ([M(i - 1, j, k)] if a else []) + ([M(i, j - 1, k)] if b else []) + ([M(i, j, k - 1)] if e else [])
                out.append(Implies(cond, M(i, j, k) == sum(s[1:], s[0])))
    return out
class Any:
    """contract of poly_center as used here: any reference point will do"""
    def __init__(s, name): s.name = name; s.argnames = ["poly"]; s.modifies = []; s.call_pre = None
    def call_post(s, c): return []
SHIFTED = z3.Function("SHIFTED", Int, Real)
class ShiftC:
    """shift_moments is handed the moments of the shifted shape, the same order and the same reference point"""
    def __init__(s, name, D, raw): s.name = name; s.D = D; s.raw = raw; s.argnames = ["moments", "polyorder", "vc"]; s.arrargs = ("moments",); s.modifies = ["moments"]
    def call_pre(s, c):
        st = c.st; top = Ctx(c.ex, st)
        return [("the same polynomial order", c.i("polyorder") == top.i("polyorder")), ("the reference point used for the integrals", And(*[zr(c.m("vc.%d" % a)) == zr(top.m("vc.%d" % a)) for a in range(s.D)])),
                ("the moments of the shifted shape", sel(c.m("moments"), MM[s.D]) == s.raw(top))]
    def call_post(s, c): return [("shifted", sel(c.m("moments"), MM[s.D]) == SHIFTED(MM[s.D]))]
def layers(c): return And(Or(c.i("curlayer") == 0, c.i("curlayer") == 1), c.i("prevlayer") == 1 - c.i("curlayer"))
def lay(c, nm, which):
    """the coefficient layer in use"""
    return If(c.i(which) == 0, c.m(nm + ".0"), c.m(nm + ".1"))
def lays(c, nm, which): return [(c.i(which) == k, c.m("%s.%d" % (nm, k))) for k in (0, 1)]
def reduce2(shiftp):
    P = lambda c: c.i("polyorder"); N = lambda c: zi(c.old().m("poly.nverts"))
    def edge(c, u):
        c0 = c.old(); w = sel(c0.m("poly.verts.pnbrs.0"), u)
        vc = [zr(c.m("vc.%d" % a)) for a in range(2)] if shiftp else [R(0), R(0)]
        p = lambda x: [sel(c0.m("poly.verts.pos.%d" % a), x) - vc[a] for a in range(2)] if shiftp else [sel(c0.m("poly.verts.pos.%d" % a), x) for a in range(2)]
        return p(u), p(w)
    def twoa(c, u): v0, v1 = edge(c, u); return v0[0] * v1[1] - v0[1] * v1[0]
    def svdef(c, u): return [Implies(CO == 0, SV(u + 1) == SV(u) + R("1/2") * twoa(c, u)), Implies(CO > 0, SV(u + 1) == SV(u) + twoa(c, u) * Du(u, IO, JO))]
    raw = lambda c: If(CO == 0, SV(N(c)), SV(N(c)) / (MU[2](IO, JO) * zr(CO + 1) * zr(CO + 2)))
    def rawis(c, x): return And(Implies(CO == 0, x == SV(N(c))), Implies(CO > 0, x == SV(N(c)) / (MU[2](IO, JO) * zr(CO + 1) * zr(CO + 2))))
    def pre(c):
        n = zi(c.m("poly.nverts")); nb = c.m("poly.verts.pnbrs.0")
        return base(2, c.i("polyorder")) + [("vertex count within the buffer", rng(0, n, MAXV[2] + 1)), ("links are in range", fa(u_, Implies(rng(0, u_, n), rng(0, nb[u_], n)), nb[u_])), ("sums start at zero", SV(0) == 0)]
    mom = lambda c: sel(c.m("moments"), MM[2])
    def zero(c): return [("counter in range", c.counter_range(0, NUM[2](P(c)))), ("cleared so far", Implies(c.done(MM[2]), mom(c) == 0))]
    def verts(c): return [("counter in range", c.counter_range(0, N(c))), ("two layers", layers(c)), ("sum over the visited edges", mom(c) == SV(c.lv))]
    def table(c, which, lo, hi, tot, fns):
        """entries lo <= t < hi of a layer hold order tot"""
        out = []
        for nm, F in fns:
            for cond, A in lays(c, nm, which): out.append(("%s coefficients, %s %s" % (nm, which, str(cond)[-1]), Implies(cond, fa(t_, Implies(And(lo <= t_, t_ < hi), A[t_] == F(t_, tot - t_)), A[t_]))))
        return out
    def cd(c): v = c.lvof("vertices"); return [("C", lambda i, j: Cu(v, i, j)), ("D", lambda i, j: Du(v, i, j))]
    def order(c):
        o = c.lv; v = c.lvof("vertices")
        return [("counter in range", And(c.counter_range(1, P(c) + 1), rng(0, v, N(c)))), ("two layers", layers(c)), ("storage index", c.i("m") == TRI(o)), ("sum so far", And(Implies(CO < o, mom(c) == SV(v + 1)), Implies(CO >= o, mom(c) == SV(v))))] + table(c, "prevlayer", 0, o, o - 1, cd(c))
    def iloop(c):
        o, i, v = c.lvof("order"), c.lv, c.lvof("vertices"); ps = passed(o, i)
        return [("counter in range", And(c.counter_range(0, o + 1), rng(1, o, P(c) + 1), rng(0, v, N(c)))), ("two layers", layers(c)), ("storage index", c.i("m") == idx(2, o, i)), ("sum so far", And(Implies(ps, mom(c) == SV(v + 1)), Implies(Not(ps), mom(c) == SV(v))))] + table(c, "prevlayer", 0, o, o - 1, cd(c)) + table(c, "curlayer", i + 1, o + 1, o, cd(c))
    mu = [("C", MU[2])]
    pos_ = lambda c, which, lo, hi: [("coefficients are positive, %s %s" % (which, str(cond)[-1]), Implies(cond, fa(t_, Implies(And(lo <= t_, t_ < hi), A[t_] >= 1), A[t_]))) for cond, A in lays(c, "C", which)]
    def fin(c, ps): return ("normalised so far", And(Implies(Or(CO == 0, Not(ps)), mom(c) == SV(N(c))), Implies(And(CO > 0, ps), mom(c) == SV(N(c)) / (MU[2](IO, JO) * zr(CO + 1) * zr(CO + 2)))))
    def norder(c):
        o = c.lv; return [("counter in range", c.counter_range(1, P(c) + 1)), ("two layers", layers(c)), ("storage index", c.i("m") == TRI(o)), fin(c, CO < o)] + table(c, "prevlayer", 0, o, o - 1, mu) + pos_(c, "prevlayer", 0, o)
    def niloop(c):
        o, i = c.lvof("norder"), c.lv
        return [("counter in range", And(c.counter_range(0, o + 1), rng(1, o, P(c) + 1))), ("two layers", layers(c)), ("storage index", c.i("m") == idx(2, o, i)), fin(c, passed(o, i))] + table(c, "prevlayer", 0, o, o - 1, mu) + table(c, "curlayer", i + 1, o + 1, o, mu) + pos_(c, "prevlayer", 0, o) + pos_(c, "curlayer", i + 1, o + 1)
    def hv(c):
        v = c.lv; nb = c.old().m("poly.verts.pnbrs.0")
        return svdef(c, v) + [Implies(rng(0, v, N(c)), rng(0, sel(nb, v), N(c))), Cu(v, 0, 0) == 1, Du(v, 0, 0) == 1, *cellfacts(2, P(c), I(0), I(0))]
    def hi(c):
        v = c.lvof("vertices"); v0, v1 = edge(c, v); o, i = c.lvof("order"), c.lv
        return koehl2(v, i, o - i, v0, v1) + cellfacts(2, P(c), o, i) + svdef(c, v)
    lo = [Loop("zero", zero), Loop("vertices", verts, head_lemma=hv, children=[Loop("order", order, head_lemma=lambda c: cellfacts(2, P(c), c.lv, c.lv), children=[Loop("i", iloop, head_lemma=hi)])]),
          Loop("norder", norder, head_lemma=lambda c: cellfacts(2, P(c), c.lv, c.lv), pre_lemma=lambda c: ([], multf(2, I(0), I(0))), children=[Loop("ni", niloop, head_lemma=lambda c: multf(2, c.lv, c.lvof("norder") - c.lv) + cellfacts(2, P(c), c.lvof("norder"), c.lv))])]
    def post(c):
        x = mom(c); n = N(c); c0 = c.old()
        fr = [("polygon unchanged: count", zi(c.m("poly.nverts")) == n)] + [("polygon unchanged: positions %d" % a, c.m("poly.verts.pos.%d" % a) == c0.m("poly.verts.pos.%d" % a)) for a in range(2)]
        e = [("an empty polygon has zero moments", Implies(n <= 0, x == 0))]
        if shiftp: return fr + e + [("moments are those of the shifted polygon moved back", Implies(n > 0, x == SHIFTED(MM[2])))]
        return fr + e + [("every moment is the sum of the triangle integrals", Implies(n > 0, rawis(c, x)))]
    f = Fn("r2d_reduce", "src/r2d.c", params={"poly": "obj", "moments": ("arr", lambda b: NUM[2](zi(b["polyorder"]))), "polyorder": "scalar"}, pre=pre, post=post, loops=lo,
           contracts={"r2d_poly_center": Any("r2d_poly_center"), "r2d_shift_moments": ShiftC("r2d_shift_moments", 2, raw)} if shiftp else {})
    f.label = "shift" if shiftp else "noshift"
    if shiftp: f.tuopts = {"defines": ("-DSHIFT_POLY",)}
    return f

# ------------------------------------------------------------------ C08 r3d_reduce
C3, D3, S3 = (z3.Function(n, *([Int] * 6 + [Real])) for n in ("C3", "D3", "S3"))        # Koehl's polynomials of the triangle (apex, source, destination)
SIXV = z3.Function("SIXV", Int, Int, Int, Real)                                          # six times the volume of that tetrahedron
TERM = z3.Function("TERM", Int, Int, Int, Real)                                          # contribution of that triangle to the followed moment
AI = z3.ArraySort(Int, Int)
SS = z3.Function("SetSum", AI, AI, AI, AI, AI, AI, Real)                                 # sum of TERM over the marked half-edges, with their apexes
CNT = z3.Function("Unmarked", AI, AI, AI, Int)                                           # number of unmarked half-edges
BK = [z3.Function("BK%d" % p, Int, Int) for p in range(3)]                               # slot of the reverse half-edge
FC = [z3.Function("FC%d" % p, Int, Int) for p in range(3)]                               # face of a half-edge
INF = z3.Function("InFace", Int, Int, z3.BoolSort())                                     # vertex belongs to face
def koehl3(a, s, d, i, j, k, v0, v1, v2):
    out = [F(a, s, d, 0, 0, 0) == 1 for F in (C3, D3, S3)]
    for x in (0, 1):
        for y in (0, 1):
            for z in (0, 1):
                if not (x or y or z): continue
                cond = And(i > 0 if x else i == 0, j > 0 if y else j == 0, k > 0 if z else k == 0)
                def rec(F, v):
                    r = ([v[0] * F(a, s, d, i - 1, j, k)] if x else []) + ([v[1] * F(a, s, d, i, j - 1, k)] if y else []) + ([v[2] * F(a, s, d, i, j, k - 1)] if z else [])
                    return sum(r[1:], r[0])
                out.append(Implies(cond, And(C3(a, s, d, i, j, k) == rec(C3, v2), D3(a, s, d, i, j, k) == rec(D3, v1) + C3(a, s, d, i, j, k), S3(a, s, d, i, j, k) == rec(S3, v0) + D3(a, s, d, i, j, k))))
    return out
def det3(v0, v1, v2): return -v2[0]*v1[1]*v0[2] + v1[0]*v2[1]*v0[2] + v2[0]*v0[1]*v1[2] - v0[0]*v2[1]*v1[2] - v1[0]*v0[1]*v2[2] + v0[0]*v1[1]*v2[2]
def reduce3(shiftp):
    P = lambda c: c.i("polyorder"); N = lambda c: zi(c.old().m("poly.nverts"))
    NB = lambda c: [c.old().m("poly.verts.pnbrs.%d" % q) for q in range(3)]
    E = lambda c: [c.m("emarks.%d" % q) for q in range(3)]
    AP = lambda c: [c.g("AP%d" % q) for q in range(3)]
    def P3(c, x):
        q = [sel(c.old().m("poly.verts.pos.%d" % a), x) for a in range(3)]
        return [q[a] - zr(c.m("vc.%d" % a)) for a in range(3)] if shiftp else q
    def sixdef(c, a, s, d): return det3(P3(c, a), P3(c, d), P3(c, s))
    def termdef(c, a, s, d):
        six = SIXV(a, s, d)
        return [Implies(CO == 0, TERM(a, s, d) == R("1/6") * six), Implies(CO > 0, TERM(a, s, d) == six * S3(a, s, d, IO, JO, KO)), Implies(Or(s == a, d == a), TERM(a, s, d) == 0)]
    def pre(c):
        n = zi(c.m("poly.nverts")); nb = [c.m("poly.verts.pnbrs.%d" % q) for q in range(3)]
        out = base(3, c.i("polyorder")) + [("vertex count within the buffer", rng(0, n, MAXV[3] + 1))] + valid3(n, nb) + simple3(n, nb)
        for p in range(3):
            t = nb[p][u_]
            out.append(("half-edge %d: reverse slot, face" % p, fa(u_, Implies(rng(0, u_, n), And(rng(0, BK[p](u_), 3), t != u_, INF(FC[p](u_), u_),
                        *[Implies(BK[p](u_) == q, And(nb[q][t] == u_, FC[(q + 1) % 3](t) == FC[p](u_))) for q in range(3)])), t)))
        out.append(("the faces at a vertex are distinct", fa(u_, Implies(rng(0, u_, n), And(FC[0](u_) != FC[1](u_), FC[0](u_) != FC[2](u_), FC[1](u_) != FC[2](u_))), nb[0][u_], nb[1][u_], nb[2][u_])))
        return out
    mom = lambda c: sel(c.m("moments"), MM[3])
    def bits(c): return ("marks are 0 or 1", And(*[fa(u_, Implies(rng(0, u_, N(c)), Or(e[u_] == 0, e[u_] == 1)), e[u_]) for e in E(c)]))
    def closed(c, cur=None, start=None):
        """marked half-edges are closed under next and previous (but for the current / the first one); apexes are shared along a face"""
        n, nb, e, ap = N(c), NB(c), E(c), AP(c); out = []
        for p in range(3):
            t = nb[p][u_]
            ex = [Not(And(u_ == cur[0], cur[1] == p))] if cur else []
            out.append(("next of a marked half-edge is marked, slot %d" % p, fa(u_, Implies(And(rng(0, u_, n), e[p][u_] == 1, *ex), And(*[Implies(BK[p](u_) == q, And(e[(q + 1) % 3][t] == 1, ap[(q + 1) % 3][t] == ap[p][u_])) for q in range(3)])), e[p][u_])))
            p2 = (p + 2) % 3; w = nb[p2][u_]
            ex = [Not(And(u_ == start[0], start[1] == p))] if start else []
            out.append(("previous of a marked half-edge is marked, slot %d" % p, fa(u_, Implies(And(rng(0, u_, n), e[p][u_] == 1, *ex), And(*[Implies(BK[p2](u_) == q, e[q][w] == 1) for q in range(3)])), e[p][u_])))
            out.append(("apex belongs to the face, slot %d" % p, fa(u_, Implies(And(rng(0, u_, n), e[p][u_] == 1), INF(FC[p](u_), ap[p][u_])), e[p][u_])))
        return out
    def before(c, v, p):
        """half-edges before (v,p) are marked"""
        n, e = N(c), E(c)
        return [("half-edges before the current one are marked, slot %d" % q, fa(u_, Implies(And(rng(0, u_, n), Or(u_ < v, And(u_ == v, q < p))), e[q][u_] == 1), e[q][u_])) for q in range(3)]
    ssum = lambda c: SS(*E(c), *AP(c))
    def zero(c): return [("counter in range", c.counter_range(0, NUM[3](P(c)))), ("cleared so far", Implies(c.done(MM[3]), mom(c) == 0))]
    def starts(c): return [("counter in range", c.counter_range(0, N(c))), ("two layers", layers(c)), bits(c), ("sum over the marked half-edges", mom(c) == ssum(c))] + closed(c) + before(c, c.lv, I(0))
    def slots(c): return [("counter in range", And(c.counter_range(0, 3), rng(0, c.lvof("starts"), N(c)))), ("two layers", layers(c)), bits(c), ("sum over the marked half-edges", mom(c) == ssum(c))] + closed(c) + before(c, c.lvof("starts"), c.lv)
    def at(arrs, p, v, val=1):
        return And(*[Implies(p == q, sel(arrs[q], v) == val) for q in range(3)])
    def walk(c):
        n, nb, e, ap = N(c), NB(c), E(c), AP(c); vs, ps = c.lvof("starts"), c.lvof("slots"); vc, pn, vn = c.i("vcur"), c.i("pnext"), c.i("vnext")
        out = [("position", And(rng(0, vs, n), rng(0, ps, 3), rng(0, vc, n), rng(0, pn, 3), rng(0, vn, n), vc != vs)), ("two layers", layers(c)), ("destination", at(nb, pn, vc, vn)),
               ("apex position", And(*[zr(c.m("v0.%d" % a)) == P3(c, vs)[a] for a in range(3)])),
               ("current half-edge is marked with the apex", And(at(e, pn, vc), at(ap, pn, vc, vs))), ("first half-edge is marked", And(at(e, ps, vs), at(ap, ps, vs, vs))), bits(c),
               ("still on the face of the first half-edge", And(*[Implies(And(pn == p, ps == q), FC[p](vc) == FC[q](vs)) for p in range(3) for q in range(3)])),
               ("sum over the marked half-edges but the current", mom(c) == ssum(c) - TERM(vs, vc, vn))]
        for p in range(3):
            for q in range(3):
                r = (q + 1) % 3
                out.append(("what follows is unmarked or the first half-edge (%d,%d)" % (p, q), Implies(And(pn == p, BK[p](vc) == q), Or(sel(e[r], vn) == 0, And(vn == vs, ps == r)))))
        return out + closed(c, (vc, pn), (vs, ps)) + before(c, vs, ps)
    def walk_exit(c):
        vs, vc, vn = c.lvof("starts"), c.i("vcur"), c.i("vnext")
        return [("the last triangle is degenerate", TERM(vs, vc, vn) == 0)] + closed(c) + before(c, vs, c.lvof("slots") + 1)
    def conc(x):
        x = z3.simplify(zi(x)); return x.as_long() if z3.is_int_value(x) else None
    def upd(A, k, v, val): return [z3.Store(A[q], v, val) if q == k else A[q] for q in range(3)]
    def walk_init(c):
        ps, pn = conc(c.lvof("slots")), conc(c.i("pnext")); vs, vc = c.lvof("starts"), c.i("vcur"); A = AP(c)
        if ps is None or pn is None: return {}
        A = upd(upd(A, ps, vs, vs), pn, vc, vs)
        return {"AP%d" % q: A[q] for q in range(3)}
    def walk_pre(c):
        h = c.at("slots.head"); ps, pn = conc(c.lvof("slots")), conc(c.i("pnext")); vs, vc, vn = c.lvof("starts"), c.i("vcur"), c.i("vnext")
        if ps is None or pn is None: return [], []
        E0, A0 = E(h), AP(h); E1, A1 = upd(E0, ps, vs, I(1)), upd(A0, ps, vs, vs); E2, A2 = upd(E1, pn, vc, I(1)), upd(A1, pn, vc, vs)
        d = sel(NB(c)[ps], vs)
        return [], termdef(c, vs, vs, d) + termdef(c, vs, vc, vn) + [Implies(sel(E0[ps], vs) == 0, SS(*E1, *A1) == SS(*E0, *A0) + TERM(vs, vs, d)),
                    Implies(sel(E1[pn], vc) == 0, SS(*E2, *A2) == SS(*E1, *A1) + TERM(vs, vc, vn))]
    def walk_ghost(c):
        pn = conc(c.i("pnext")); vs, vc = c.lvof("starts"), c.i("vcur"); A = AP(c)
        if pn is None: return {}
        return {"AP%d" % q: a for q, a in enumerate(upd(A, pn, vc, vs))}
    walk_ghost.keys = ("AP0", "AP1", "AP2")
    def walk_lemma(c):
        h = c.at("walk.head"); pn = conc(c.i("pnext")); vs, vc, vn = c.lvof("starts"), c.i("vcur"), c.i("vnext")
        if pn is None: return []
        E0, A0 = E(h), AP(h)
        return termdef(c, vs, vc, vn) + [Implies(sel(E0[pn], vc) == 0, And(SS(*E(c), *AP(c)) == SS(*E0, *A0) + TERM(vs, vc, vn), CNT(*E(c)) == CNT(*E0) - 1, CNT(*E0) >= 1))]
    def walk_head(c):
        vs, vc, vn = c.lvof("starts"), c.i("vcur"), c.i("vnext")
        return termdef(c, vs, vc, vn) + [F(vs, vc, vn, 0, 0, 0) == 1 for F in (C3, D3, S3)]
    # polynomial loops
    u2, t2 = z3.Ints("u2 t2")
    def table(c, which, tot, extra, fns):
        out = []
        for nm, F in fns:
            for cond, A in lays(c, nm, which):
                body = Implies(And(0 <= u2, 0 <= t2, u2 + t2 <= tot, *extra(u2, t2)), A[u2][t2] == F(u2, t2, tot - u2 - t2))
                out.append(("%s coefficients, %s %s" % (nm, which, str(cond)[-1]), Implies(cond, fa([u2, t2], body, A[u2][t2]))))
        return out
    def tri(c): return c.lvof("starts"), c.i("vcur"), c.i("vnext")
    def cds(c): a, s, d = tri(c); return [(nm, lambda i, j, k, F=F: F(a, s, d, i, j, k)) for nm, F in (("C", C3), ("D", D3), ("S", S3))]
    def base_of(c): return c.at("walk.head")
    def acc(c, ps):
        a, s, d = tri(c); m0 = sel(base_of(c).m("moments"), MM[3])
        return ("sum so far", And(Implies(ps, mom(c) == m0 + TERM(a, s, d)), Implies(Not(ps), mom(c) == m0)))
    def order(c):
        o = c.lv; return [("counter in range", c.counter_range(1, P(c) + 1)), ("two layers", layers(c)), ("storage index", c.i("m") == TET(o)), acc(c, CO < o)] + table(c, "prevlayer", o - 1, lambda x, y: [], cds(c))
    def il(c):
        o, i = c.lvof("order"), c.lv
        return [("counter in range", And(c.counter_range(0, o + 1), rng(1, o, P(c) + 1))), ("two layers", layers(c)), ("storage index", c.i("m") == TET(o) + TRI(o - i)), acc(c, Or(CO < o, And(CO == o, IO > i)))] + table(c, "prevlayer", o - 1, lambda x, y: [], cds(c)) + table(c, "curlayer", o, lambda x, y: [x > i], cds(c))
    def jl(c):
        o, i, j = c.lvof("order"), c.lvof("i"), c.lv
        return [("counter in range", And(c.counter_range(0, o - i + 1), rng(1, o, P(c) + 1), rng(0, i, o + 1))), ("two layers", layers(c)), ("storage index", c.i("m") == idx(3, o, i, j)), acc(c, passed(o, i, j))] + table(c, "prevlayer", o - 1, lambda x, y: [], cds(c)) + table(c, "curlayer", o, lambda x, y: [Or(x > i, And(x == i, y > j))], cds(c))
    def inst(c, tot, fns, i, j):
        """instances of the previous-layer invariant at the three predecessor cells"""
        out = []
        for nm, F in fns:
            for cond, A in lays(c, nm, "prevlayer"):
                for x, y in ((i - 1, j), (i, j - 1), (i, j)): out.append(Implies(And(cond, 0 <= x, 0 <= y, x + y <= tot), sel(sel(A, x), y) == F(x, y, z3.simplify(tot - x - y))))
        return out
    def jh(c):
        a, s, d = tri(c); o, i, j = c.lvof("order"), c.lvof("i"), c.lv
        return inst(c, o - 1, cds(c), i, j) + koehl3(a, s, d, i, j, o - i - j, P3(c, a), P3(c, d), P3(c, s)) + cellfacts(3, P(c), o, i, j) + termdef(c, a, s, d)
    def jcut(c):
        h = c.at("j.head"); o, i, j = c.lvof("order"), c.lvof("i"), h.lvof("j")
        return [("new %s coefficient, layer %s" % (nm, str(cond)[-1]), Implies(cond, sel(sel(A, i), j) == F(i, j, o - i - j))) for nm, F in cds(c) for cond, A in lays(c, nm, "curlayer")]
    mu = [("C", MU[3])]
    def pos_(c, which, tot, extra):
        return [("coefficients are positive, %s %s" % (which, str(cond)[-1]), Implies(cond, fa([u2, t2], Implies(And(0 <= u2, 0 <= t2, u2 + t2 <= tot, *extra(u2, t2)), A[u2][t2] >= 1), A[u2][t2]))) for cond, A in lays(c, "C", which)]
    MN = lambda: MU[3](IO, JO, KO) * zr(CO + 1) * zr(CO + 2) * zr(CO + 3)
    def fin(c, ps): return ("normalised so far", And(Implies(Or(CO == 0, Not(ps)), mom(c) == ssum(c)), Implies(And(CO > 0, ps), mom(c) == ssum(c) / MN())))
    none = lambda x, y: []
    def no(c):
        o = c.lv; return [("counter in range", c.counter_range(1, P(c) + 1)), ("two layers", layers(c)), ("storage index", c.i("m") == TET(o)), fin(c, CO < o)] + table(c, "prevlayer", o - 1, none, mu) + pos_(c, "prevlayer", o - 1, none)
    def ni(c):
        o, i = c.lvof("norder"), c.lv; ex = lambda x, y: [x > i]
        return [("counter in range", And(c.counter_range(0, o + 1), rng(1, o, P(c) + 1))), ("two layers", layers(c)), ("storage index", c.i("m") == TET(o) + TRI(o - i)), fin(c, Or(CO < o, And(CO == o, IO > i)))] + table(c, "prevlayer", o - 1, none, mu) + table(c, "curlayer", o, ex, mu) + pos_(c, "prevlayer", o - 1, none) + pos_(c, "curlayer", o, ex)
    def nj(c):
        o, i, j = c.lvof("norder"), c.lvof("ni"), c.lv; ex = lambda x, y: [Or(x > i, And(x == i, y > j))]
        return [("counter in range", And(c.counter_range(0, o - i + 1), rng(1, o, P(c) + 1), rng(0, i, o + 1))), ("two layers", layers(c)), ("storage index", c.i("m") == idx(3, o, i, j)), fin(c, passed(o, i, j))] + table(c, "prevlayer", o - 1, none, mu) + table(c, "curlayer", o, ex, mu) + pos_(c, "prevlayer", o - 1, none) + pos_(c, "curlayer", o, ex)
    hl0 = lambda lab: (lambda c: cellfacts(3, P(c), c.lv, c.lv, I(0)))
    hl1 = lambda lab: (lambda c: cellfacts(3, P(c), c.lvof(lab), c.lv, c.lvof(lab) - c.lv))
    keep = lambda c: {"AP%d" % q: c.g("AP%d" % q) for q in range(3)}
    keep.keys = ("AP0", "AP1", "AP2")
    def sl_cases(c): return [(c.lv == k, {c.loop[0]: k}) for k in range(3)] + [(Not(rng(0, c.lv, 3)), {})]
    poly = Loop("order", order, hide=True, abstract=lambda c: [(SIXV(*tri(c)), sixdef(c, *tri(c)))], head_lemma=hl0("order"), children=[Loop("i", il, hide=True, head_lemma=hl1("order"), children=[Loop("j", jl, hide=True, head_lemma=jh, cuts=jcut)])])
    w = Loop("walk", walk, once=True, ghost=walk_ghost, ghost_init=walk_init, pre_lemma=walk_pre, head_lemma=walk_head, lemma=walk_lemma, exit_cuts=walk_exit, decreases=lambda c: CNT(*E(c)), children=[poly])
    lo = [Loop("zero", zero), Loop("starts", starts, ghost=keep, ghost_init=lambda c: {"AP%d" % q: fresh(AI, "gh_AP") for q in range(3)}, pre_lemma=lambda c: ([], [SS(*E(c), *AP(c)) == 0] + cellfacts(3, P(c), I(0), I(0), I(0))),
                children=[Loop("slots", slots, ghost=keep, cases=sl_cases, children=[w])]),
          Loop("norder", no, head_lemma=hl0("norder"), pre_lemma=lambda c: ([], multf(3, I(0), I(0), I(0))), children=[Loop("ni", ni, head_lemma=hl1("norder"), children=[Loop("nj", nj, head_lemma=lambda c: multf(3, c.lvof("ni"), c.lv, c.lvof("norder") - c.lvof("ni") - c.lv) + cellfacts(3, P(c), c.lvof("norder"), c.lvof("ni"), c.lv))])])]
    raw = lambda c: If(CO == 0, ssum(c), ssum(c) / MN())
    def allm(c): return [("every half-edge was integrated exactly once, slot %d" % q, fa(u_, Implies(rng(0, u_, N(c)), E(c)[q][u_] == 1), E(c)[q][u_])) for q in range(3)]
    def post(c):
        x = mom(c); n = N(c); c0 = c.old()
        fr = [("polyhedron unchanged: count", zi(c.m("poly.nverts")) == n)] + [("polyhedron unchanged: positions %d" % a, c.m("poly.verts.pos.%d" % a) == c0.m("poly.verts.pos.%d" % a)) for a in range(3)] + [("polyhedron unchanged: links %d" % a, c.m("poly.verts.pnbrs.%d" % a) == c0.m("poly.verts.pnbrs.%d" % a)) for a in range(3)]
        e = [("an empty polyhedron has zero moments", Implies(n <= 0, x == 0))]
        if "AP0" in c.st.ghost: e += allm(c)
        if shiftp: return fr + e + [("moments are those of the shifted polyhedron moved back", Implies(n > 0, x == SHIFTED(MM[3])))]
        if "AP0" not in c.st.ghost: return fr + e + [("no integral without triangles", n <= 0)]
        return fr + e + [("every moment is the sum of the tetrahedron integrals", And(Implies(CO == 0, x == ssum(c)), Implies(CO > 0, x == ssum(c) / MN())))]
    f = Fn("r3d_reduce", "src/r3d.c", params={"poly": "obj", "moments": ("arr", lambda b: NUM[3](zi(b["polyorder"]))), "polyorder": "scalar"}, pre=pre, post=post, loops=lo,
           contracts={"r3d_poly_center": Any("r3d_poly_center"), "r3d_shift_moments": ShiftC("r3d_shift_moments", 3, raw)} if shiftp else {})
    f.label = "shift" if shiftp else "noshift"; f.const_nests = True
    if not shiftp: f.tuopts = {"undef_shift": True}
    return f
FNS = [shift(2), shift(3), center(2), center(3), reduce2(True), reduce2(False), reduce3(False), reduce3(True)]

# ------------------------------------------------------------------ the recursion is the integral (every moment up to a fixed order)
from math import factorial as fac, comb
from fractions import Fraction as Fr
def koehl_poly(D, e):
    """Koehl's polynomial of exponents e by the recursion proved of the code, as a dict monomial -> coefficient over (vertex, coordinate)"""
    import functools
    def add(p, q):
        r = dict(p)
        for m, c in q.items(): r[m] = r.get(m, 0) + c
        return r
    def mulv(p, k, a): return {tuple(sorted(m + ((k, a),))): c for m, c in p.items()}
    @functools.lru_cache(None)
    def K(level, e):       # level 0 = last vertex only; each level adds one vertex
        if sum(e) == 0: return {(): 1}
        r = {}
        for a in range(D):
            if e[a] > 0: r = add(r, mulv(K(level, e[:a] + (e[a] - 1,) + e[a + 1:]), D - 1 - level, a))
        if level > 0: r = add(r, K(level - 1, e))
        return r
    return K(D - 1, tuple(e))
def integral_poly(D, e):
    """integral of prod_a (sum_k s_k v_k[a])^e_a over the standard simplex, divided by the determinant: exact, from the definition"""
    out = {}
    def rec(a, mono, pw, coef):
        if a == D:
            num = 1
            for p in pw: num *= fac(p)
            m = tuple(sorted(mono)); out[m] = out.get(m, 0) + coef * Fr(num, fac(sum(pw) + D)); return
        def split(k, left, parts):
            if k == D - 1: yield parts + [left]; return
            for x in range(left + 1): yield from split(k + 1, left - x, parts + [x])
        for parts in split(0, e[a], []):
            c = fac(e[a])
            for x in parts: c //= fac(x)
            rec(a + 1, mono + tuple((k, a) for k, x in enumerate(parts) for _ in range(x)), [p + x for p, x in zip(pw, parts)], coef * c)
    rec(0, (), [0] * D, Fr(1))
    return out
def toz3(p):
    v = {(k, a): z3.Real("w%d_%d" % (k, a)) for k in range(3) for a in range(3)}
    t = []
    for m, c in sorted(p.items()):
        x = R(str(c))
        for q in m: x = x * v[q]
        t.append(x)
    return z3.Sum(*t) if len(t) > 1 else t[0]
def lem_koehl(D, upto):
    out = []
    for c in range(1, upto + 1):
        for e in ([(i, c - i) for i in range(c + 1)] if D == 2 else [(i, j, c - i - j) for i in range(c + 1) for j in range(c - i + 1)]):
            m = fac(c)
            for x in e: m //= fac(x)
            norm = m
            for q in range(1, D + 1): norm *= c + q
            out.append(Lemma("normalised recursion is the simplex integral, exponents %s" % (e,), [], toz3(koehl_poly(D, e)) == R(norm) * toz3(integral_poly(D, e)), hint="ring"))
    return out
def lem_binom(D, upto):
    x, a = z3.Reals("x0 x1 x2"), z3.Reals("a0 a1 a2"); out = []
    def pw(v, n):
        r = R(1)
        for _ in range(n): r = r * v
        return r
    for n in range(1, upto + 1): out.append(Lemma("binomial expansion, exponent %d" % n, [], pw(x[0] + a[0], n) == z3.Sum(*[R(comb(n, k)) * pw(a[0], n - k) * pw(x[0], k) for k in range(n + 1)]), hint="ring"))
    return out
MOMASSUME = ["the integral over a closed polytope is the sum of the signed integrals over the simplices from the reference point to its boundary edges or fanned faces (divergence theorem)", "moment orders above the tabulated lemmas: Koehl's recursion (doi 10.1109/TPAMI.2012.23) is the simplex integral; the recursion itself is proved of the code for every order"]
prop("C09", fns=[shift(2), shift(3), center(2), center(3)], lemmas=lem_idx() + lem_binom(2, 6), rt=[("p_mom.c", "shift")], trusted=["partial sums and binomial coefficients are defined by their recursions"], assumptions=["pow(x,n) is x multiplied n times"])
prop("C07", fns=[reduce2(False), reduce2(True), shift(2), center(2)], lemmas=lem_idx() + lem_koehl(2, 6), rt=[("p_mom.c", "mom2")], assumptions=MOMASSUME)
prop("C08", fns=[reduce3(True), shift(3), center(3)], thorough_fns=[reduce3(False)], lemmas=lem_idx() + lem_koehl(3, 4), rt=[("p_mom.c", "mom3")], assumptions=MOMASSUME + ["every face cycle is simple and the three faces at a vertex are distinct (true of polyhedra)"],
     trusted=["the sum over the marked half-edges grows by one term when one half-edge is marked, their number falls by one (finite sums)"], budget=25.0)
