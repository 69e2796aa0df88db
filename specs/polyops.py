"""Contracts of the half-space operations (clip, split, split_coord): shared vocabulary.

Every loop of these functions gets an invariant over *all* vertices, so nothing is bounded:
  dist      signed distances and side flags
  insert    cut vertices on bisected edges (positions and provisional links)
  relink    cut vertices are linked to each other by walking the boundary
  walk      one such walk (invariant: it stays on the chain of its start vertex; variant: chain rank)
  compress / reindex   removal of clipped vertices, through the ghost inverse permutation src
"""
from .common import *
from dv.symx import smart_select as sel

XN = {2: ("x", "y"), 3: ("x", "y", "z")}
u_, m_, j_, q_ = z3.Ints("u m j q")
def _has_ite(e): return z3.is_app_of(e, z3.Z3_OP_ITE) or z3.is_store(e) or any(_has_ite(c) for c in e.children())
def fa(v, body, *pats):
    v = v if isinstance(v, list) else [v]
    pats = [p for p in pats if not _has_ite(p)]
    return ForAll(v, body, patterns=list(pats)) if pats else ForAll(v, body)
def rng(lo, x, hi): return And(lo <= x, x < hi)

class View:
    """vertex data of a polytope in one state"""
    def __init__(s, c, D, name="poly"):
        s.D = D; s.n = zi(c.m(name + ".nverts"))
        s.nb = [c.m("%s.verts.pnbrs.%d" % (name, q)) for q in range(D)]
        s.pos = [c.m("%s.verts.pos.%d" % (name, k)) for k in range(D)]
    def p(s, u): return [sel(a, u) for a in s.pos]

def valid2(n, nb):
    return [("next links are in range and mutual", fa(u_, Implies(rng(0, u_, n), And(rng(0, nb[0][u_], n), nb[1][nb[0][u_]] == u_)), nb[0][u_])),
            ("previous links are in range and mutual", fa(u_, Implies(rng(0, u_, n), And(rng(0, nb[1][u_], n), nb[0][nb[1][u_]] == u_)), nb[1][u_]))]
def back(nb, t, u): return Or(*[b[t] == u for b in nb])
def valid3(n, nb):
    return [("neighbour %d is in range and links back" % q, fa(u_, Implies(rng(0, u_, n), And(rng(0, nb[q][u_], n), back(nb, nb[q][u_], u_))), nb[q][u_])) for q in range(3)]
def simple3(n, nb):
    return [("the neighbours of every vertex are distinct", fa(u_, Implies(rng(0, u_, n), And(nb[0][u_] != nb[1][u_], nb[0][u_] != nb[2][u_], nb[1][u_] != nb[2][u_])), nb[0][u_], nb[1][u_], nb[2][u_]))]

# affine functionals: uninterpreted; the definition is supplied at the points where it is needed
SDF = {D: z3.Function("SD%d" % D, *([Int] + [Real] * D + [Real])) for D in (2, 3, 4)}     # signed distance to plane q
HFF = {D: z3.Function("H%d" % D, *([Real] * D + [Real])) for D in (2, 3, 4)}              # an arbitrary affine functional
LKF = z3.Function("cut", Real, Real, Real, Real, Real)                                  # coordinate of the cut point
QP = z3.Int("Q!anyplane"); U0 = z3.Int("U0!anyvertex"); TRK = z3.Bool("TRK!inside_all")
def cutdef(a, b, sa, sb): return ((-sb) * a + sa * b) / ((-sb) + sa)

def lemma_cut(D):
    """an affine functional at the cut point: zero if it is the cutting plane, non-negative if non-negative at both ends"""
    out = []
    A = z3.Reals(" ".join("a%d" % k for k in range(D))); B = z3.Reals(" ".join("b%d" % k for k in range(D)))
    d, sa, sb = z3.Reals("d sa sb"); nn = z3.Reals(" ".join("n%d" % k for k in range(D)))
    f = lambda X: d + sum([nn[k] * X[k] for k in range(1, D)], nn[0] * X[0])
    P = [cutdef(A[k], B[k], sa, sb) for k in range(D)]
    h = [sa >= 0, sb < 0]
    out.append(Lemma("%dD: a functional at the cut point is the weighted mean of its end values" % D, h, f(P) == (-sb * f(A) + sa * f(B)) / (sa - sb), "ring"))
    fa_, fb_, fp = z3.Reals("fA fB fP")
    out.append(Lemma("%dD: weighted mean of non-negative values is non-negative" % D, h + [fp == (-sb * fa_ + sa * fb_) / (sa - sb), fa_ >= 0, fb_ >= 0], fp >= 0))
    out.append(Lemma("%dD: the cutting plane vanishes at the cut point" % D, h + [fp == (-sb * fa_ + sa * fb_) / (sa - sb), fa_ == sa, fb_ == sb], fp == 0))
    return out
def cut_facts(funs, A, B, sa, sb, zero=None):
    """instances of lemma_cut at one bisected edge"""
    P = [LKF(A[k], B[k], sa, sb) for k in range(len(A))]
    cond = And(sa >= 0, sb < 0)
    out = [LKF(A[k], B[k], sa, sb) == cutdef(A[k], B[k], sa, sb) for k in range(len(A))]
    for f in funs: out.append(Implies(And(cond, f(A) >= 0, f(B) >= 0), f(P) >= 0))
    if zero is not None: out.append(Implies(And(cond, zero(A) == sa, zero(B) == sb), zero(P) == 0))
    return out
