"""Decision procedure for identities between rational functions over the reals.

Both sides are normalised to fractions of multivariate polynomials over Q whose
indeterminates are the non-arithmetic subterms; a = b holds if the cross product
vanishes identically and every denominator is non-zero (denominators are proved
non-zero from the hypotheses by z3).  Hypotheses of the form atom*atom = t (sqrt,
sin/cos) are used as rewrite rules on squares."""
from fractions import Fraction
import z3

class GiveUp(Exception): pass
MAXTERMS = 60000

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    d = dict(m)
    for k, e in n: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    r = {}
    if len(a) * len(b) > 4000000: raise GiveUp("too large")
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > MAXTERMS: raise GiveUp("too large")
    return r
def pconst(c): return {(): Fraction(c)} if c else {}
ONE = {(): Fraction(1)}

class Norm:
    def __init__(self): self.atoms = {}; self.terms = {}; self.cache = {}; self.dens = []; self.rules = {}
    def atom(self, e):
        if z3.is_select(e):        # canonical index
            i = e.arg(1)
            if z3.is_int(i) and i.children():
                j = z3.simplify(i)
                if not j.eq(i): e = z3.Select(e.arg(0), j)
        k = e.get_id()
        if k not in self.atoms: self.atoms[k] = len(self.atoms); self.terms[self.atoms[k]] = e
        return {((self.atoms[k], 1),): Fraction(1)}
    def fr(self, e):
        """-> (num, den)"""
        k = e.get_id()
        if k in self.cache: return self.cache[k]
        r = self._fr(e)
        if self.rules: r = (self.reduce(r[0]), self.reduce(r[1]))
        self.cache[k] = r
        return r
    def _fr(self, e):
        if z3.is_rational_value(e): return pconst(Fraction(e.numerator_as_long(), e.denominator_as_long())), ONE
        if z3.is_int_value(e): return pconst(e.as_long()), ONE
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            a = e.arg(0)
            if z3.is_int_value(a): return pconst(a.as_long()), ONE
            if z3.is_add(a) or z3.is_mul(a) or z3.is_sub(a) or z3.is_app_of(a, z3.Z3_OP_UMINUS):
                return self._fr(a)
            return self.atom(a), ONE
        if z3.is_int(e) and z3.is_const(e): return self.atom(e), ONE
        if z3.is_add(e) or z3.is_sub(e):
            n, d = None, None
            for i, c in enumerate(e.children()):
                cn, cd = self.fr(c)
                if i == 0: n, d = cn, cd; continue
                s = -1 if z3.is_sub(e) else 1
                if d == cd: n = padd(n, cn, s)
                else: n, d = padd(pmul(n, cd), pmul(cn, d), s), pmul(d, cd)
            return n, d
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            n, d = self.fr(e.arg(0)); return padd({}, n, -1), d
        if z3.is_mul(e):
            n, d = ONE, ONE
            for c in e.children():
                cn, cd = self.fr(c)
                n, d = pmul(n, cn), (d if cd == ONE else pmul(d, cd))
            return n, d
        if z3.is_div(e):
            n, d = self.fr(e.arg(0)); n2, d2 = self.fr(e.arg(1))
            if not n2: raise GiveUp("division by 0")
            if set(n2) == {()}: 
                c = n2[()]
                return {m: v / c for m, v in pmul(n, d2).items()}, d
            self.dens.append(e.arg(1))
            return pmul(n, d2), pmul(d, n2)
        if z3.is_app_of(e, z3.Z3_OP_POWER):
            k = e.arg(1)
            if z3.is_int_value(k) or z3.is_rational_value(k):
                kk = int(str(k)); n, d = self.fr(e.arg(0)); rn, rd = ONE, ONE
                for _ in range(kk): rn, rd = pmul(rn, n), pmul(rd, d)
                return rn, rd
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            # both branches equal as fractions?
            a, b = self.fr(e.arg(1)), self.fr(e.arg(2))
            if not padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1): return a
        return self.atom(e), ONE
    def reduce(self, p):
        if not self.rules: return p
        for _ in range(60):
            hit = False; r = {}
            for m, c in p.items():
                done = False
                for (a, ex) in m:
                    if ex >= 2 and a in self.rules:
                        rest = tuple((x, e - 2 if x == a else e) for x, e in m if not (x == a and e == 2))
                        for m2, c2 in self.rules[a].items():
                            k = mmul(rest, m2); v = r.get(k, 0) + c * c2
                            if v: r[k] = v
                            else: r.pop(k, None)
                        done = hit = True; break
                if not done:
                    v = r.get(m, 0) + c
                    if v: r[m] = v
                    else: r.pop(m, None)
            p = r
            if not hit: return p
        raise GiveUp("rewriting")

def looks_ring(g):
    if not (z3.is_eq(g) and z3.is_real(g.arg(0))): return False
    return True

def find_rules(hyps, N):
    for h in hyps:
        if z3.is_implies(h): conc = h.arg(1); cond = h.arg(0)
        else: conc, cond = h, None
        cs = conc.children() if z3.is_and(conc) else [conc]
        for e in cs:
            if z3.is_eq(e) and z3.is_real(e.arg(0)) and z3.is_mul(e.arg(0)) and len(e.arg(0).children()) == 2 and e.arg(0).arg(0).eq(e.arg(0).arg(1)):
                a = e.arg(0).arg(0)
                if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
                if cond is not None and not entails(hyps, cond): continue
                n, d = N.fr(e.arg(1))
                if d == ONE:
                    k = list(N.atom(a))[0][0][0]
                    N.rules[k] = n
            # sin^2 + cos^2 = 1
            if z3.is_eq(e) and z3.is_add(e.arg(0)) and len(e.arg(0).children()) == 2 and all(z3.is_mul(c) for c in e.arg(0).children()) and str(e.arg(1)) == "1":
                a, b = e.arg(0).arg(0).arg(0), e.arg(0).arg(1).arg(0)
                ka = list(N.atom(a))[0][0][0]
                N.rules[ka] = padd(ONE, pmul(N.atom(b), N.atom(b)), -1)
    N.cache = {}

def entails(hyps, g, t=2000):
    if z3.is_true(z3.simplify(g)): return True
    from .symx import has_quant, nonlin
    if not nonlin(g):
        s = z3.Solver(); s.set("timeout", t)
        for h in hyps:
            if not has_quant(h) and not nonlin(h): s.add(h)
        s.add(z3.Not(g))
        if s.check() == z3.unsat: return True
        if t <= 500: return False
    s = z3.Solver(); s.set("timeout", t)
    for h in hyps:
        if not has_quant(h): s.add(h)
    s.add(z3.Not(g))
    if s.check() == z3.unsat: return True
    # structural: sums of squares
    return False

def eqsubst(hyps, goal):
    """use equations c = t (c an uninterpreted real constant not in t) as substitutions"""
    return goal

def mdiv(g, m):
    d = dict(g)
    for k, e in m:
        if d.get(k, 0) < e: return None
        d[k] -= e
        if d[k] == 0: del d[k]
    return tuple(sorted(d.items()))

def certificate(hyps, diff, N, maxrows=600):
    """diff = sum of multiples of (lhs - rhs) of equational hypotheses?  (certificate found by linear algebra)"""
    polys = []; mark = len(N.dens)
    for h in hyps:
        if z3.is_implies(h):
            if not entails(hyps, h.arg(0), 500): continue
            h = h.arg(1)
        for e in (h.children() if z3.is_and(h) else [h]):
            if not (z3.is_eq(e) and z3.is_real(e.arg(0))): continue
            mk = len(N.dens)
            try:
                an, ad = N.fr(e.arg(0)); bn, bd = N.fr(e.arg(1))
                q = N.reduce(padd(pmul(an, bd), pmul(bn, ad), -1))
            except GiveUp:
                del N.dens[mk:]; N.cache = {}; continue
            nd = N.dens[mk:]; del N.dens[mk:]
            if any(not entails(hyps, d != 0, 500) for d in nd): N.cache = {}; continue
            if q and len(q) <= 60: polys.append(q)
    rows, seen = [], set()
    want = set(diff); frontier = set(diff)
    for _ in range(3):
        new = set()
        for i, q in enumerate(polys):
            for g in frontier:
                for m in q:
                    t = mdiv(g, m)
                    if t is None or (i, t) in seen: continue
                    seen.add((i, t)); r = pmul(q, {t: Fraction(1)})
                    r = N.reduce(r)
                    if r: rows.append(r); new |= set(r)
                    if len(rows) > maxrows: break
                if len(rows) > maxrows: break
        frontier = new - want; want |= new
        if solve_lin(rows, diff): return True
        if not frontier or len(rows) > maxrows: break
    return False

def solve_lin(rows, target):
    piv = {}
    def red(r):
        r = dict(r)
        while r:
            m = max(r)
            if m not in piv: return r, m
            c = r[m]
            for k, v in piv[m].items():
                x = r.get(k, 0) - c * v
                if x: r[k] = x
                else: r.pop(k, None)
        return r, None
    def red_full(r):
        r = dict(r)
        for m in sorted(piv, reverse=True):
            if m in r:
                c = r[m]
                for k, v in piv[m].items():
                    x = r.get(k, 0) - c * v
                    if x: r[k] = x
                    else: r.pop(k, None)
        return r
    for r in rows:
        r, m = red(r)
        if m is not None:
            c = r[m]; piv[m] = {k: v / c for k, v in r.items()}
    return not red_full(target)

def prove(hyps, goal, lin=False):
    if z3.is_and(goal): return all(prove(hyps, g, lin) for g in goal.children())
    if z3.is_implies(goal): return prove(hyps + [goal.arg(0)], goal.arg(1), lin)
    if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))): raise GiveUp("shape")
    N = Norm()
    a, b = goal.arg(0), goal.arg(1)
    find_rules(hyps, N)
    an, ad = N.fr(a); bn, bd = N.fr(b)
    diff = N.reduce(padd(pmul(an, bd), pmul(bn, ad), -1))
    if diff and not (lin and certificate(hyps, diff, N)): return False
    for d in N.dens:
        if not entails(hyps, d != 0): return False
    return True
