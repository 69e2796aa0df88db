import z3
from dv.symx import Fn, Loop, Ctx, zi, zr, fresh
Int, Real, I, R = z3.IntSort(), z3.RealSort(), z3.IntVal, z3.RealVal
And, Or, Not, Implies, If, ForAll, Select = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Select
MAXV = {2: 256, 3: 512, 4: 1024}
U = z3.Int("U!any")     # an arbitrary vertex: contracts that speak of U hold for every vertex

class Lemma:
    """a closed formula over contracts, to be discharged like any obligation"""
    def __init__(s, name, hyps, goal, hint=None): s.name, s.hyps, s.goal, s.hint = name, hyps, goal, hint

class Prop:
    def __init__(s, pid, fns=(), lemmas=(), rt=(), assumptions=(), trusted=(), bounded=(), budget=20.0, level="proof", note="", thorough_fns=(), lean=()):
        s.thorough_fns = list(thorough_fns); s.lean = list(lean)
        s.id, s.fns, s.lemmas, s.rt = pid, list(fns), list(lemmas), list(rt)
        s.assumptions, s.trusted, s.bounded, s.budget, s.level, s.note = list(assumptions), list(trusted), list(bounded), budget, level, note
PROPS = {}
def prop(*a, **k):
    p = Prop(*a, **k); PROPS[p.id] = p; return p

BASE_ASSUMPTIONS = [
    "double arithmetic is modelled as exact real arithmetic (no rounding, overflow, NaN)",
    "int arithmetic is modelled as mathematical integers; narrow or unsigned variables yield range obligations",
    "pointer arguments are non-null and do not alias unless the contract says so",
    "gcc -E preprocessing, the pycparser front end and the VC generator in /verif/dv are trusted",
]
