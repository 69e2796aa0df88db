"""Verification-condition generator for a C subset.

Forward symbolic execution of the real function bodies (pycparser AST of the
preprocessed source), function by function:
  * a loop is either unrolled completely (constant trip count) or cut by a loop
    contract: the invariant is an obligation on entry and on every back edge,
    everything the body can modify is havocked, the invariant is assumed;
  * a callee with a contract is replaced by it (precondition obligation, havoc of
    its frame, postcondition assumed); a callee without one is inlined;
  * every array access yields a bounds obligation.
double is modelled as a mathematical real, int as a mathematical integer.
"""
import re, itertools
from fractions import Fraction
import z3
from . import ring
from pycparser import c_ast
from .cparse import const_eval

EXPAND = 8          # arrays of constant size <= EXPAND are split into one cell per element
MAXUNROLL = 80

class Unsupported(Exception):
    """The code uses something the generator cannot translate."""
class StructuralMismatch(Exception):
    """Loop contracts cannot be attached to the loops of the current source."""
class Unbound(Exception):
    """A contract mentions a local that the current source does not have."""
    def __init__(self, name): self.name = name; super().__init__(name)
class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class TooManyPaths(Exception):
    pass

# ---------------------------------------------------------------- types
class T: pass
class IntT(T):
    def __init__(s, name="int", bits=32, signed=True): s.name, s.bits, s.signed = name, bits, signed
    def size(s): return s.bits // 8
class RealT(T):
    def __init__(s, name="double"): s.name = name
    def size(s): return 4 if s.name == "float" else 8
class PtrT(T):
    def __init__(s, to): s.to = to
    def size(s): return 8
class VoidT(T):
    def size(s): return 1
class StructT(T):
    def __init__(s, name, fields): s.name, s.fields = name, fields
    def field(s, f):
        for n, t in s.fields:
            if n == f: return t
        return None
    def align(s): return max([align(t) for _, t in s.fields] or [1])
    def size(s):
        off = 0
        for _, t in s.fields:
            a = align(t); off = _rnd(off, a); sz = t.size()
            if not isinstance(sz, int): return sz + off
            off += sz
        return _rnd(off, s.align())
class ArrT(T):
    def __init__(s, elem, n, aliases=None): s.elem, s.n, s.aliases = elem, n, aliases or {}
    def expanded(s): return isinstance(s.n, int) and s.n <= EXPAND
    def size(s):
        if s.n is None: return None
        e = s.elem.size()
        return _mul(e, s.n)
def _mul(a, b):
    return a * b
def _rnd(o, a): return (o + a - 1) // a * a
def align(t):
    if isinstance(t, ArrT): return align(t.elem)
    if isinstance(t, StructT): return t.align()
    return t.size()

INT_NAMES = {"char": (8, True), "short": (16, True), "int": (32, True), "long": (64, True), "_Bool": (8, False)}

def base_type(names):
    names = [n for n in names if n not in ("const", "volatile", "static", "register")]
    if "double" in names or "float" in names: return RealT("float" if "float" in names else "double")
    if names == ["void"]: return VoidT()
    unsigned = "unsigned" in names
    rest = [n for n in names if n not in ("unsigned", "signed")]
    if rest.count("long") >= 1: return IntT("long", 64, not unsigned)
    if "short" in rest: return IntT("short", 16, not unsigned)
    if "char" in rest: return IntT("char", 8, not unsigned)
    if "_Bool" in rest: return IntT("_Bool", 8, False)
    return IntT("int", 32, not unsigned)

# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("obj", "comps", "to")
    def __init__(s, obj, comps, to): s.obj, s.comps, s.to = obj, tuple(comps), to
    def __repr__(s): return "Ptr(%s,%s)" % (s.obj, s.comps)
class Null:
    pass
NULL = Null()
class Undef:
    """value of a pointer variable after a loop that assigns it: must be set again before it is read"""
    def __repr__(s): return "Undef"
UNDEF = Undef()
class Agg:
    """Value of a struct or array: sub-leaf path -> term."""
    def __init__(s, type, vals): s.type, s.vals = type, vals

def isz(v): return isinstance(v, z3.ExprRef)
def is_real(v): return isinstance(v, Fraction) or (isz(v) and z3.is_real(v))
def is_bool(v): return isinstance(v, bool) or (isz(v) and z3.is_bool(v))
def zi(v):
    if isinstance(v, bool): return z3.IntVal(1 if v else 0)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): raise Unsupported("real used as int")
    if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v
def zr(v):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, (int, Fraction)): return z3.RealVal(str(Fraction(v)))
    if z3.is_bool(v): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(v):
        return z3.ToReal(v)
    return v
def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, (int, Fraction)): return z3.BoolVal(v != 0)
    if isinstance(v, Ptr): return z3.BoolVal(True)
    if isinstance(v, Null): return z3.BoolVal(False)
    if z3.is_bool(v): return v
    if z3.is_int(v): return v != 0
    return v != 0
def numeral(v):
    """python int/Fraction if v is a literal, else None"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, (int, Fraction)): return v
    if isz(v):
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None
def norm(v):
    if isz(v):
        n = numeral(v)
        if n is not None:
            return Fraction(n) if z3.is_real(v) else n
        if z3.is_true(v): return True
        if z3.is_false(v): return False
    return v
def same_index(a, b):
    """True / False / None (unknown) for syntactic index comparison."""
    if isinstance(a, int) and isinstance(b, int): return a == b
    za, zb_ = zi(a), zi(b)
    if za.eq(zb_): return True
    d = z3.simplify(za - zb_)
    if z3.is_int_value(d): return d.as_long() == 0
    return None
def smart_select(arr, idx):
    i = zi(idx)
    while True:
        if z3.is_store(arr):
            r = same_index(arr.arg(1), i)
            if r is True: return arr.arg(2)
            if r is False:
                arr = arr.arg(0); continue
        elif z3.is_K(arr):
            return arr.arg(0)
        break
    return z3.Select(arr, i)

# ---------------------------------------------------------------- literals
def real_literal(txt):
    """Floating literal -> exact rational, idealised to p/q (q<=1000) when that is
    within 1 ulp of the literal (ONE_THIRD, ONE_SIXTH ...)."""
    t = re.sub(r"[fFlL]$", "", txt) if not txt.lower().startswith("0x") else txt
    v = Fraction(t) if not t.lower().startswith("0x") else Fraction(float.fromhex(t))
    if v != 0 and abs(v) < 10**6 and abs(v) > Fraction(1, 10**6):
        s = v.limit_denominator(1000)
        if abs(s - v) <= abs(v) * Fraction(1, 2**53): return s
    return v

# ---------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "frames", "pc", "decided", "labels", "ghost", "ret")
    def __init__(s):
        s.mem = {}; s.frames = [{}]; s.pc = []; s.decided = {}; s.labels = {}; s.ghost = {}; s.ret = None
    def copy(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.frames = [dict(f) for f in s.frames]; n.pc = list(s.pc)
        n.decided = dict(s.decided); n.labels = dict(s.labels); n.ghost = dict(s.ghost); n.ret = s.ret
        return n
    def decide(s, cond, val):
        s.decided[cond.get_id()] = (cond, val)
        c = cond if val else z3.Not(cond)
        nc = z3.simplify(z3.Not(cond))
        s.decided[nc.get_id()] = (nc, not val)
        s.pc.append(c)
    def assume(s, f):
        f = zb(f)
        if not z3.is_true(f): s.pc.append(f)

class Obj:
    def __init__(s, oid, type, name): s.id, s.type, s.name = oid, type, name

class Obligation:
    __slots__ = ("name", "kind", "hyps", "goal", "line", "fn", "path", "hint")
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k.get(a))

# ---------------------------------------------------------------- specs
def const_subst(pc, e):
    """replace real constants by the terms they equal according to the path condition"""
    m = {}
    def go(h):
        if z3.is_and(h):
            for x in h.children(): go(x)
        elif z3.is_eq(h) and h.arg(0).sort() == z3.RealSort():
            for a, b in ((h.arg(0), h.arg(1)), (h.arg(1), h.arg(0))):
                if z3.is_const(a) and z3.is_app_of(a, z3.Z3_OP_UNINTERPRETED) and not z3.is_const(b): m.setdefault(a.get_id(), (a, b))
    for h in pc: go(h)
    return z3.substitute(e, *m.values()) if m else e

def same_poly(a, b):
    try:
        N = ring.Norm(); (an, ad), (bn, bd) = N.fr(a), N.fr(b)
        return not ring.padd(ring.pmul(an, bd), ring.pmul(bn, ad), -1) and not N.dens
    except ring.GiveUp: return False

class Loop:
    """Loop contract. inv(c) -> [(name, formula)]; children are contracts of nested loops."""
    def __init__(s, label, inv, children=(), ghost=None, ghost_init=None, decreases=None, cases=None, lemma=None,
                 step=None, exit_lemma=None, head_lemma=None, havoc_extra=(), cuts=None, pre_lemma=None, exit_cuts=None, once=False, hide=False, each=None, mid=None, mid_cuts=None, mid_lemma=None, abstract=None, assumed=False):
        s.assumed = assumed                    # the loop's contract is taken on trust: body not checked, only its frame is computed
        s.abstract = abstract                  # terms that name the value of locals which provably equal them at loop entry
        s.mid_lemma = mid_lemma
        s.mid, s.mid_cuts = mid, mid_cuts      # intermediate assertion between the iterations of a constant loop in the body
        s.each = each      # precondition of the current element of arrays given as ("each", length, label)
        s.label, s.inv, s.children = label, inv, list(children)
        s.ghost, s.ghost_init, s.decreases, s.cases = ghost, ghost_init, decreases, cases
        s.lemma, s.step, s.exit_lemma, s.head_lemma = lemma, step, exit_lemma, head_lemma
        s.havoc_extra = havoc_extra
        s.cuts, s.pre_lemma, s.exit_cuts = cuts, pre_lemma, exit_cuts
        s.hide = hide      # quantified facts known before the loop are not used inside it (they return at its exit)
        s.once = once      # all paths into the loop are joined: the body is verified from the enclosing loop's head state

class Fn:
    """Function contract. params: name -> 'obj' | ('arr', len) | ('fix', k) | 'scalar' | ('rows', len, rowlen)"""
    def __init__(s, name, file, params=None, pre=None, post=None, loops=(), modifies=None, alias=None, consts=None,
                 unroll=False, locals=None, inline=(), contracts=None, lemma=None, expand_types=None):
        s.name, s.file, s.params, s.pre, s.post, s.loops = name, file, params or {}, pre, post, list(loops)
        s.modifies = modifies; s.alias = alias or {}; s.consts = consts or {}; s.unroll = unroll
        s.locals = locals or {}; s.inline = inline; s.contracts = contracts or {}; s.lemma = lemma

class Ctx:
    """What a contract can see: memory now / at labels, locals, ghost state."""
    def __init__(s, ex, st, binds=None, old=None, ret=None, loop=None, arrs=None):
        s.ex, s.st, s._old, s.ret, s.loop = ex, st, old, ret, loop
        s.binds = binds if binds is not None else getattr(ex, "binds", None)
        s.arrs = arrs if arrs is not None else getattr(ex, "arrparams", ())
    # -- the counter of the loop this contract is attached to
    @property
    def lv(s):
        if s.loop is None or s.loop[0] is None: raise Unbound("<loop counter>")
        nm = s.loop[0]
        for fr in reversed(s.st.frames):
            if nm in fr: return zi(s.st.mem[(fr[nm].id, ())])
        raise Unbound(nm)
    def counter_range(s, lo, hi):
        """range of the counter at the loop head, for a loop visiting lo..hi-1"""
        d = s.loop[1] if s.loop else "up"; v = s.lv; lo, hi = zi(lo), zi(hi)
        if d == "down": return z3.And(v >= lo - 1, z3.Or(v <= hi - 1, hi < lo))
        return z3.And(v >= lo, z3.Or(v <= hi, hi < lo))
    def lvof(s, label):
        """counter of an enclosing loop, by its contract label"""
        nm = s.ex.linfo[label][0]
        if nm is None: raise Unbound("<loop counter>")
        for fr in reversed(s.st.frames):
            if nm in fr: return zi(s.st.mem[(fr[nm].id, ())])
        raise Unbound(nm)
    def doneof(s, label, u):
        d = s.ex.linfo[label][1]; v = s.lvof(label)
        return u < v if d == "up" else (u > v if d == "down" else u >= v)
    def done(s, u):
        """has index u been processed when control is at the loop head?"""
        d = s.loop[1] if s.loop else "up"; v = s.lv
        return u < v if d == "up" else (u > v if d == "down" else u >= v)
    # -- lookup helpers
    def _bind(s, name):
        if s.binds is not None and name in s.binds: return s.binds[name]
        return None
    def _resolve(s, name):
        b = s._bind(name)
        if b is not None: return b
        ex = s.ex
        nm = ex.renames.get(name, name)
        for fr in reversed(s.st.frames):
            if nm in fr: return Ptr(fr[nm].id, (), fr[nm].type)
        raise Unbound(name)
    def v(s, name):
        """value of a local / scalar parameter"""
        p = s._resolve(name)
        if not isinstance(p, Ptr): return p
        val = s.st.mem.get((p.obj, ()))
        if val is None: raise Unsupported("no scalar " + name)
        return val
    def i(s, name): return zi(s.v(name))
    def r(s, name): return zr(s.v(name))
    def m(s, path):
        """leaf term: 'poly.verts.pnbrs.0' (array dimensions are implicit)"""
        parts = path.split("."); name = parts[0]
        p = s._resolve(name)
        ex = s.ex
        if isinstance(p, Ptr):
            # a pointer-typed local/parameter: follow it
            val = s.st.mem.get((p.obj, ()))
            if isinstance(val, Ptr): p = val
        if not isinstance(p, Ptr):
            if len(parts) == 1: return p
            raise Unsupported("m(%s)" % path)
        comps = list(p.comps)
        if name in s.arrs and comps and isinstance(comps[-1], int) and comps[-1] == 0: comps = comps[:-1]
        want = [int(x) if x.isdigit() else x for x in parts[1:]]
        return ex.read_leaf(s.st, p.obj, comps, want, p.to)
    def scal(s, path):
        t = s.m(path)
        return t
    def g(s, name): return s.st.ghost[name]
    def at(s, label):
        if label not in s.st.labels: raise Unsupported("label " + label)
        mem, frames, ghost = s.st.labels[label]
        st2 = State(); st2.mem = mem; st2.frames = frames; st2.ghost = ghost; st2.labels = s.st.labels
        return Ctx(s.ex, st2, s.binds, s._old, s.ret, s.loop, s.arrs)
    def old(s):
        if s._old is not None: return s._old
        return s.at("fn.entry")

CMOD, CDIV = (z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n in ("cmod", "cdiv"))   # C remainder and quotient
def modfacts(x, y):
    q, r = CDIV(x, y), CMOD(x, y)
    return [z3.Implies(z3.And(0 <= x, x < y), z3.And(r == x, q == 0)),
            z3.Implies(z3.And(y > 0, y <= x, x < 2 * y), z3.And(r == x - y, q == 1)),
            z3.Implies(z3.And(y > 0, 2 * y <= x, x < 3 * y), z3.And(r == x - 2 * y, q == 2)),
            z3.Implies(z3.And(0 <= x, y > 0), z3.And(0 <= r, r < y, q >= 0, x == q * y + r)),
            z3.Implies(z3.And(x < 0, y > 0), z3.And(-y < r, r <= 0, x == q * y + r))]
def sum_of_squares(x):
    if z3.is_add(x): return all(sum_of_squares(c) for c in x.children())
    if z3.is_rational_value(x): return x.numerator_as_long() >= 0
    return z3.is_mul(x) and len(x.children()) == 2 and x.arg(0).eq(x.arg(1))
_sq = {"norm": None, "reps": {}}
def sqrt_of(x):
    """sqrt term; arguments that are the same polynomial share one term"""
    from . import ring
    f = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
    if _sq["norm"] is None: _sq["norm"] = ring.Norm()
    N = _sq["norm"]
    try: n, d = N.fr(x)
    except ring.GiveUp: return f(x)
    key = (frozenset(n.items()), frozenset(d.items()))
    if key not in _sq["reps"]: _sq["reps"][key] = x
    return f(_sq["reps"][key])

_ctr = itertools.count()
def fresh(sort, name):
    return z3.Const("%s!%d" % (name, next(_ctr)), sort)

def arr_sort(ndims, scalar):
    so = scalar
    for _ in range(ndims): so = z3.ArraySort(z3.IntSort(), so)
    return so
def scalar_sort(t):
    return z3.RealSort() if isinstance(t, RealT) else z3.IntSort()

def leaves(t, pre=()):
    """(path, scalar type, ndims) for every leaf below type t"""
    if isinstance(t, StructT):
        for n, ft in t.fields:
            yield from leaves(ft, pre + (n,))
    elif isinstance(t, ArrT):
        if t.expanded():
            for k in range(t.n): yield from leaves(t.elem, pre + (k,))
        else:
            for p, st, nd in leaves(t.elem, pre + ("[]",)): yield p, st, nd + 1
    else:
        yield pre, t, 0

class Exec:
    def __init__(self, tu, specs, fnspec, renames=None, math_axioms=None):
        self.tu, self.specs, self.spec = tu, specs, fnspec
        self.renames = renames or {}
        self.obls = []
        self.objs = {}
        self.dry = 0
        self.in_mid = 0
        self.wlog = None
        self.inline_expr = 0
        self.modcache = {}; self.modacc = {}; self.loopids = {}
        self.loopmap = {}
        self.curspec = []
        self.facts = []          # axioms for math functions met, etc
        self.assumed = set()     # human-readable list of assumptions used
        self.used_contracts = set(); self.headst, self.headgen, self.joined = {}, {}, set()
        self.inlined = set()
        self.callstack = []
        self.covers = []
        self.npaths = 0
        self.linfo = {}
        self._mod = {}

    # ------------------------------------------------------------ types
    def ctype(self, n, st=None):
        if isinstance(n, c_ast.TypeDecl): return self.ctype(n.type, st)
        if isinstance(n, c_ast.Typename): return self.ctype(n.type, st)
        if isinstance(n, c_ast.PtrDecl): return PtrT(self.ctype(n.type, st))
        if isinstance(n, c_ast.FuncDecl): return VoidT()
        if isinstance(n, c_ast.ArrayDecl):
            sz = None
            if n.dim is not None:
                sz = const_eval(n.dim, self.tu.enums)
                if sz is None:
                    if st is None: sz = None
                    else: sz = norm(self.toint(self.ev(n.dim, st)))
            return ArrT(self.ctype(n.type, st), sz)
        if isinstance(n, c_ast.IdentifierType):
            if len(n.names) == 1 and n.names[0] in self.tu.typedefs:
                t = self.ctype(self.tu.typedefs[n.names[0]], st)
                if isinstance(t, StructT) and not t.name: t.name = n.names[0]
                return t
            return base_type(n.names)
        if isinstance(n, c_ast.Enum): return IntT()
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            node = n
            if n.decls is None:
                node = self.tu.structs.get(n.name)
                if node is None: return StructT(n.name, [])
            if isinstance(node, c_ast.Struct):
                fields = []
                for d in node.decls:
                    t = self.ctype(d.type, st)
                    if d.name is None and isinstance(t, StructT): fields += t.fields
                    else: fields.append((d.name, t))
                return StructT(node.name, fields)
            return self.union(node, st)
        raise Unsupported("type %s" % type(n).__name__)

    def union(self, node, st):
        arr, names = None, None
        for d in node.decls:
            t = self.ctype(d.type, st)
            if isinstance(t, ArrT): arr = (d.name, t)
            elif isinstance(t, StructT): names = [f for f, _ in t.fields]
            else: raise Unsupported("union member")
        if not arr or not names or len(names) != arr[1].n: raise Unsupported("union layout")
        return ArrT(arr[1].elem, arr[1].n, dict([(n, i) for i, n in enumerate(names)] + [(arr[0], None)]))

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, t, init=None, zero=False):
        oid = "%s#%d" % (name, next(_ctr))
        self.objs[oid] = Obj(oid, t, name)
        for path, sc, nd in leaves(t):
            if isinstance(sc, PtrT):
                if nd: raise Unsupported("array of pointers " + name)
                st.mem[(oid, path)] = NULL
                continue
            if isinstance(sc, VoidT): raise Unsupported("void object")
            if zero:
                v = z3.RealVal(0) if isinstance(sc, RealT) else z3.IntVal(0)
                for _ in range(nd): v = z3.K(z3.IntSort(), v)
                st.mem[(oid, path)] = norm(v) if nd == 0 else v
            else:
                st.mem[(oid, path)] = fresh(arr_sort(nd, scalar_sort(sc)), name + "".join("." + str(p) for p in path if p != "[]"))
        return self.objs[oid]

    def oblige(self, st, kind, name, goal, line=None, hint=None):
        if self.dry: return
        g = zb(goal)
        if z3.is_true(g): g = z3.BoolVal(True)
        self.obls.append(Obligation(name=name, kind=kind, hyps=list(st.pc), goal=g, line=line, fn=self.spec.name, hint=hint))

    # ------------------------------------------------------------ memory walk
    def walk(self, st, obj, comps, want=(), line=None, check=True):
        """-> (leafpath, idxs, type). comps: C access path; want: contract path without indices"""
        t = self.objs[obj].type
        path, idxs = [], []
        comps = list(comps)
        if obj in self.focus and check:      # only the element of the current iteration may be touched
            lab, ln = self.focus[obj]
            if not comps or isinstance(comps[0], str): raise Unsupported("whole array %s" % self.objs[obj].name)
            nm = self.linfo.get(lab, (None,))[0]
            cur = None
            for fr in reversed(st.frames):
                if nm is not None and nm in fr: cur = st.mem[(fr[nm].id, ())]; break
            if not self.dry and (cur is None or not (isz(cur) or isinstance(cur, int)) or same_index(comps[0], cur) is not True): raise Unsupported("element of %s other than that of the current iteration" % self.objs[obj].name)
            self.oblige(st, "bounds", "index of %s within the array" % self.objs[obj].name, z3.And(zi(comps[0]) >= 0, zi(comps[0]) < zi(ln)), line)
            comps[0] = 0
        i = 0
        def step_arr(t, c):
            if t.n is not None and check:
                n = t.n
                if not (isinstance(c, int) and isinstance(n, int) and 0 <= c < n):
                    self.oblige(st, "bounds", "index of %s within [0,%s)" % (self.objs[obj].name + "".join("." + str(p) for p in path if p != "[]"), n if isinstance(n, int) else "len"),
                                z3.And(zi(c) >= 0, zi(c) < zi(n)), line)
            if t.expanded():
                if isinstance(c, int):
                    if not 0 <= c < t.n:
                        # out of range: obligation (already emitted) fails; continue with element 0
                        c = 0
                    path.append(c)
                else:
                    c2 = norm(z3.simplify(c))
                    if isinstance(c2, int): path.append(min(max(c2, 0), t.n - 1))
                    else:
                        k = 0
                        while k < t.n - 1:
                            if self.truth(st, zi(c) == k): break
                            k += 1
                        path.append(k)
            else:
                path.append("[]"); idxs.append(c)
        for c in comps:
            if isinstance(t, StructT):
                if not isinstance(c, str): raise Unsupported("index into struct")
                ft = t.field(c)
                if ft is None: raise Unsupported("no field " + c)
                path.append(c); t = ft
            elif isinstance(t, ArrT):
                if isinstance(c, str):
                    if c not in t.aliases: raise Unsupported("field %s of array" % c)
                    if t.aliases[c] is None: continue
                    path.append(t.aliases[c]); t = t.elem
                else:
                    step_arr(t, c); t = t.elem
            else:
                if c == 0: continue     # pointer to scalar used as p[0]
                if not isinstance(c, str):
                    self.oblige(st, "bounds", "index of single object %s" % self.objs[obj].name, zi(c) == 0, line); continue
                raise Unsupported("path into scalar")
        want = list(want)
        while want:
            w = want.pop(0)
            while isinstance(t, ArrT) and not t.expanded():
                path.append("[]"); t = t.elem
            if isinstance(t, StructT):
                if isinstance(w, int) and len(t.fields) == 1:
                    path.append(t.fields[0][0]); t = t.fields[0][1]; want.insert(0, w); continue
                ft = t.field(w)
                if ft is None: raise Unsupported("no field %s" % w)
                path.append(w); t = ft
            elif isinstance(t, ArrT):
                if isinstance(w, str):
                    if w in t.aliases and t.aliases[w] is not None: w = t.aliases[w]
                    elif w in t.aliases: continue
                    else: raise Unsupported("alias %s" % w)
                path.append(w); t = t.elem
            else: raise Unsupported("want path")
        return tuple(path), idxs, t

    def read_leaf(self, st, obj, comps, want, to=None):
        path, idxs, t = self.walk(st, obj, comps, want, check=False)
        while isinstance(t, ArrT) and not t.expanded():
            path = path + ("[]",); t = t.elem
        if isinstance(t, (StructT, ArrT)): raise Unsupported("contract path %s is an aggregate" % (want,))
        term = st.mem[(obj, path)]
        for ix in idxs: term = smart_select(term, ix)
        return term

    def write_key(self, key):
        if self.wlog is not None: self.wlog.add(key)

    def load(self, st, obj, comps, line=None):
        path, idxs, t = self.walk(st, obj, comps, line=line)
        if isinstance(t, (StructT, ArrT)):
            vals = {}
            for sub, sc, nd in leaves(t):
                term = st.mem[(obj, path + sub)]
                for ix in idxs: term = smart_select(term, ix)
                vals[sub] = term
            return Agg(t, vals)
        term = st.mem[(obj, path)]
        if isinstance(term, Undef): raise Unsupported("pointer %s is read after a loop that assigns it" % self.objs[obj].name)
        for ix in idxs: term = smart_select(term, ix)
        return norm(term) if isz(term) else term

    def _store_term(self, st, key, idxs, val, sc):
        self.write_key(key)
        if not idxs:
            st.mem[key] = val; return
        base = st.mem[key]
        def put(arr, i, x):       # an element written twice in a row keeps only the last value
            if z3.is_store(arr) and same_index(arr.arg(1), i) is True: arr = arr.arg(0)
            return z3.Store(arr, zi(i), x)
        def rec(arr, ixs):
            if len(ixs) == 1: return put(arr, ixs[0], v)
            inner = smart_select(arr, ixs[0])
            return put(arr, ixs[0], rec(inner, ixs[1:]))
        v = val
        if not (isz(v) and z3.is_array(v)):
            v = zr(v) if isinstance(sc, RealT) else zi(v)
        st.mem[key] = rec(base, idxs)

    def convert(self, st, val, t, line=None):
        """C assignment conversion to scalar type t"""
        if isinstance(t, RealT):
            if isinstance(val, (Ptr, Null, Agg)): raise Unsupported("ptr to real")
            if t.name == "float":
                if not (numeral(val) is not None and float(numeral(val)) == float(Fraction(float(numeral(val))))):
                    self.oblige(st, "precision", "no narrowing to float", z3.BoolVal(False), line)
            if isinstance(val, bool): return Fraction(int(val))
            if isinstance(val, (int, Fraction)): return Fraction(val)
            return zr(val)
        if isinstance(t, IntT):
            if isinstance(val, (Ptr, Null)): raise Unsupported("ptr to int")
            v = self.toint(val)
            if t.bits < 32 or not t.signed:
                lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
                if t.name == "_Bool": return norm(z3.simplify(z3.If(zb(val), z3.IntVal(1), z3.IntVal(0))))
                if not (isinstance(v, int) and lo <= v <= hi):
                    self.oblige(st, "range", "value fits the %d-bit variable" % t.bits, z3.And(zi(v) >= lo, zi(v) <= hi), line)
            return v
        return val

    def toint(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, Fraction):
            return int(v)  # truncation toward zero
        if isinstance(v, (Ptr, Null, Agg)): raise Unsupported("int conversion")
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(v): return v
        # real -> int
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
        s = z3.simplify(v)
        if z3.is_rational_value(s): return int(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        integral = self.integral(v)
        if integral is not None: return integral
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def integral(self, v):
        """int term equal to real term v if v is syntactically integral"""
        if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
        if z3.is_rational_value(v):
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return z3.IntVal(f.numerator) if f.denominator == 1 else None
        if z3.is_add(v) or z3.is_mul(v) or z3.is_sub(v) or z3.is_app_of(v, z3.Z3_OP_UMINUS):
            ch = [self.integral(c) for c in v.children()]
            if any(c is None for c in ch): return None
            if z3.is_add(v):
                r = ch[0]
                for c in ch[1:]: r = r + c
                return r
            if z3.is_mul(v):
                r = ch[0]
                for c in ch[1:]: r = r * c
                return r
            if z3.is_sub(v):
                r = ch[0]
                for c in ch[1:]: r = r - c
                return r
            return -ch[0]
        return None

    def store(self, st, obj, comps, val, line=None):
        path, idxs, t = self.walk(st, obj, comps, line=line)
        if isinstance(t, (StructT, ArrT)):
            if not isinstance(val, Agg): raise Unsupported("aggregate store")
            for sub, sc, nd in leaves(t):
                if sub not in val.vals: raise Unsupported("aggregate layout mismatch")
                self._store_term(st, (obj, path + sub), idxs, val.vals[sub], sc)
            return
        if isinstance(t, PtrT):
            if idxs: raise Unsupported("pointer array store")
            self.write_key((obj, path)); st.mem[(obj, path)] = val; return
        v = self.convert(st, val, t, line)
        v = norm(v)
        self._store_term(st, (obj, path), idxs, v, t)

    # ------------------------------------------------------------ truth / forks
    def truth(self, st, cond):
        if isinstance(cond, bool): return cond
        if isinstance(cond, (int, Fraction)): return cond != 0
        if isinstance(cond, Ptr): return True
        if isinstance(cond, Null): return False
        c = z3.simplify(zb(cond))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        d = st.decided.get(c.get_id())
        if d is not None: return d[1]
        raise Fork(c)

    # ------------------------------------------------------------ lvalues
    def var(self, st, name):
        for i in (len(st.frames) - 1, 0):
            pass
        fr = st.frames[-1]
        if name in fr: return fr[name]
        # block scoping is flattened inside a function frame; globals last
        if name in self.tu.globals: return self.global_obj(st, name)
        return None

    def global_obj(self, st, name):
        if ("glob", name) not in self._mod:
            d = self.tu.globals[name]
            o = self.new_obj(st, name, self.ctype(d.type, st))
            self._mod[("glob", name)] = o
            if d.init is not None: self.init_var(st, o, (), o.type, d.init)
        o = self._mod[("glob", name)]
        for path, sc, nd in leaves(o.type):
            if (o.id, path) not in st.mem:
                d = self.tu.globals[name]
                if "const" in (d.quals or []) and d.init is not None:
                    for p2, sc2, nd2 in leaves(o.type): st.mem[(o.id, p2)] = fresh(arr_sort(nd2, scalar_sort(sc2)), name)
                    self.init_var(st, o, (), o.type, d.init)
                else:
                    st.mem[(o.id, path)] = fresh(arr_sort(nd, scalar_sort(sc)), name)
        return o

    def lv(self, n, st):
        """-> (obj, comps, type)"""
        line = n.coord.line if n.coord else None
        if isinstance(n, c_ast.ID):
            o = self.var(st, n.name)
            if o is None: raise Unsupported("unknown identifier " + n.name)
            return o.id, (), o.type
        if isinstance(n, c_ast.ArrayRef):
            idx = self.toint(self.ev(n.subscript, st))
            idx = norm(idx)
            p = self.ev_ptr(n.name, st)
            return self.ptr_index(p, idx)
        if isinstance(n, c_ast.StructRef):
            if n.type == "->":
                p = self.ev_ptr(n.name, st)
                obj, comps, t = self.ptr_index(p, 0)
            else:
                if isinstance(n.name, c_ast.FuncCall):
                    a = self.ev(n.name, st)
                    o = self.new_obj(st, "tmp", a.type)
                    self.store(st, o.id, (), a)
                    obj, comps, t = o.id, (), a.type
                else:
                    obj, comps, t = self.lv(n.name, st)
            f = n.field.name
            if isinstance(t, StructT):
                ft = t.field(f)
                if ft is None: raise Unsupported("field " + f)
                return obj, comps + (f,), ft
            if isinstance(t, ArrT) and f in t.aliases:
                if t.aliases[f] is None: return obj, comps + (f,), t
                return obj, comps + (t.aliases[f],), t.elem
            raise Unsupported("member access")
        if isinstance(n, c_ast.UnaryOp) and n.op == "*":
            p = self.ev_ptr(n.expr, st)
            return self.ptr_index(p, 0)
        if isinstance(n, c_ast.Cast): return self.lv(n.expr, st)
        if isinstance(n, c_ast.CompoundLiteral):
            t = self.ctype(n.type, st)
            o = self.new_obj(st, "cl", t)
            self.init_var(st, o, (), t, n.init)
            return o.id, (), t
        raise Unsupported("lvalue %s" % type(n).__name__)

    def ptr_index(self, p, idx):
        if not isinstance(p, Ptr): raise Unsupported("dereference of a non-pointer")
        if p.comps and not isinstance(p.comps[-1], str):
            last = p.comps[-1]
            new = last + idx if (isinstance(last, int) and isinstance(idx, int)) else norm(z3.simplify(zi(last) + zi(idx))) if not (isinstance(idx, int) and idx == 0) else last
            if isinstance(last, int) and last == 0: new = idx
            return p.obj, p.comps[:-1] + (new,), p.to
        if isinstance(idx, int) and idx == 0: return p.obj, p.comps, p.to
        return p.obj, p.comps + (idx,), p.to

    def decay(self, obj, comps, t):
        return Ptr(obj, tuple(comps) + (0,), t.elem)

    def ev_ptr(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, Ptr): return v
        raise Unsupported("expected pointer, got %r" % (type(v),))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        line = n.coord.line if getattr(n, "coord", None) else None
        if isinstance(n, c_ast.Constant):
            if n.type in ("double", "float", "long double"): return real_literal(n.value)
            if n.type == "string": return None
            if n.type == "char": return ord(eval(n.value))
            return int(re.sub(r"[uUlL]+$", "", n.value), 0)
        if isinstance(n, c_ast.ID):
            if n.name in self.tu.enums: return self.tu.enums[n.name]
            o = self.var(st, n.name)
            if o is None:
                if n.name in self.tu.funcs: return ("func", n.name)
                raise Unsupported("unknown identifier " + n.name)
            if isinstance(o.type, ArrT) and not o.type.aliases: return self.decay(o.id, (), o.type)
            return self.load(st, o.id, (), line)
        if isinstance(n, (c_ast.ArrayRef, c_ast.StructRef)):
            if isinstance(n, c_ast.StructRef) and n.type == "." and isinstance(n.name, c_ast.FuncCall):
                pass
            obj, comps, t = self.lv(n, st)
            if isinstance(t, ArrT):
                if isinstance(n, c_ast.StructRef) and not t.aliases: return self.decay(obj, comps, t)
                if isinstance(n, c_ast.StructRef) and n.field.name in t.aliases and t.aliases[n.field.name] is None:
                    return self.decay(obj, comps, t)
                if isinstance(n, c_ast.ArrayRef) and not t.aliases: return self.decay(obj, comps, t)
            return self.load(st, obj, comps, line)
        if isinstance(n, c_ast.Assignment): return self.assign(n, st)
        if isinstance(n, c_ast.UnaryOp): return self.unary(n, st)
        if isinstance(n, c_ast.BinaryOp):
            if n.op in ("&&", "||"): return self.logic(n, st)
            a = self.ev(n.left, st); b = self.ev(n.right, st)
            return self.binop(n.op, a, b, st, line)
        if isinstance(n, c_ast.TernaryOp):
            c = self.ev(n.cond, st)
            return self.ev(n.iftrue, st) if self.truth(st, c) else self.ev(n.iffalse, st)
        if isinstance(n, c_ast.Cast):
            t = self.ctype(n.to_type, st)
            v = self.ev(n.expr, st)
            if isinstance(t, (IntT, RealT)): return norm(self.convert(st, v, t, line))
            return v
        if isinstance(n, c_ast.ExprList):
            v = None
            for e in n.exprs: v = self.ev(e, st)
            return v
        if isinstance(n, c_ast.FuncCall): return self.call_expr(n, st)
        if isinstance(n, c_ast.CompoundLiteral):
            obj, comps, t = self.lv(n, st); return self.load(st, obj, comps)
        if isinstance(n, c_ast.InitList): raise Unsupported("initialiser list in expression")
        raise Unsupported("expression %s" % type(n).__name__)

    def logic(self, n, st):
        a = self.ev(n.left, st)
        za = z3.simplify(zb(a))
        if z3.is_true(za): return True if n.op == "||" else self.asbool(self.ev(n.right, st))
        if z3.is_false(za): return False if n.op == "&&" else self.asbool(self.ev(n.right, st))
        d = st.decided.get(za.get_id())
        if d is not None:
            if d[1]: return True if n.op == "||" else self.asbool(self.ev(n.right, st))
            return False if n.op == "&&" else self.asbool(self.ev(n.right, st))
        if self.effects(n.right): raise Fork(za)
        st.pc.append(za if n.op == "&&" else z3.Not(za))
        k = len(st.pc)
        try:
            b = self.asbool(self.ev(n.right, st))
        finally:
            del st.pc[k - 1:]
        return z3.And(za, zb(b)) if n.op == "&&" else z3.Or(za, zb(b))

    def asbool(self, v):
        if isinstance(v, (bool,)): return v
        return norm(z3.simplify(zb(v)))

    def effects(self, n):
        class V(c_ast.NodeVisitor):
            hit = False
            def visit_Assignment(s, x): s.hit = True
            def visit_UnaryOp(s, x):
                if x.op in ("++", "--", "p++", "p--"): s.hit = True
                s.generic_visit(x)
            def visit_FuncCall(s, x):
                s.hit = s.hit or (isinstance(x.name, c_ast.ID) and x.name.name in self.tu.funcs)
                s.generic_visit(x)
            def visit_TernaryOp(s, x): s.hit = True
        v = V(); v.visit(n); return v.hit

    def binop(self, op, a, b, st, line):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, Null) or isinstance(b, Null):
            if op in ("==", "!="):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.obj != b.obj: r = False
                    elif a.comps == b.comps: r = True
                    elif len(a.comps) == len(b.comps) and a.comps[:-1] == b.comps[:-1] and not isinstance(a.comps[-1], str):
                        r = zi(a.comps[-1]) == zi(b.comps[-1])
                    else: raise Unsupported("pointer comparison")
                else:
                    if isinstance(a, int): a = NULL
                    if isinstance(b, int): b = NULL
                    r = isinstance(a, Null) and isinstance(b, Null)
                return (r if op == "==" else (not r if isinstance(r, bool) else z3.Not(r)))
            if op in ("+", "-") and isinstance(a, Ptr) and not isinstance(b, Ptr):
                k = self.toint(b)
                obj, comps, t = self.ptr_index(a, k if op == "+" else (-k if isinstance(k, int) else -k))
                return Ptr(obj, comps, t)
            if op == "+" and isinstance(b, Ptr): return self.binop(op, b, a, st, line)
            if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.comps[:-1] == b.comps[:-1]:
                return norm(z3.simplify(zi(a.comps[-1]) - zi(b.comps[-1])))
            if op in ("<", ">", "<=", ">=") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.comps[:-1] == b.comps[:-1]:
                return self.binop(op, a.comps[-1], b.comps[-1], st, line)
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, Agg) or isinstance(b, Agg) or a is None or b is None: raise Unsupported("aggregate operand")
        real = is_real(a) or is_real(b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if not isz(a) and not isz(b):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
            x, y = (zr(a), zr(b)) if real else (zi(a), zi(b))
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        if not isz(a) and not isz(b):
            if isinstance(a, bool): a = int(a)
            if isinstance(b, bool): b = int(b)
            if real: a, b = Fraction(a), Fraction(b)
            try:
                if op == "+": return a + b
                if op == "-": return a - b
                if op == "*": return a * b
                if op == "/":
                    if real: return a / b
                    q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
                if op == "%":
                    q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                    return a - b * q
                if op == "<<": return a << b
                if op == ">>": return a >> b
                if op == "&": return a & b
                if op == "|": return a | b
                if op == "^": return a ^ b
            except ZeroDivisionError:
                if real: return zr(a) / zr(b)
                self.oblige(st, "div", "division by zero", z3.BoolVal(False), line); return 0
            raise Unsupported("operator " + op)
        if real:
            x, y = zr(a), zr(b)
            if op == "+": return x + y if not self._z(a, 0) and not self._z(b, 0) else (y if self._z(a, 0) else x)
            if op == "-": return x - y if not self._z(b, 0) else x
            if op == "*":
                if self._z(a, 0) or self._z(b, 0): return Fraction(0)
                if self._z(a, 1): return y
                if self._z(b, 1): return x
                return x * y
            if op == "/":
                if self._z(b, 1): return x
                return x / y
            raise Unsupported("real operator " + op)
        x, y = zi(a), zi(b)
        if op == "+": return norm(z3.simplify(x + y))
        if op == "-": return norm(z3.simplify(x - y))
        if op == "*": return norm(z3.simplify(x * y))
        if op == "/":
            nb = numeral(b)
            if nb is None:
                self.oblige(st, "div", "integer division by zero", y != 0, line)
                return self.cdiv(st, x, y)[0]
            if nb == 0: self.oblige(st, "div", "division by zero", z3.BoolVal(False), line)
            return z3.If(x >= 0, x / y, -((-x) / y)) if nb > 0 else z3.If(x >= 0, -(x / (-y)), (-x) / (-y))
        if op == "%":
            nb = numeral(b)
            if nb is None:
                self.oblige(st, "div", "modulo by zero", y != 0, line)
                return self.cdiv(st, x, y)[1]
            m = abs(nb)
            return z3.If(x >= 0, x % m, -((-x) % m))
        if op == "<<" and isinstance(b, int): return x * (1 << b)
        if op == ">>" and isinstance(b, int): return x / (1 << b)
        if op == "<<" and numeral(a) == 1:
            f = z3.Function("pow2", z3.IntSort(), z3.IntSort()); return f(y)
        raise Unsupported("symbolic operator " + op)

    def _z(self, v, k):
        n = numeral(v); return n is not None and n == k

    def cdiv(self, st, x, y):
        q, r = CDIV(x, y), CMOD(x, y)
        for f in modfacts(x, y): st.assume(f)
        return q, r

    def unary(self, n, st):
        line = n.coord.line if n.coord else None
        op = n.op
        if op == "sizeof":
            if isinstance(n.expr, c_ast.Typename): t = self.ctype(n.expr, st)
            else:
                _, _, t = self.lv_type(n.expr, st)
            s = t.size()
            if s is None: raise Unsupported("sizeof unknown")
            return s if isinstance(s, int) else norm(z3.simplify(s))
        if op == "&":
            obj, comps, t = self.lv(n.expr, st)
            return Ptr(obj, comps, t)
        if op == "*":
            obj, comps, t = self.lv(n, st)
            if isinstance(t, ArrT) and not t.aliases: return self.decay(obj, comps, t)
            return self.load(st, obj, comps, line)
        if op in ("++", "--", "p++", "p--"):
            obj, comps, t = self.lv(n.expr, st)
            v = self.load(st, obj, comps, line)
            nv = self.binop("+" if "+" in op else "-", v, 1, st, line)
            self.store(st, obj, comps, nv, line)
            return v if op[0] == "p" else nv
        v = self.ev(n.expr, st)
        if op == "-":
            if isz(v): return -(zi(v) if z3.is_bool(v) else v)
            return -v
        if op == "+": return v
        if op == "!":
            if isinstance(v, (Ptr,)): return False
            if isinstance(v, Null): return True
            b = self.asbool(v)
            return (not b) if isinstance(b, bool) else z3.Not(b)
        if op == "~" and isinstance(v, int): return ~v
        raise Unsupported("unary " + op)

    def lv_type(self, n, st):
        if isinstance(n, (c_ast.ID, c_ast.ArrayRef, c_ast.StructRef)) or (isinstance(n, c_ast.UnaryOp) and n.op == "*"):
            d = self.dry; self.dry += 1
            try: return self.lv(n, st)
            finally: self.dry = d
        raise Unsupported("sizeof expression")

    def assign(self, n, st):
        line = n.coord.line if n.coord else None
        if n.op == "=":
            v = self.ev(n.rvalue, st)
            obj, comps, t = self.lv(n.lvalue, st)
            if isinstance(t, PtrT) and isinstance(v, int) and v == 0: v = NULL
            self.store(st, obj, comps, v, line)
            return v if isinstance(v, (Agg, Ptr, Null)) else norm(self.convert_q(v, t))
        op = n.op[:-1]
        v = self.ev(n.rvalue, st)
        obj, comps, t = self.lv(n.lvalue, st)
        cur = self.load(st, obj, comps, line)
        nv = self.binop(op, cur, v, st, line)
        self.store(st, obj, comps, nv, line)
        return self.load(st, obj, comps)

    def convert_q(self, v, t):
        if isinstance(t, RealT):
            if isinstance(v, bool): return Fraction(int(v))
            return Fraction(v) if isinstance(v, (int, Fraction)) else zr(v)
        if isinstance(t, IntT): return self.toint(v)
        return v

    # ------------------------------------------------------------ calls
    def call_expr(self, n, st):
        """call inside an expression: builtins, contracts, or inlining with forks propagated"""
        name = n.name.name if isinstance(n.name, c_ast.ID) else None
        if name is None: raise Unsupported("indirect call")
        args = n.args.exprs if n.args else []
        if name in self.tu.funcs:
            vals = [self.ev(a, st) for a in args]
            if name in self.spec.contracts: return self.apply_contract(name, vals, st, n)
            self.inline_expr += 1
            try:
                outs = self.inline(name, vals, st)
            finally:
                self.inline_expr -= 1
            if len(outs) != 1: raise Unsupported("call of %s in an expression has several outcomes" % name)
            s2, ret = outs[0]
            # splice the resulting state into st
            st.mem, st.frames, st.pc, st.decided, st.labels, st.ghost = s2.mem, s2.frames, s2.pc, s2.decided, s2.labels, s2.ghost
            return ret
        if name in self.spec.contracts:
            vals = [self.ev(a, st) for a in args]
            return self.apply_contract(name, vals, st, n)
        return self.builtin(name, args, st, n)

    MATH1 = {"sqrt", "sin", "cos", "floor", "ceil", "log2", "fabs", "tan", "exp", "log", "cbrt", "round", "trunc",
             "sqrtf", "fabsf", "floorf", "ceilf", "acos", "asin", "atan"}

    def builtin(self, name, args, st, n):
        line = n.coord.line if n.coord else None
        if name in ("printf", "fprintf", "puts", "fputs", "putchar", "fflush", "abort"):
            for a in args:
                if not (isinstance(a, c_ast.Constant)):
                    try: self.ev(a, st)
                    except Unsupported: pass
            return 0
        if name in ("memset", "memcpy", "memmove"):
            return self.memop(name, args, st, line)
        if name in self.MATH1:
            v = self.ev(args[0], st)
            return self.math1(name, v, st, line)
        if name == "pow":
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            nb = numeral(b)
            if nb is not None and nb == int(nb) and 0 <= nb <= 12:
                k = int(nb)
                if k == 0: return Fraction(1)
                r = zr(a)
                for _ in range(k - 1): r = r * zr(a)
                return norm(z3.simplify(r)) if numeral(r) is not None else r
            f = z3.Function("powi", z3.RealSort(), z3.IntSort(), z3.RealSort())
            e = self.toint(b)
            return f(zr(a), zi(e))
        if name in ("fmin", "fmax"):
            a, b = zr(self.ev(args[0], st)), zr(self.ev(args[1], st))
            return z3.If(a <= b, a, b) if name == "fmin" else z3.If(a >= b, a, b)
        if name in ("abs", "labs"):
            a = self.ev(args[0], st)
            if isinstance(a, int): return abs(a)
            return z3.If(a >= 0, a, -a)
        if name == "fma":
            a, b, c = [zr(self.ev(x, st)) for x in args]
            return a * b + c
        if name in ("isnan", "isinf"): return 0
        if name in ("exit",): raise Unsupported("exit")
        raise Unsupported("call of unknown function " + name)

    def math1(self, name, v, st, line):
        if name.endswith("f") and name in ("sqrtf", "fabsf", "floorf", "ceilf"):
            self.oblige(st, "precision", "no single-precision math", z3.BoolVal(False), line); name = name[:-1]
        x = zr(v)
        if name == "fabs":
            nv = numeral(v)
            if nv is not None: return Fraction(abs(nv))
            return z3.If(x >= 0, x, -x)
        if name in ("floor", "ceil", "trunc", "round"):
            nv = numeral(v)
            if nv is not None:
                import math
                nv = Fraction(nv)
                return Fraction({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}.get(name, round)(nv))
            if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x
            if name == "ceil" and z3.is_app(x) and x.decl().name() == "log2" and z3.is_app_of(x.arg(0), z3.Z3_OP_TO_REAL):
                f = z3.Function("clog2", z3.IntSort(), z3.IntSort())
                self.assumed.add("ceil(log2(n)) is the integer binary logarithm rounded up (libm log2 exact enough for int n)")
                return z3.ToReal(f(x.arg(0).arg(0)))
            if name == "ceil" and z3.is_app(x) and x.decl().name() == "log2" and numeral(x.arg(0)) is not None:
                k = numeral(x.arg(0)); c = 0
                while (1 << c) < k: c += 1
                return Fraction(c)
            if name == "floor": return z3.ToReal(z3.ToInt(x))
            if name == "ceil": return z3.ToReal(-z3.ToInt(-x))
            return z3.ToReal(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))
        if name == "sqrt":
            nv = numeral(v)
            if nv is not None and nv in (0, 1, 4): return Fraction({0: 0, 1: 1, 4: 2}[int(nv)])
            r = sqrt_of(x)
            x = r.arg(0)
            st.assume(r >= 0)
            st.assume(r * r == x if sum_of_squares(x) else z3.Implies(x >= 0, r * r == x))
            self.assumed.add("sqrt(x)*sqrt(x) = x for x >= 0 (libm sqrt modelled exactly)")
            return r
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        if name in ("sin", "cos"):
            s_, c_ = z3.Function("sin", z3.RealSort(), z3.RealSort()), z3.Function("cos", z3.RealSort(), z3.RealSort())
            st.assume(s_(x) * s_(x) + c_(x) * c_(x) == 1)
            self.assumed.add("sin(t)^2 + cos(t)^2 = 1 (libm sin/cos modelled exactly)")
        return f(x)

    # ---- memset / memcpy
    def mem_target(self, p, nbytes, st):
        """the list of (obj, comps, type) aggregates/elements that [p, p+nbytes) covers exactly"""
        obj, comps = p.obj, p.comps
        # candidates: enclosing array when pointing at element 0, the object itself, k elements
        cands = []
        _, _, t = self.walk(st, obj, comps, check=False) if comps else ((), [], self.objs[obj].type)
        def sz_eq(a, b):
            if a is None: return False
            if isinstance(a, int) and isinstance(b, int): return a == b
            return z3.is_true(z3.simplify(zi(a) == zi(b)))
        if sz_eq(t.size(), nbytes): return [(obj, comps)]
        c2 = comps
        while c2 and not isinstance(c2[-1], str) and isinstance(c2[-1], int) and c2[-1] == 0:
            c2 = c2[:-1]
            _, _, t2 = self.walk(st, obj, c2, check=False) if c2 else ((), [], self.objs[obj].type)
            if sz_eq(t2.size(), nbytes): return [(obj, c2)]
        es = t.size()
        if isinstance(es, int) and isinstance(nbytes, int) and nbytes % es == 0 and comps and not isinstance(comps[-1], str):
            k = nbytes // es
            if k <= 64:
                return [(obj, comps[:-1] + (norm(z3.simplify(zi(comps[-1]) + j)),)) for j in range(k)]
        # pointer to a whole array, partially covered
        if isinstance(t, ArrT) and isinstance(nbytes, int):
            es = t.elem.size()
            if isinstance(es, int) and nbytes % es == 0 and nbytes // es <= 64:
                return [(obj, comps + (j,)) for j in range(nbytes // es)]
        return None

    def memop(self, name, args, st, line):
        dst = self.ev_ptr(args[0], st)
        nb = self.toint(self.ev(args[2], st))
        if name == "memset":
            val = self.ev(args[1], st)
            if not (isinstance(val, int) and val == 0): raise Unsupported("memset with non-zero byte")
            tg = self.mem_target(dst, nb, st)
            if tg is None:
                # partial clear of a large array: elements [k0, k0+n/size) become 0
                return self.memset_range(dst, nb, st, line)
            for obj, comps in tg:
                path, idxs, t = self.walk(st, obj, comps, line=line)
                for sub, sc, nd in leaves(t):
                    if isinstance(sc, PtrT):
                        self.write_key((obj, path + sub)); st.mem[(obj, path + sub)] = NULL; continue
                    v = z3.RealVal(0) if isinstance(sc, RealT) else z3.IntVal(0)
                    for _ in range(nd): v = z3.K(z3.IntSort(), v)
                    if not idxs: v = norm(v) if nd == 0 else v
                    self._store_term(st, (obj, path + sub), idxs, v, sc)
            return dst
        src = self.ev_ptr(args[1], st)
        tg, sg = self.mem_target(dst, nb, st), self.mem_target(src, nb, st)
        if tg is None or sg is None: raise Unsupported("memcpy extent")
        if len(tg) != len(sg):
            tg, sg = self.split_t(tg, st), self.split_t(sg, st)
        if len(tg) != len(sg): raise Unsupported("memcpy extent mismatch")
        vals = [self.load(st, o, c, line) for o, c in sg]
        for (o, c), v in zip(tg, vals): self.store(st, o, c, v, line)
        return dst

    def split_t(self, tg, st):
        if len(tg) == 1:
            o, c = tg[0]
            _, _, t = self.walk(st, o, c, check=False) if c else ((), [], self.objs[o].type)
            if isinstance(t, ArrT) and isinstance(t.n, int) and t.n <= 64: return [(o, c + (j,)) for j in range(t.n)]
        return tg

    def memset_range(self, p, nb, st, line):
        comps = p.comps
        _, _, t = self.walk(st, p.obj, comps, check=False) if comps else ((), [], self.objs[p.obj].type)
        if isinstance(t, ArrT): comps, t = comps + (0,), t.elem
        if not comps or isinstance(comps[-1], str): raise Unsupported("memset extent")
        es = t.size()
        n = norm(z3.simplify(zi(nb) / es)) if isinstance(es, int) else None
        if n is None: raise Unsupported("memset extent")
        base = comps[-1]
        path, idxs, _ = self.walk(st, p.obj, comps, check=False)
        if not idxs: raise Unsupported("memset extent")
        arr_path, outer, at = self.walk(st, p.obj, comps[:-1], check=False)
        if at.n is not None:
            self.oblige(st, "bounds", "memset stays inside the array", z3.And(zi(base) >= 0, z3.Or(zi(n) <= 0, zi(base) + zi(n) <= zi(at.n))), line)
        for sub, sc, nd in leaves(t):
            if nd: raise Unsupported("memset of nested arrays")
            key = (p.obj, arr_path + ("[]",) + sub)
            old = st.mem[key]
            for ix in outer: old = smart_select(old, ix)
            new = fresh(old.sort(), "mset")
            k = z3.Int("k!mset")
            zero = z3.RealVal(0) if isinstance(sc, RealT) else z3.IntVal(0)
            inr = z3.And(k >= zi(base), k < zi(base) + zi(n))
            st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(inr, zero, z3.Select(old, k)), patterns=[z3.Select(new, k)]))
            self._store_term(st, key, outer, new, sc)
        return p

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(self, name, vals, st, node):
        line = node.coord.line if node.coord else None
        sp = self.spec.contracts[name]
        self.used_contracts.add(sp.name)
        f = self.tu.funcs.get(name)
        pnames = sp.argnames if getattr(sp, "argnames", None) else [p.name for p in f.decl.type.args.params]
        ptypes = getattr(sp, "argtypes", None)
        binds = {}
        for k, (pn, v) in enumerate(zip(pnames, vals)):
            if f is not None and not isinstance(v, (Ptr, Null, Agg)):
                t = self.ctype(f.decl.type.args.params[k].type, st)
                if isinstance(t, (IntT, RealT)): v = self.convert(st, v, t, line)
            if isinstance(v, Agg):
                o = self.new_obj(st, pn, v.type); self.store(st, o.id, (), v); v = Ptr(o.id, (), v.type)
            binds[pn] = v
        for nm, (pn, k) in (getattr(sp, "derefs", None) or {}).items():      # targets of the cells of an array of pointers
            p = binds[pn]; q = st.mem.get((p.obj, tuple(p.comps[:-1]) + (k,)))
            if not isinstance(q, Ptr): raise Unsupported("cell %d of %s" % (k, pn))
            self.walk(st, q.obj, q.comps, line=line); binds[nm] = q
        oldst = st.copy()
        c_old = Ctx(self, oldst, binds, arrs=getattr(sp, 'arrargs', ()))
        if sp.call_pre:
            for nm, fml in sp.call_pre(c_old): self.oblige(st, "call-pre", "%s requires %s" % (name, nm), fml, line)
        # havoc the frame
        for pth in sp.modifies or []:
            parts = pth.split("."); p = binds[parts[0]]
            want = [int(x) if x.isdigit() else x for x in parts[1:]]
            if parts[0] in getattr(sp, "arrargs", ()) and p.comps and isinstance(p.comps[-1], int) and p.comps[-1] == 0 and not getattr(sp, "fixedarrs", False): p = Ptr(p.obj, p.comps[:-1], p.to)
            self.havoc_at(st, p, want)
        ret = None
        if getattr(sp, "ret_type", None):
            ret = fresh(z3.RealSort() if sp.ret_type == "real" else z3.IntSort(), "ret_" + name)
        elif f is not None:
            rt = self.ctype(f.decl.type.type, st)
            if isinstance(rt, IntT): ret = fresh(z3.IntSort(), "ret_" + name)
            elif isinstance(rt, RealT): ret = fresh(z3.RealSort(), "ret_" + name)
            elif isinstance(rt, (StructT, ArrT)):
                o = self.new_obj(st, "ret_" + name, rt); ret = self.load(st, o.id, ())
        c = Ctx(self, st, binds, old=c_old, ret=ret, arrs=getattr(sp, 'arrargs', ()))
        for nm, fml in sp.call_post(c): st.assume(fml)
        return ret

    def havoc_at(self, st, p, want):
        path, idxs, t = self.walk(st, p.obj, p.comps, want, check=False)
        for sub, sc, nd in leaves(t):
            key = (p.obj, path + sub)
            if not idxs:
                cur = st.mem[key]
                self.write_key(key)
                st.mem[key] = fresh(arr_sort(nd, scalar_sort(sc)) if not (isz(cur) and z3.is_array(cur)) else cur.sort(), "hv")
            else:
                term = st.mem[key]; ok = True
                k = len(idxs)
                # remaining sort after k selects
                so = term.sort()
                for _ in range(k): so = so.range()
                self._store_term(st, key, idxs, fresh(so, "hv"), sc)

    # ------------------------------------------------------------ inlining
    def inline(self, name, vals, st):
        if name in self.callstack: raise Unsupported("recursion in " + name)
        if len(self.callstack) > 12: raise Unsupported("call depth")
        self.inlined.add(name)
        f = self.tu.funcs[name]
        fr = {}
        params = f.decl.type.args.params if f.decl.type.args else []
        params = [p for p in params if p.name]
        s = st
        for p, v in zip(params, vals):
            t = self.ctype(p.type, s)
            if isinstance(t, ArrT) and not t.aliases: t = PtrT(t.elem)
            if isinstance(t, PtrT) and isinstance(v, int) and v == 0: v = NULL
            o = self.new_obj(s, p.name, t)
            if isinstance(t, PtrT): s.mem[(o.id, ())] = v
            elif isinstance(t, (StructT, ArrT)): self.store(s, o.id, (), v)
            else: s.mem[(o.id, ())] = norm(self.convert(s, v, t))
            fr[p.name] = o
        s.frames = s.frames + [fr]
        self.callstack.append(name)
        try:
            outs = self.ex(f.body, s)
        finally:
            self.callstack.pop()
        res = []
        for s2, kind, val in outs:
            if kind not in ("next", "return"): raise Unsupported("control flow out of " + name)
            s2.frames = s2.frames[:-1]
            res.append((s2, val if kind == "return" else None))
        return res

    # ------------------------------------------------------------ statements
    def forked(self, fn, st):
        """run fn(state)->value on a copy; on Fork split. -> [(state, value)]"""
        if self.inline_expr:
            v = fn(st); return [(st, v)]
        out, work = [], [st]
        while work:
            s = work.pop()
            mark = len(self.obls)
            s2 = s.copy()
            try:
                v = fn(s2)
                out.append((s2, v))
            except Fork as f:
                del self.obls[mark:]
                a, b = s.copy(), s
                a.decide(f.cond, True); b.decide(f.cond, False)
                for x in (b, a):
                    if self.feasible(x): work.append(x)
                if len(work) + len(out) > 4000: raise TooManyPaths()
        return out

    def feasible(self, st):
        if not getattr(self.spec, "prune", True): return True
        s = z3.Solver(); s.set("timeout", 60)
        for h in st.pc:
            if not has_quant(h) and not nonlin(h): s.add(h)
        return s.check() != z3.unsat

    def ex(self, n, st):
        """-> list of (state, kind, value); kind in next/break/continue/return"""
        if n is None: return [(st, "next", None)]
        if isinstance(n, c_ast.Compound): return self.ex_block(n.block_items or [], st)
        if isinstance(n, c_ast.DeclList): return self.ex_block(n.decls, st)
        if isinstance(n, c_ast.EmptyStatement): return [(st, "next", None)]
        if isinstance(n, c_ast.Pragma): return [(st, "next", None)]
        if isinstance(n, c_ast.Decl): return self.ex_decl(n, st)
        if isinstance(n, c_ast.If):
            out = []
            for s, c in self.forked(lambda s: self.truth(s, self.ev(n.cond, s)), st):
                out += self.ex(n.iftrue if c else n.iffalse, s)
            return out
        if isinstance(n, (c_ast.For, c_ast.While, c_ast.DoWhile)): return self.ex_loop(n, st)
        if isinstance(n, c_ast.Return):
            if n.expr is None: return [(st, "return", None)]
            out = []
            for s, v in self.ev_stmt(n.expr, st):
                if v is not None and not isinstance(v, (Ptr, Null, Agg)):
                    fname = self.callstack[-1]
                    rt = self.ctype(self.tu.funcs[fname].decl.type.type, s)
                    if isinstance(rt, (IntT, RealT)): v = norm(self.convert(s, v, rt, n.coord.line if n.coord else None))
                out.append((s, "return", v))
            return out
        if isinstance(n, c_ast.Break): return [(st, "break", None)]
        if isinstance(n, c_ast.Continue): return [(st, "continue", None)]
        if isinstance(n, c_ast.Switch): return self.ex_switch(n, st)
        if isinstance(n, c_ast.Goto): return [(st, "goto:" + n.name, None)]
        if isinstance(n, c_ast.Label): return self.ex(n.stmt, st)
        return [(s, "next", None) for s, v in self.ev_stmt(n, st)]

    def ev_stmt(self, n, st):
        """evaluate an expression statement, with multi-outcome inlining when the
        statement is a call or an assignment from a call"""
        call, wrap = None, None
        e = n
        while isinstance(e, c_ast.Cast): e = e.expr
        if isinstance(e, c_ast.FuncCall) and self._inlinable(e): call, wrap = e, None
        elif isinstance(e, c_ast.Assignment) and e.op == "=":
            r = e.rvalue
            while isinstance(r, c_ast.Cast): r = r.expr
            if isinstance(r, c_ast.FuncCall) and self._inlinable(r): call, wrap = r, e
        if call is None or self.inline_expr:
            return self.forked(lambda s: self.ev(n, s), st)
        out = []
        args = call.args.exprs if call.args else []
        for s, vals in self.forked(lambda s: [self.ev(a, s) for a in args], st):
            for s2, ret in self.inline(call.name.name, vals, s):
                if wrap is None: out.append((s2, ret))
                else:
                    def put(s3, ret=ret):
                        obj, comps, t = self.lv(wrap.lvalue, s3)
                        self.store(s3, obj, comps, ret, n.coord.line if n.coord else None)
                        return ret
                    out += self.forked(put, s2)
        return out

    def _inlinable(self, call):
        return isinstance(call.name, c_ast.ID) and call.name.name in self.tu.funcs and call.name.name not in self.spec.contracts

    def ex_block(self, items, st):
        cur, done = [(st, "next", None)], []
        for it in items:
            nxt = []
            if isinstance(it, c_ast.Label):      # forward jumps to this label go on from here
                for o in [o for o in done if o[1] == "goto:" + it.name]: done.remove(o); cur.append((o[0], "next", None))
            for s, k, v in cur:
                nxt += self.ex(it, s)
            cur = []
            for o in nxt:
                (cur if o[1] == "next" else done).append(o)
            if self.dry and len(cur) > 12: cur = self.dry_merge(cur)
            if len(cur) > 3000: raise TooManyPaths()
            if not cur and not any(o[1].startswith("goto:") for o in done): break
        return cur + done

    def dry_merge(self, cur):
        """frame computation only: paths that differ only in values go on as one, with unknown values"""
        groups = {}
        for s, k, v in cur:
            sig = tuple(sorted((str(key), repr(x) if not isinstance(x, Ptr) else "%s %s" % (x.obj, x.comps if hasattr(x, "comps") else vars(x))) for key, x in s.mem.items() if not isz(x)))
            groups.setdefault((sig, tuple(map(id, s.frames)) if False else str(s.frames)), []).append(s)
        out = []
        for g in groups.values():
            s = g[0]
            for o in g[1:]:
                for key in list(s.mem):
                    a, b = s.mem[key], o.mem.get(key)
                    if isz(a) and (b is None or not isz(b) or not a.eq(b)): s.mem[key] = fresh(a.sort(), "dry")
            s.pc = []; s.decided = {}
            out.append((s, "next", None))
        return out

    def ex_switch(self, n, st):
        out = []
        items = n.stmt.block_items if isinstance(n.stmt, c_ast.Compound) else [n.stmt]
        def pick(s):
            v = self.toint(self.ev(n.cond, s))
            dflt = None
            for k, it in enumerate(items):
                if isinstance(it, c_ast.Case):
                    if self.truth(s, self.binop("==", v, self.ev(it.expr, s), s, None)): return k
                elif isinstance(it, c_ast.Default): dflt = k
            return dflt
        for s, k in self.forked(pick, st):
            if k is None: out.append((s, "next", None)); continue
            body = []
            for it in items[k:]: body += list(it.stmts or []) if isinstance(it, (c_ast.Case, c_ast.Default)) else [it]
            for s2, kind, v in self.ex_block(body, s):
                out.append((s2, "next" if kind == "break" else kind, v))
        return out

    def ex_decl(self, n, st):
        if n.name is None or isinstance(n.type, c_ast.FuncDecl): return [(st, "next", None)]
        if "static" in (n.storage or []) and "const" not in (n.quals or []): raise Unsupported("static local")
        init = n.init
        e = init
        while isinstance(e, c_ast.Cast): e = e.expr
        out = []
        if e is not None and isinstance(e, c_ast.FuncCall) and self._inlinable(e) and not self.inline_expr:
            for s, v in self.ev_stmt(e, st):
                def put(s2, v=v):
                    t = self.ctype(n.type, s2)
                    o = self.new_obj(s2, n.name, t)
                    s2.frames[-1][n.name] = o
                    self.store(s2, o.id, (), v, n.coord.line if n.coord else None)
                out += [(s3, "next", None) for s3, _ in self.forked(put, s)]
            return out
        def go(s):
            t = self.ctype(n.type, s)
            if isinstance(t, ArrT) and t.n is None and isinstance(init, c_ast.InitList): t = ArrT(t.elem, len(init.exprs))
            if isinstance(t, ArrT) and isz(t.n):
                self.oblige(s, "vla", "variable-length array has positive size", zi(t.n) > 0, n.coord.line if n.coord else None)
            o = self.new_obj(s, n.name, t)
            if init is not None:
                if isinstance(init, c_ast.InitList): self.init_var(s, o, (), t, init)
                else:
                    v = self.ev(init, s)
                    if isinstance(t, PtrT) and isinstance(v, int) and v == 0: v = NULL
                    self.store(s, o.id, (), v, n.coord.line if n.coord else None)
            s.frames[-1][n.name] = o
        return [(s, "next", None) for s, _ in self.forked(go, st)]

    def init_var(self, st, o, comps, t, init):
        if isinstance(init, c_ast.InitList):
            path, idxs, tt = self.walk(st, o.id, comps, check=False) if comps else ((), [], t)
            for sub, sc, nd in leaves(t):
                if isinstance(sc, PtrT):
                    if not nd: st.mem[(o.id, path + sub)] = NULL
                    continue
                v = z3.RealVal(0) if isinstance(sc, RealT) else z3.IntVal(0)
                for _ in range(nd): v = z3.K(z3.IntSort(), v)
                if not idxs and nd == 0: v = norm(v)
                self._store_term(st, (o.id, path + sub), idxs, v, sc)
            k = 0
            for e in init.exprs:
                sel = None
                if isinstance(e, c_ast.NamedInitializer):
                    d = e.name[0]
                    sel = d.name if isinstance(d, c_ast.ID) else const_eval(d, self.tu.enums)
                    e = e.expr
                if isinstance(t, StructT):
                    if sel is not None: k = [f for f, _ in t.fields].index(sel)
                    f, ft = t.fields[k]
                    self.init_var(st, o, comps + (f,), ft, e)
                elif isinstance(t, ArrT):
                    if sel is not None:
                        if isinstance(sel, str):
                            if t.aliases.get(sel) is None and sel in t.aliases:
                                self.init_var(st, o, comps, ArrT(t.elem, t.n), e); continue
                            sel = t.aliases[sel]
                        k = sel
                    if t.aliases and isinstance(e, c_ast.InitList) and not isinstance(t.elem, (ArrT, StructT)):
                        self.init_var(st, o, comps, ArrT(t.elem, t.n), e); k += 1; continue
                    self.init_var(st, o, comps + (k,), t.elem, e)
                else:
                    self.init_var(st, o, comps, t, e)
                k += 1
            return
        v = self.ev(init, st)
        self.store(st, o.id, comps, v)

    # ------------------------------------------------------------ loops
    def static_const_loop(self, n):
        """True if the trip count is bounded by an integer literal"""
        if n.cond is None: return False
        if getattr(self.spec, "const_nests", False):      # constant loops around contract loops get a contract of their own
            def inner(x):
                for _, ch in x.children():
                    if isinstance(ch, (c_ast.For, c_ast.While, c_ast.DoWhile)) and not self.static_const_loop(ch): return True
                    if inner(ch): return True
                return False
            if inner(n): return False
        inits = {}
        if isinstance(n, c_ast.For) and n.init is not None:
            exprs = n.init.exprs if isinstance(n.init, c_ast.ExprList) else (n.init.decls if isinstance(n.init, c_ast.DeclList) else [n.init])
            for e in exprs:
                if isinstance(e, c_ast.Assignment) and isinstance(e.lvalue, c_ast.ID) and const_eval(e.rvalue, self.tu.enums) is not None:
                    inits[e.lvalue.name] = const_eval(e.rvalue, self.tu.enums)
                if isinstance(e, c_ast.Decl) and e.init is not None and const_eval(e.init, self.tu.enums) is not None:
                    inits[e.name] = const_eval(e.init, self.tu.enums)
        def conj(c):
            if isinstance(c, c_ast.BinaryOp) and c.op == "&&": return conj(c.left) + conj(c.right)
            return [c]
        for c in conj(n.cond):
            if isinstance(c, c_ast.BinaryOp) and c.op in ("<", "<=", ">", ">=", "!="):
                l, r = const_eval(c.left, self.tu.enums), const_eval(c.right, self.tu.enums)
                if r is not None and isinstance(c.left, c_ast.ID):
                    if c.op in ("<", "<="): return True
                    if c.op in (">", ">=", "!=") and c.left.name in inits: return True
                    # goes on downwards from where an earlier loop left the counter
                    if c.op in (">", ">=") and isinstance(n, c_ast.For) and isinstance(n.init, c_ast.UnaryOp) and n.init.op in ("--", "p--") and isinstance(n.init.expr, c_ast.ID) and n.init.expr.name == c.left.name: return True
                if l is not None and isinstance(c.right, c_ast.ID):
                    if c.op in (">", ">="): return True
                    if c.op in ("<", "<=", "!=") and c.right.name in inits: return True
        return False

    def direct_loops(self, node, depth=0):
        """loops needing a contract that are directly below node (through inlined calls and
        constant loops), in lexical order"""
        res = []
        def visit(x, stack):
            for _, ch in x.children():
                if isinstance(ch, (c_ast.For, c_ast.While, c_ast.DoWhile)):
                    if self.static_const_loop(ch): visit(ch, stack)
                    elif ch not in res: res.append(ch)
                elif isinstance(ch, c_ast.FuncCall) and self._inlinable(ch) and ch.name.name not in stack:
                    visit(ch, stack)
                    visit(self.tu.funcs[ch.name.name].body, stack | {ch.name.name})
                else: visit(ch, stack)
        if isinstance(node, (c_ast.For, c_ast.While, c_ast.DoWhile)) and depth == 1 and not self.static_const_loop(node): return [node]
        visit(node, frozenset())
        return res

    def loop_spec(self, n):
        if self.spec.unroll: return None
        parent_node, parent_spec = self.curspec[-1]
        ch = parent_spec.children if isinstance(parent_spec, Loop) else parent_spec.loops
        lst = self.direct_loops(parent_node.stmt, 1) if hasattr(parent_node, "stmt") else self.direct_loops(parent_node)
        ids = [id(x) for x in lst]
        if id(n) not in ids: return None
        if len(lst) != len(ch):
            raise StructuralMismatch("%s: %d loops need a contract inside %s, %d loop contracts are available (lines %s)" % (
                self.spec.name, len(lst), getattr(parent_spec, "label", parent_spec.name if hasattr(parent_spec, "name") else "?"), len(ch), [x.coord.line for x in lst]))
        return ch[ids.index(id(n))]

    def ex_loop(self, n, st):
        out = []
        starts = [(st, "next", None)]
        if isinstance(n, c_ast.For) and n.init is not None: starts = self.ex(n.init, st)
        for s, k, v in starts:
            if k != "next": out.append((s, k, v)); continue
            sp = self.loop_spec(n)
            if sp is None: out += self.unroll(n, s)
            else: out += self.loop_contract(n, sp, s)
        return out

    def loop_cond(self, n, s):
        if n.cond is None: return True
        return self.truth(s, self.ev(n.cond, s))

    def unroll(self, n, st):
        out, cur = [], [st]
        first = isinstance(n, c_ast.DoWhile)
        par = self.curspec[-1][1] if self.curspec else None
        mid = getattr(par, "mid", None) if not self.in_mid else None
        if mid is not None: self.in_mid += 1
        try: return self.unroll2(n, st, out, cur, first, mid, par)
        finally:
            if mid is not None: self.in_mid -= 1

    def join(self, n, base, states, mid, par, k):
        """iteration boundary of an unrolled loop with an intermediate assertion: every path proves it, one path goes on from it"""
        if any([set(f) for f in s.frames] != [set(f) for f in base.frames] for s in states): return states
        info = self.loop_info(n); dn = (lambda q: z3.BoolVal(q < k)) if info[1] == "up" else None
        if dn is None: return states
        line = n.coord.line if n.coord else None; keep = {}; mod = set()
        for key in base.mem:
            vals = [s.mem[key] for s in states]
            same = all(v is vals[0] or (isz(v) and isz(vals[0]) and v.eq(vals[0])) or (isinstance(v, (int, Fraction)) and type(v) == type(vals[0]) and v == vals[0]) for v in vals)
            if same: keep[key] = vals[0]
            else: mod.add(key)
        for s in states:
            c = Ctx(self, s, loop=self.linfo.get(par.label))
            if not self.dry:
                if par.lemma:
                    for f in par.lemma(c): s.assume(f)
                if par.mid_cuts:
                    for nm, f in par.mid_cuts(c, k - 1):
                        self.oblige(s, "cut", "%s: %s" % (par.label, nm), f, line); s.assume(f)
                for nm, f in mid(c, dn): self.oblige(s, "mid", "%s: %s after slot %d" % (par.label, nm, k - 1), f, line)
        h = base.copy()
        for key, v in keep.items(): h.mem[key] = v
        self.havoc(h, mod)
        if not self.dry:
            c = Ctx(self, h, loop=self.linfo.get(par.label))
            for nm, f in mid(c, dn): h.assume(f)
            if par.mid_lemma:
                for f in par.mid_lemma(c, dn): h.assume(f)
            h.labels[par.label + ".mid"] = self.snapshot(h)
        return [h]

    def unroll2(self, n, st, out, cur, first, mid, par):
        base = st.copy()
        if mid is not None: base.labels[par.label + ".mid"] = self.snapshot(base); cur[0].labels[par.label + ".mid"] = self.snapshot(base)
        for it in range(MAXUNROLL + 1):
            if it == MAXUNROLL: raise StructuralMismatch("loop at line %s has no contract and does not unroll" % n.coord.line)
            nxt = []
            for s in cur:
                if first: entered = [(s, True)]
                else: entered = self.forked(lambda s: self.loop_cond(n, s), s)
                for s2, c in entered:
                    if not c: out.append((s2, "next", None)); continue
                    for s3, k, v in self.ex(n.stmt, s2):
                        if k == "break": out.append((s3, "next", None))
                        elif k == "return" or k.startswith("goto:"): out.append((s3, k, v))
                        else:
                            if isinstance(n, c_ast.For) and n.next is not None:
                                for s4, _ in self.ev_stmt(n.next, s3): nxt.append(s4)
                            else: nxt.append(s3)
            first = False
            if mid is not None and nxt: nxt = self.join(n, base, nxt, mid, par, it + 1)
            if self.dry and len(nxt) > 12: nxt = [q for q, _, _ in self.dry_merge([(q, "next", None) for q in nxt])]
            if self.dry and len(out) > 12: out = self.dry_merge([o for o in out if o[1] == "next"]) + [o for o in out if o[1] != "next"]
            cur = nxt
            if not cur: break
            if len(cur) > 1500: raise TooManyPaths()
        return out

    def snapshot(self, s): return (dict(s.mem), [dict(f) for f in s.frames], dict(s.ghost))

    def run_body(self, n, sp, s):
        """body + increment. -> (backedge states, exit outcomes)"""
        back, outs = [], []
        self.curspec.append((n, sp))
        try:
            res = self.ex(n.stmt, s)
        finally:
            self.curspec.pop()
        for s3, k, v in res:
            if k == "break": outs.append((s3, "next", None))
            elif k == "return" or k.startswith("goto:"): outs.append((s3, k, v))
            else:
                if isinstance(n, c_ast.For) and n.next is not None:
                    for s4, _ in self.ev_stmt(n.next, s3): back.append(s4)
                else: back.append(s3)
        return back, outs

    def modset_syntax(self, n, st):
        """frame of a loop read off its text: writes go to locals, to *p, or to fields (named) of what a local pointer points at; None if the text does anything else"""
        mod, ok = set(), [True]
        obj = lambda nm: next((fr[nm] for fr in reversed(st.frames) if nm in fr), None)
        lvs = []
        class V(c_ast.NodeVisitor):
            def visit_Assignment(v, y): lvs.append(y.lvalue); v.generic_visit(y)
            def visit_UnaryOp(v, y):
                if y.op in ("++", "--", "p++", "p--"): lvs.append(y.expr)
                elif y.op == "&": ok[0] = False
                v.generic_visit(y)
            def visit_FuncCall(v, y): ok[0] = False
            def visit_Decl(v, y): ok[0] = False
        V().visit(n)
        for l in lvs:
            field, ptr = None, False; e = l
            while not isinstance(e, c_ast.ID):
                if isinstance(e, c_ast.ArrayRef): e = e.name; ptr = True
                elif isinstance(e, c_ast.StructRef): field = e.field.name; ptr = ptr or e.type == "->"; e = e.name
                elif isinstance(e, c_ast.UnaryOp) and e.op == "*": e = e.expr; ptr = True
                else: return None
            o = obj(e.name)
            if o is None: return None
            v = st.mem.get((o.id, ()))
            if not ptr:
                if not isz(v): return None
                mod.add((o.id, ())); continue
            if isinstance(v, Ptr): tgt, comps = v.obj, v.comps
            elif v is None: tgt, comps = o.id, ()
            else: return None
            ks = [k for k in st.mem if k[0] == tgt and (field is None or field in k[1])]
            if field is None: ks = [k for k in ks if tuple(map(str, k[1][:len(comps)])) == tuple(map(str, comps)) and len(k[1]) == len(comps)] or ks
            if not ks: return None
            mod |= set(ks)
        return mod if ok[0] else None

    def modset(self, n, sp, st):
        # what the body can write depends on the state only through its concrete values and pointers:
        # everything else is made arbitrary before the dry runs
        def conc(v):
            if isz(v):
                q = numeral(v)
                return None if q is None else str(q)
            return "p:" + repr(v) if isinstance(v, (Ptr, Null)) else str(v)
        if id(n) not in self.loopids:
            r = set()
            class V(c_ast.NodeVisitor):
                def visit_ID(s, y): r.add(y.name)
            V().visit(n); self.loopids[id(n)] = r
        reach = {o for f in st.frames for nm, o in f.items() if nm in self.loopids[id(n)]}; reach = {o.id for o in reach}
        grow = True
        while grow:
            grow = False
            for k, v in st.mem.items():
                if k[0] in reach and isinstance(v, Ptr) and v.obj not in reach: reach.add(v.obj); grow = True
        fp = tuple(sorted(((str(k), str(conc(v))) for k, v in st.mem.items() if k[0] in reach)))
        key = (id(n), tuple(self.callstack), fp)
        if key in self.modcache: return self.modcache[key]
        acc = self.modacc.setdefault((id(n), tuple(self.callstack)), set())
        mod = {k for k in acc if k in st.mem and not isinstance(st.mem[k], (Ptr, Null))}
        st = st.copy()
        for k, v in list(st.mem.items()):
            if isz(v) and numeral(v) is None: st.mem[k] = fresh(v.sort(), "dry")
        self.dry += 1
        savew = self.wlog
        try:
            for it in range(40):
                if it == 39: raise Unsupported("modified set of a loop does not settle")
                s = st.copy()
                self.havoc(s, mod)
                s.pc = []
                s.decided = {}
                self.wlog = set()
                if isinstance(n, c_ast.DoWhile):
                    back, outs = self.run_body(n, sp, s)
                    for b in back: self.forked(lambda q: self.loop_cond(n, q), b)
                else:
                    for s2, c in self.forked(lambda q: self.loop_cond(n, q), s):
                        if c: self.run_body(n, sp, s2)
                new = {k for k in self.wlog if k in st.mem}
                if new <= mod: break
                mod |= new
        finally:
            self.dry -= 1
            self.wlog = savew
        self.modcache[key] = mod; acc |= mod
        return mod

    def havoc(self, s, mod):
        for key in mod:
            cur = s.mem[key]
            if isinstance(cur, (Ptr, Null, Undef)): s.mem[key] = UNDEF; continue
            o = self.objs[key[0]]
            nm = o.name + "".join("." + str(p) for p in key[1] if p != "[]")
            if isz(cur): so = cur.sort()
            else:
                t = o.type
                for p, sc, nd in leaves(t):
                    if p == key[1]: so = arr_sort(nd, scalar_sort(sc))
            s.mem[key] = fresh(so, nm)

    def loop_info(self, n):
        """(counter name, 'up' | 'down' | 'downpost')"""
        def ids(x):
            r = set()
            class V(c_ast.NodeVisitor):
                def visit_ID(s, y): r.add(y.name)
            if x is not None: V().visit(x)
            return r
        def steps(x):
            r = []
            class V(c_ast.NodeVisitor):
                def visit_UnaryOp(s, y):
                    if y.op in ("++", "p++", "--", "p--") and isinstance(y.expr, c_ast.ID): r.append((y.expr.name, "up" if "+" in y.op else "down"))
                    s.generic_visit(y)
                def visit_Assignment(s, y):
                    if isinstance(y.lvalue, c_ast.ID):
                        if y.op in ("+=", "-=") and const_eval(y.rvalue) == 1: r.append((y.lvalue.name, "up" if y.op == "+=" else "down"))
                        elif y.op == "=" and isinstance(y.rvalue, c_ast.BinaryOp) and y.rvalue.op in "+-" and const_eval(y.rvalue.right) == 1 and isinstance(y.rvalue.left, c_ast.ID) and y.rvalue.left.name == y.lvalue.name:
                            r.append((y.lvalue.name, "up" if y.rvalue.op == "+" else "down"))
                    s.generic_visit(y)
                def visit_FuncCall(s, y): pass
            if x is not None: V().visit(x)
            return r
        cids = ids(n.cond)
        for nm, d in steps(n.cond): return (nm, "downpost" if d == "down" else d)
        cand = steps(n.next) if isinstance(n, c_ast.For) else []
        for nm, d in cand:
            if nm in cids: return (nm, d)
        if cand: return cand[0]
        items = (n.stmt.block_items or []) if isinstance(n.stmt, c_ast.Compound) else [n.stmt]
        for it in reversed(items):
            for nm, d in steps(it):
                if nm in cids: return (nm, d)
        return (None, "up")

    def loop_contract(self, n, sp, st):
        line = n.coord.line if n.coord else None
        lab = sp.label
        info = self.loop_info(n)
        self.linfo[lab] = info
        def C(s): return Ctx(self, s, loop=info)
        # pointers modified by the loop are turned into index variables
        if sp.assumed:
            mod = self.modset_syntax(n, st)
            if mod is None: raise Unsupported("frame of a loop whose contract is assumed cannot be read off its text")
        else: mod = self.modset_ptr(n, sp, st)
        mine = [o for o in self.focus if self.focus[o][0] == lab]
        if mine: mod = set(mod) | {k for k in st.mem if k[0] in mine}
        if self.wlog is not None: self.wlog |= mod
        if self.dry:
            h = st.copy(); self.havoc(h, mod); h.decided = {}
            return [(h, "next", None)]
        s0 = st
        s0.labels[lab + ".entry"] = self.snapshot(s0)
        if sp.ghost_init:
            for k, v in sp.ghost_init(C(s0)).items(): s0.ghost[k] = v
            s0.labels[lab + ".entry"] = self.snapshot(s0)
        if sp.pre_lemma:        # an instance of a proved lemma: hypotheses are obligations, conclusion assumed
            reqs, facts = sp.pre_lemma(C(s0))
            for nm, f in reqs: self.oblige(s0, "lemma-pre", "%s: %s" % (lab, nm), f, line)
            for f in facts: s0.assume(f)
        if sp.abstract: self.abstract(s0, sp.abstract(C(s0)), lab, line)
        for nm, f in sp.inv(C(s0)): self.oblige(s0, "inv-init", "%s: %s holds on entry" % (lab, nm), f, line)
        h = s0.copy()
        if sp.once:
            par = self.curspec[-1][1]
            ph, pmod, pghost = self.headst[par.label]
            if (par.label, self.headgen[par.label], lab) in self.joined: return []
            if [set(f) for f in ph.frames] != [set(f) for f in s0.frames]: raise StructuralMismatch("loop %s: declarations between the enclosing loop's head and this loop" % lab)
            self.joined.add((par.label, self.headgen[par.label], lab))
            lb = h.labels; h = ph.copy(); h.labels.update({k: v for k, v in lb.items() if k == lab + ".entry"})
            self.havoc(h, set(pmod) | set(mod)); mod = set(pmod) | set(mod)
            for g in pghost: h.ghost[g] = fresh(h.ghost[g].sort(), "gh_" + g)
            h.labels[lab + ".entry"] = self.snapshot(h)
        else: self.havoc(h, mod)
        for g in list(h.ghost):
            if sp.ghost and g in getattr(sp.ghost, "keys", ()): h.ghost[g] = fresh(h.ghost[g].sort(), "gh_" + g)
        h.decided = {}
        hidden = []
        if sp.hide:
            hidden = [f for f in h.pc if has_quant(f)]; h.pc = [f for f in h.pc if not has_quant(f)]
        c = C(h)
        for nm, f in sp.inv(c): h.assume(f)
        if mine:               # precondition of the element of this iteration: no earlier iteration touched it
            if sp.each is None: raise Unsupported("element arrays need a per-element precondition")
            lo = z3.And(*[z3.And(c.lv >= 0, c.lv < zi(self.focus[o][1])) for o in mine])
            for nm, f in sp.each(c): h.assume(z3.Implies(lo, f))
        if sp.head_lemma:
            for f in sp.head_lemma(C(h)): h.assume(f)
        h.labels[lab + ".head"] = self.snapshot(h)
        self.headst[lab] = (h.copy(), mod, tuple(getattr(sp.ghost, "keys", ())) if sp.ghost else ()); self.headgen[lab] = self.headgen.get(lab, 0) + 1
        if not self.dry: self.covers.append(("loop %s invariant" % lab, list(h.pc)))
        out = []
        heads = [h]
        if sp.assumed: heads = []; out.append((h, "next", None))
        if sp.cases:
            heads = []
            for cf in sp.cases(C(h)):
                hh = h.copy(); hh.assume(cf[0])
                # substitute a concrete value for the case variable
                for nm, val in cf[1].items():
                    p = C(hh)._resolve(nm); hh.mem[(p.obj, ())] = val
                heads.append(hh)
        def back_edge(s):
            if sp.ghost:
                for k, v in sp.ghost(C(s)).items(): s.ghost[k] = v
            if sp.lemma:
                for f in sp.lemma(C(s)): s.assume(f)
            if sp.cuts:
                for nm, f in sp.cuts(C(s)):
                    self.oblige(s, "cut", "%s: %s" % (lab, nm), f, line); s.assume(f)
            cc = C(s)
            for nm, f in sp.inv(cc): self.oblige(s, "inv-step", "%s: %s is preserved" % (lab, nm), f, line)
            if sp.step:
                for nm, f in sp.step(cc): self.oblige(s, "step", "%s: %s after each iteration" % (lab, nm), f, line)
            if sp.decreases:
                m1 = sp.decreases(cc); m0 = sp.decreases(cc.at(lab + ".head"))
                self.oblige(s, "termination", "%s: variant decreases" % lab, z3.And(m0 >= 0, m1 < m0), line)
        for hd in heads:
            if isinstance(n, c_ast.DoWhile):
                back, outs = self.run_body(n, sp, hd)
                out += outs
                for b in back:
                    for s2, cnd in self.forked(lambda q: self.loop_cond(n, q), b):
                        if cnd: back_edge(s2)
                        else: out.append((s2, "next", None))
            else:
                for s2, cnd in self.forked(lambda q: self.loop_cond(n, q), hd):
                    if not cnd: out.append((s2, "next", None)); continue
                    back, outs = self.run_body(n, sp, s2)
                    out += outs
                    for b in back: back_edge(b)
        for s, k, v in out:
            if hidden: s.pc = hidden + s.pc
            if k == "next":
                if sp.exit_lemma:
                    for f in sp.exit_lemma(C(s)): s.assume(f)
                if sp.exit_cuts:
                    for nm, f in sp.exit_cuts(C(s)):
                        self.oblige(s, "cut", "%s: %s" % (lab, nm), f, line); s.assume(f)
                s.labels[lab + ".exit"] = self.snapshot(s)
        return out

    def abstract(self, st, terms, lab, line):
        """replace the value of a local by an equal term (the equality is an obligation)"""
        mine = {o.id for fr in st.frames for o in fr.values()}
        for key, val in list(st.mem.items()):
            if key[0] not in mine or not z3.is_expr(val): continue
            if val.sort() == z3.RealSort() and val.children():      # (name, definition): polynomial identity
                for t, d in [t for t in terms if isinstance(t, tuple)]:
                    if not val.eq(t) and same_poly(const_subst(st.pc, val), d):
                        self.oblige(st, "abstraction", "%s: a local equals %s" % (lab, t), const_subst(st.pc, val) == d, line)
                        st.assume(t == d); st.assume(val == t); st.mem[key] = t; break
                continue
            if val.sort() != z3.IntSort() or z3.is_int_value(z3.simplify(val)) or z3.is_const(val): continue
            for t in [t for t in terms if not isinstance(t, tuple)]:
                s = z3.Solver(); s.set("timeout", 300); s.add(*[h for h in st.pc if not has_quant(h)], val != t)
                if s.check() == z3.unsat:
                    self.oblige(st, "abstraction", "%s: a local equals %s" % (lab, t), val == t, line)
                    st.assume(val == t); st.mem[key] = t; break

    def modset_ptr(self, n, sp, st):
        return self.modset(n, sp, st)

    # ------------------------------------------------------------ a whole function
    def param_obj(self, st, pname, t, how):
        """create the object a pointer parameter points to"""
        if isinstance(how, tuple) and how[0] == "arr":
            ln = how[1](st) if callable(how[1]) else how[1]
            ot = ArrT(t.to, ln)
            o = self.new_obj(st, pname, ot); return o, Ptr(o.id, (0,), t.to)
        if isinstance(how, tuple) and how[0] == "each":
            o = self.new_obj(st, pname, ArrT(t.to, 1)); self.focus[o.id] = (how[2], how[1]); return o, Ptr(o.id, (0,), t.to)
        if isinstance(how, tuple) and how[0] == "ptrs":
            o = self.new_obj(st, pname, ArrT(t.to, len(how[1])))
            for k, nm in enumerate(how[1]):
                if nm in self.binds: p = self.binds[nm]
                else:
                    to = self.new_obj(st, nm, t.to.to); p = Ptr(to.id, (), t.to.to); self.binds[nm] = p
                st.mem[(o.id, (k,))] = p
            return o, Ptr(o.id, (0,), t.to)
        if isinstance(how, tuple) and how[0] == "fix":
            ot = ArrT(t.to, how[1])
            if how[1] > EXPAND: raise Unsupported("fix size")
            o = self.new_obj(st, pname, ot); return o, Ptr(o.id, (0,), t.to)
        if isinstance(how, tuple) and how[0] == "rows":
            elem = t.to.to
            ot = ArrT(ArrT(elem, None), how[1](st) if callable(how[1]) else how[1])
            o = self.new_obj(st, pname, ot); return o, Ptr(o.id, (0,), ot.elem)
        o = self.new_obj(st, pname, t.to); return o, Ptr(o.id, (), t.to)

    def verify(self):
        sp = self.spec
        if sp.name not in self.tu.funcs: raise StructuralMismatch("function %s not found in %s" % (sp.name, self.tu.relpath))
        f = self.tu.funcs[sp.name]
        st = State()
        fr = st.frames[0]
        params = [p for p in (f.decl.type.args.params if f.decl.type.args else []) if p.name]
        # contracts name parameters positionally, so that a renamed parameter still binds
        order = list(sp.params.keys())
        if len(order) != len(params): raise StructuralMismatch("%s takes %d parameters, contract has %d" % (sp.name, len(params), len(order)))
        binds = {}
        types = [self.ctype(p.type, st) for p in params]
        for p, t, cn in zip(params, types, order):
            how = sp.params[cn]
            if how == "scalar" or not isinstance(t, (PtrT, ArrT)) or (isinstance(t, ArrT) and t.aliases):
                o = self.new_obj(st, p.name, t)
                if cn in sp.consts: st.mem[(o.id, ())] = sp.consts[cn]
                fr[p.name] = o
                if isinstance(t, (IntT, RealT)): binds[cn] = o
                else: binds[cn] = o
        self.binds = {}
        self.arrparams = {cn for cn in order if isinstance(sp.params[cn], tuple) and sp.params[cn][0] != "each"}; self.focus = {}
        for cn, o in binds.items():
            self.binds[cn] = Ptr(o.id, (), o.type) if isinstance(o.type, (StructT, ArrT)) else st.mem[(o.id, ())]
        for p, t, cn in zip(params, types, order):
            how = sp.params[cn]
            if cn in binds: continue
            if isinstance(t, ArrT): t = PtrT(t.elem)
            if isinstance(how, str) and how.startswith("alias:"):
                tgt = how[6:]; ptr = self.binds[tgt]; obj = None
            else:
                if isinstance(how, tuple) and how[0] in ("arr", "rows", "each") and callable(how[1]):
                    how = (how[0], how[1](self.binds)) + how[2:]
                obj, ptr = self.param_obj(st, cn, t, how)
            v = self.new_obj(st, p.name, PtrT(t.to))
            st.mem[(v.id, ())] = ptr
            fr[p.name] = v
            self.binds[cn] = ptr
        for path, term in (getattr(sp, "init", None) or (lambda c: []))(Ctx(self, st, self.binds)):   # wlog renaming of an initial value (x as y + fresh)
            old = Ctx(self, st, self.binds).m(path)
            for k, v in list(st.mem.items()):
                if z3.is_expr(v) and v.eq(old): st.mem[k] = term
        # initial scalar parameter values stay available to the contract by name
        st.labels["fn.entry"] = self.snapshot(st)
        c0 = Ctx(self, st, self.binds)
        if sp.pre:
            for nm, fml in sp.pre(c0): st.assume(fml)
        if sp.lemma:
            for fml in sp.lemma(c0): st.assume(fml)
        self.covers.append(("precondition", list(st.pc)))
        self.callstack.append(sp.name)
        self.curspec.append((f.body, sp))
        self.c0 = c0
        try:
            outs = self.ex(f.body, st)
        finally:
            self.curspec.pop(); self.callstack.pop()
        n = 0
        for s, k, v in outs:
            if k not in ("next", "return"): raise Unsupported("control flow")
            n += 1
            c = Ctx(self, s, self.binds, ret=v)
            if sp.post:
                for nm, fml in sp.post(c): self.oblige(s, "post", nm, fml, None)
        self.npaths = n
        if n == 0: raise Unsupported("no path reaches the end of " + sp.name)
        return self.obls

_hq, _nl, _keep = {}, {}, []
def has_quant(e):
    k = e.get_id()
    if k in _hq: return _hq[k]
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        stack += x.children()
    _hq[k] = r; _keep.append(e); return r
def nonlin(e):
    k = e.get_id()
    if k in _nl: return _nl[k]
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_mul(x) and sum(1 for c in x.children() if numeral(c) is None) > 1: r = True; break
        if z3.is_div(x) and numeral(x.arg(1)) is None: r = True; break
        stack += x.children()
    _nl[k] = r; _keep.append(e); return r
