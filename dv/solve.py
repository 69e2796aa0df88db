"""Discharge of proof obligations: every obligation is sent to several SMT back ends
in parallel worker processes (fork; the parent enforces a hard time limit)."""
import os, sys, time, select, signal, pickle, subprocess, tempfile, traceback
import z3
from . import ring
from .symx import has_quant

NPROC = int(os.environ.get("DV_JOBS", "8"))

def _solver(conf):
    s = z3.SolverFor("ALL") if False else z3.Solver()
    for k, v in conf.items(): s.set(k, v)
    return s

EM = {"auto_config": False, "mbqi": False, "arith.nl": False}
STAGES_Q = [  # (back end, options, seconds if >= 1 else fraction of the budget)
    ("cvc5", {}, 1.5), ("z3/ematch", EM, 2.0), ("cvc5", {}, 4.0),
    ("z3/ematch-nl", {"auto_config": False, "mbqi": False}, 2.0),
    ("z3/default", {}, 0.2), ("cvc5", {}, 0.3),
    ("z3/ematch-seed", {"auto_config": False, "mbqi": False, "random_seed": 7, "arith.solver": 2}, 0.25), ("z3/ematch", EM, 0.25),
]
STAGES_QF = [("z3/default", {}, 0.4), ("z3/arith2", {"arith.solver": 2}, 0.3), ("cvc5", {}, 0.3)]

def simp_hyps(hyps): 
    out, seen = [], set()
    for h in hyps:
        if z3.is_and(h): hs = h.children()
        else: hs = [h]
        for x in hs:
            if x.get_id() in seen or z3.is_true(x): continue
            seen.add(x.get_id()); out.append(x)
    return out

def atoms_of(e, cache):
    k = e.get_id()
    if k in cache: return cache[k]
    stack, seen, r = [e], set(), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
        if z3.is_quantifier(x): stack.append(x.body())
        stack += x.children()
    cache[k] = r
    return r

def relevant(hyps, goal, rounds):
    cache = {}
    syms = set(atoms_of(goal, cache)); keep = [False] * len(hyps)
    hs = [atoms_of(h, cache) for h in hyps]
    for _ in range(rounds):
        new = set()
        for i, a in enumerate(hs):
            if not keep[i] and (a & syms or not a):
                keep[i] = True; new |= a
        if new <= syms: break
        syms |= new
    return [h for h, k in zip(hyps, keep) if k]

def _find_split(e):
    """an undecided condition inside e: index equality of a select over a store, or an ite condition"""
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and z3.is_store(x.arg(0)):
            return x.arg(0).arg(1) == x.arg(1)
        if z3.is_app_of(x, z3.Z3_OP_ITE): return x.arg(0)
        stack += x.children()
    return None

def _assume(e, cond, val):
    """simplify e under cond = val"""
    memo = {}
    from .symx import same_index
    def rec(x):
        k = x.get_id()
        if k in memo: return memo[k]
        if z3.is_quantifier(x) or not x.children(): r = x
        else:
            ch = [rec(c) for c in x.children()]
            r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            if r.arg(0).eq(cond): r = r.arg(1) if val else r.arg(2)
            elif z3.is_true(z3.simplify(r.arg(0))): r = r.arg(1)
            elif z3.is_false(z3.simplify(r.arg(0))): r = r.arg(2)
        while z3.is_select(r) and z3.is_store(r.arg(0)):
            st = r.arg(0); i, j = st.arg(1), r.arg(1)
            si = same_index(i, j)
            if si is None and z3.is_eq(cond) and ((cond.arg(0).eq(i) and cond.arg(1).eq(j)) or (cond.arg(0).eq(j) and cond.arg(1).eq(i))): si = val
            if si is True: r = st.arg(2)
            elif si is False: r = z3.Select(st.arg(0), j)
            else: break
        memo[k] = r
        return r
    if val and z3.is_eq(cond) and z3.is_int(cond.arg(0)):
        a, b = cond.arg(0), cond.arg(1)
        if z3.is_const(b) and not z3.is_int_value(b): e = z3.substitute(e, (b, a))
        elif z3.is_const(a) and not z3.is_int_value(a): e = z3.substitute(e, (a, b))
    return rec(e)

def split_ring(hyps, goal, depth):
    """case-split on array/ite conditions until the goal is a ring identity"""
    if depth > 12: raise ring.GiveUp("depth")
    from .symx import nonlin
    qf = [h for h in hyps if not has_quant(h)]
    goal = z3.simplify(goal, arith_lhs=False, expand_select_store=False, som=False) if False else goal
    if goal.arg(0).eq(goal.arg(1)): return True
    c = _find_split(goal)
    if c is None:
        if ring.prove(qf, goal): return True
        # substitute equational hypotheses  atom = term
        subs = []
        eqs = []
        for h in qf:
            for f in (h.children() if z3.is_and(h) else [h]):
                if z3.is_implies(f):
                    if not ring.entails(qf, f.arg(0), 500): continue
                    f = f.arg(1)
                eqs += f.children() if z3.is_and(f) else [f]
        for f in eqs:
            if z3.is_eq(f) and (z3.is_real(f.arg(0)) or z3.is_int(f.arg(0))):
                a, b = f.arg(0), f.arg(1)
                if z3.is_int_value(a): a, b = b, a
                if (z3.is_select(a) or (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED)) and not _occurs(a, b): subs.append((a, b))
                elif (z3.is_select(b) or (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED)) and not _occurs(b, a): subs.append((b, a))
        if subs:
            g2 = z3.substitute(goal, *subs)
            if not g2.eq(goal):
                if not z3.is_eq(g2): return z3.is_true(g2)
                if split_ring(hyps + [z3.substitute(h, *subs) for h in qf if nonlin(h)], g2, depth + 1): return True
        if ring.prove(qf, goal, lin=True): return True
        return ring.entails(qf, goal, 3000)
    for val in (True, False):
        cc = c if val else z3.Not(c)
        hs = [_assume(h, c, val) if not has_quant(h) else h for h in hyps] + [cc]
        s = z3.Solver(); s.set("timeout", 1000)
        from .symx import nonlin
        s.add(*[h for h in hs if not has_quant(h) and not nonlin(h)])
        if s.check() == z3.unsat: continue
        g2 = _assume(goal, c, val)
        if not split_ring(hs, g2, depth + 1): return False
    return True

def _occurs(a, e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(a): return True
        stack += x.children()
    return False

_UM = z3.Function("nl_mul", z3.RealSort(), z3.RealSort(), z3.RealSort())
_UD = z3.Function("nl_div", z3.RealSort(), z3.RealSort(), z3.RealSort())
def abstract_nl(e, memo):
    """replace non-linear real products/quotients by uninterpreted functions (sound: only loses information)"""
    from .symx import numeral
    def rec(x):
        k = x.get_id()
        if k in memo: return memo[k][0]
        if z3.is_quantifier(x) or not x.children(): r = x
        else:
            ch = [rec(c) for c in x.children()]
            if z3.is_mul(x) and z3.is_real(x) and sum(1 for c in ch if numeral(c) is None) > 1:
                nums = [c for c in ch if numeral(c) is not None]; oth = [c for c in ch if numeral(c) is None]
                r = oth[0]
                for c in oth[1:]: r = _UM(r, c)
                for c in nums: r = c * r
            elif z3.is_div(x) and numeral(ch[1]) is None: r = _UD(ch[0], ch[1])
            else: r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
        memo[k] = (r, x)
        return r
    return rec(e)

# ---- goal-directed instantiation of quantified hypotheses by their triggers
def _alts(t, memo, depth=0):
    """terms an array-valued or select term may be equal to by read-over-write and ite"""
    k = t.get_id()
    if k in memo: return memo[k][0]
    memo[k] = ([t], t)
    out = {t.get_id(): t}
    def add(x): out.setdefault(x.get_id(), x)
    if z3.is_app(t):
        dk = t.decl().kind()
        if dk == z3.Z3_OP_ITE:
            for b in t.children()[1:]:
                for x in _alts(b, memo): add(x)
        elif dk == z3.Z3_OP_SELECT and t.num_args() == 2:
            i = t.arg(1)
            for a in _alts(t.arg(0), memo):
                st = [a]
                while st:
                    a = st.pop()
                    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                        for v in _alts(a.arg(2), memo): add(v)
                        for b in _alts(a.arg(0), memo): st.append(b)
                    elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: st.extend(a.children()[1:])
                    else: add(z3.Select(a, i))
                if len(out) > 40: break
    memo[k] = (list(out.values()), t)
    return memo[k][0]

def _ground(e, seen, out, memo):
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen[x.get_id()] = x
        if z3.is_quantifier(x): continue
        if z3.is_app(x) and x.num_args():
            st.extend(x.children())
            if x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                out.setdefault(x.decl().name() if x.decl().kind() != z3.Z3_OP_SELECT else "select", []).append(x)
                if x.decl().kind() == z3.Z3_OP_SELECT:
                    for y in _alts(x, memo):
                        if y.get_id() not in seen: st.append(y)

def _match(p, t, b):
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in b: return b if b[i].eq(t) else None
        if p.sort() != t.sort(): return None
        b = dict(b); b[i] = t; return b
    if z3.is_app(p) and p.num_args() == 0: return b if p.eq(t) else None
    if not z3.is_app(t) or p.num_args() != t.num_args() or not p.decl().eq(t.decl()): return None
    for x, y in zip(p.children(), t.children()):
        b = _match(x, y, b)
        if b is None: return None
    return b

def instances(hyps, goal, rounds=2, cap=400):
    """ground hypotheses + trigger instances of the quantified ones reachable from the goal"""
    qs, gr = [], []
    for h in hyps:
        g, q = [], h
        while z3.is_app(q) and z3.is_implies(q): g.append(q.arg(0)); q = q.arg(1)
        if z3.is_quantifier(q) and q.is_forall() and q.num_patterns() > 0: qs.append((q, g))
        elif not has_quant(h): gr.append(h)
    seen, idxd, memo, done, out = {}, {}, {}, set(), []
    _ground(goal, seen, idxd, memo)
    cache = {}
    for h in gr:        # antecedents of the goal: they speak of its skolem constants
        if any(a.startswith("sk!") for a in atoms_of(h, cache)): _ground(h, seen, idxd, memo)
    for r in range(rounds):
        new = []
        for q, g in qs:
            n = q.num_vars()
            for k in range(q.num_patterns()):
                pat = q.pattern(k); bs = [{}]
                for p in pat.children():
                    key = "select" if p.decl().kind() == z3.Z3_OP_SELECT else p.decl().name()
                    nb = []
                    for b in bs:
                        for t in idxd.get(key, ()):
                            m = _match(p, t, b)
                            if m is not None: nb.append(m)
                    bs = nb
                for b in bs:
                    if len(b) < n: continue
                    kk = (q.get_id(),) + tuple(b[i].get_id() for i in range(n))
                    if kk in done: continue
                    done.add(kk); f = z3.substitute_vars(q.body(), *[b[i] for i in range(n)])
                    for a in reversed(g): f = z3.Implies(a, f)
                    new.append(f)
                    if len(done) > cap: return gr, out + new
        if not new: break
        out += new
        for f in new: _ground(f, seen, idxd, memo)
    return gr, out

def inst_try(hyps, goal, t):
    for rounds in (1, 2):
        gr, ins = instances(hyps, goal, rounds)
        if not ins: continue
        memo = {}
        s = z3.SimpleSolver(); s.set("timeout", int(1000 * t))
        s.add(*[abstract_nl(h, memo) for h in gr + ins]); s.add(z3.Not(abstract_nl(goal, memo)))
        if s.check() == z3.unsat: return True
    return False

def attempt(ob, budget):
    """-> (verdict, backend, model/reason). verdict: proved / refuted / unknown"""
    t0 = time.time()
    hyps, goal = simp_hyps(ob.hyps), ob.goal
    if z3.is_true(z3.simplify(goal)): return "proved", "simplify", ""
    if z3.is_and(goal) and len(goal.children()) > 1 and not getattr(ob, "nosplit", False):
        backs = set(); prev = []
        for g in goal.children():
            ob2 = type(ob)(**{a: getattr(ob, a) for a in ob.__slots__}); ob2.goal = g; ob2.hyps = list(ob.hyps) + prev
            v, b, m = attempt(ob2, budget)
            if v != "proved": return v, b, m
            backs |= set(b.split("+"))
            prev.append(g)
        return "proved", "+".join(sorted(backs)), ""
    if z3.is_implies(goal):
        ob2 = type(ob)(**{a: getattr(ob, a) for a in ob.__slots__}); ob2.goal = goal.arg(1); ob2.hyps = hyps + [goal.arg(0)]
        return attempt(ob2, budget)
    if z3.is_quantifier(goal) and goal.is_forall():
        ob2 = type(ob)(**{a: getattr(ob, a) for a in ob.__slots__}); ob2.hyps = hyps
        vs = [z3.Const("sk!%s!%d" % (goal.var_name(i), goal.get_id()), goal.var_sort(i)) for i in range(goal.num_vars())]
        ob2.goal = z3.substitute_vars(goal.body(), *reversed(vs))
        return attempt(ob2, budget)
    quant = any(has_quant(h) for h in hyps) or has_quant(goal)
    if quant and ob.hint not in ("ring", "ringfirst"):      # most obligations fall to a quick instantiation
        memo = {}
        s = _solver(EM); s.set("timeout", 400)
        s.add(*[abstract_nl(h, memo) for h in hyps]); s.add(z3.Not(abstract_nl(goal, memo)))
        if s.check() == z3.unsat: return "proved", "z3/ematch", ""
        if inst_try(hyps, goal, 1.0): return "proved", "z3/instances", ""
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)) is False and z3.is_real(goal.arg(0)) and not has_quant(goal):
        try:
            if split_ring(hyps, goal, 0): return "proved", "split+ring", ""
        except ring.GiveUp: pass
    if ob.hint in ("ring", "ringfirst") or ring.looks_ring(goal):
        try:
            ok = ring.prove(hyps, goal)
        except ring.GiveUp as e:
            ok = False
        if ok: return "proved", "ring", ""
    reason = ""
    # cheap attempt without quantified hypotheses first
    qf = [h for h in hyps if not has_quant(h)]
    if quant and not has_quant(goal):
        s = _solver({}); s.set("timeout", int(1000 * min(2, budget)))
        s.add(*qf); s.add(z3.Not(goal))
        if s.check() == z3.unsat: return "proved", "z3/qf", ""
    stages = STAGES_Q if quant else STAGES_QF
    from .symx import nonlin
    if quant and any(nonlin(h) for h in hyps if not has_quant(h)):
        memo = {}
        ah, ag = [abstract_nl(h, memo) for h in hyps], abstract_nl(goal, memo)
        for t in (1.5, 4.0):
            if cvc5_try(ah, ag, t)[0] == "proved": return "proved", "cvc5", ""
            s = _solver(EM); s.set("timeout", int(1000 * t)); s.add(*ah); s.add(z3.Not(ag))
            if s.check() == z3.unsat: return "proved", "z3/ematch", ""
    for name, conf, frac in stages:
        t = max(1.0, frac if frac >= 1 else budget * frac)
        if frac >= 1: t = min(t, budget)
        if name == "cvc5":
            r = cvc5_try(hyps, goal, t)
            if r[0] == "proved": return r
            if r[0] == "refuted" and not quant: return r
            continue
        s = _solver(conf); s.set("timeout", int(1000 * t))
        s.add(*hyps); s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat: return "proved", name, ""
        if r == z3.sat:
            m = s.model()
            txt = "\n".join("%s = %s" % (d.name(), str(m[d])[:200]) for d in sorted(m.decls(), key=lambda d: d.name()) if d.arity() == 0)[:6000]
            return "refuted", name, txt
        reason = s.reason_unknown()
    return "unknown", "z3+cvc5", reason

def cvc5_try(hyps, goal, budget):
    s = z3.Solver(); s.add(*hyps); s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False); f.write(txt); f.close()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(budget * 1000), f.name], capture_output=True, text=True, timeout=budget + 10)
        out = r.stdout.strip().split("\n")[0] if r.stdout else ""
    except subprocess.TimeoutExpired: out = "timeout"
    finally: os.unlink(f.name)
    if out == "unsat": return "proved", "cvc5", ""
    if out == "sat": return "refuted", "cvc5", ""
    return "unknown", "cvc5", out

def _worker(ob, budget, wfd):
    try:
        t = time.time()
        r = attempt(ob, budget)
        res = r + (time.time() - t,)
    except z3.Z3Exception as e:
        res = ("unknown", "z3", "z3 exception: %s" % e, 0.0)
    except Exception:
        res = ("unknown", "internal", traceback.format_exc()[-1500:], 0.0)
    with os.fdopen(wfd, "wb") as f: pickle.dump(res, f)
    os._exit(0)

def run_forked(tasks, budget, hard=None, nproc=NPROC, stop=None):
    """tasks: list of callables(wfd) run in forked children. -> list of results (None on hard timeout)"""
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))[::-1]
    live = {}
    hard = hard or budget * 3 + 10
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try: os.setpgid(0, 0)
                except OSError: pass
                tasks[i](w)
                os._exit(0)
            os.close(w)
            live[r] = (pid, i, time.time(), [])
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in rd:
            pid, i, t, buf = live[r]
            d = os.read(r, 1 << 16)
            if d: buf.append(d); continue
            os.close(r); os.waitpid(pid, 0); del live[r]
            try: res[i] = pickle.loads(b"".join(buf))
            except Exception: res[i] = None
        now = time.time()
        for r in list(live):
            pid, i, t, buf = live[r]
            if now - t > hard or (stop and stop()):
                try: os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                os.close(r); os.waitpid(pid, 0); del live[r]
                res[i] = None
        if stop and stop(): break
    return res

def discharge(obls, budget=20.0, retry=None, deadline=None):
    """-> list of (verdict, backend, info, seconds), same order. Identical obligations solved once."""
    keyed, uniq, order = {}, [], []
    for ob in obls:
        k = (ob.goal.get_id(), tuple(sorted(set(h.get_id() for h in ob.hyps))), ob.hint)
        if k not in keyed: keyed[k] = len(uniq); uniq.append(ob)
        order.append(keyed[k])
    stop = (lambda: time.time() > deadline) if deadline else None
    # trivial ones in process
    res = [None] * len(uniq); rest = []
    for i, ob in enumerate(uniq):
        if z3.is_true(ob.goal) or any(h.eq(ob.goal) for h in ob.hyps): res[i] = ("proved", "syntactic", "", 0.0)
        else: rest.append(i)
    out = run_forked([(lambda w, i=i: _worker(uniq[i], budget, w)) for i in rest], budget, stop=stop)
    for i, r in zip(rest, out): res[i] = r or ("unknown", "z3", "hard time limit", budget)
    if retry:
        bad = [i for i in rest if res[i][0] == "unknown"]
        for k in range(0, len(bad), 8):      # in batches: once one resists, the verdict is clear
            if stop and stop(): break
            out = run_forked([(lambda w, i=i: _worker(uniq[i], retry, w)) for i in bad[k:k + 8]], retry, stop=stop)
            for i, r in zip(bad[k:k + 8], out):
                if r and r[0] != "unknown": res[i] = r
            if any(res[i][0] != "proved" for i in bad[k:k + 8]): break
    return [res[k] for k in order]

def covers(cov, budget=3.0):
    """vacuity guard: hypotheses must not be refutable. -> list of names that are contradictory"""
    def w(h, wfd):
        bad = False
        for conf in ({}, {"auto_config": False, "mbqi": False}):
            s = _solver(conf); s.set("timeout", int(budget * 1000)); s.add(*h)
            if s.check() == z3.unsat: bad = True
        with os.fdopen(wfd, "wb") as f: pickle.dump(bad, f)
        os._exit(0)
    out = run_forked([(lambda wfd, h=h: w(h, wfd)) for _, h in cov], budget)
    return [n for (n, _), r in zip(cov, out) if r]
