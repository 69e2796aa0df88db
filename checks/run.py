#!/opt/veriftools/pyvenv/bin/python
"""Check one property:  run.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. extract the functions under contract from /repo's working tree, generate their
   proof obligations, discharge them                                     -> exit 0
2. an obligation fails: search for a concrete failing input with the runtime contract
   driver, report VIOLATION (with or without a failing input)            -> exit 1
3. a function cannot be brought within the verifier's reach (unsupported construct,
   loops that do not match the loop contracts): bounded stand-in, labelled bounded."""
import os, sys, time, json, itertools, traceback, importlib, glob, re, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF); sys.setrecursionlimit(100000)
import z3
from dv.cparse import TU, FrontError, REPO
from dv import symx, solve
from dv.symx import Exec, Unsupported, StructuralMismatch, Unbound, TooManyPaths, Fork

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
LIMIT = 780.0 if TIER == "quick" else 3000.0

def load_props():
    from specs import common
    for f in sorted(glob.glob(os.path.join(VERIF, "specs", "*.py"))):
        m = os.path.basename(f)[:-3]
        if m[0] != "_" and m != "common": importlib.import_module("specs." + m)
    return common.PROPS

_tus = {}
def tu_for(fn):
    key = (fn.file, tuple(getattr(fn, "tuopts", {}).items()))
    if key not in _tus: _tus[key] = TU(fn.file, **getattr(fn, "tuopts", {}))
    return _tus[key]

def local_names(tu, name):
    """locals of a function in declaration order"""
    from pycparser import c_ast
    out = []
    class V(c_ast.NodeVisitor):
        def visit_Decl(s, d):
            if d.name and d.name not in out: out.append(d.name)
            s.generic_visit(d)
    if name in tu.funcs: V().visit(tu.funcs[name].body)
    return out

def generate(fn):
    """-> Exec with obligations; renamed locals are re-bound by trying the names the source has now"""
    tu = tu_for(fn)
    if fn.name not in tu.funcs: raise StructuralMismatch("function %s not found in %s" % (fn.name, fn.file))
    def go(ren):
        ex = Exec(tu, {}, fn, renames=ren); ex.verify(); return ex
    try: return [go({})]
    except Unbound as u: missing = [u.name]
    names = local_names(tu, fn.name)
    known = set(getattr(fn, "uses", []))
    cands = [n for n in names if n not in known]
    exs, tried = [], 0
    def search(ren, miss):
        nonlocal tried
        for c in cands:
            if c in ren.values(): continue
            tried += 1
            if tried > 60: return
            r2 = dict(ren); r2[miss] = c
            try: exs.append(go(r2))
            except Unbound as u:
                if u.name not in r2: search(r2, u.name)
            except (Unsupported, StructuralMismatch, TooManyPaths, z3.Z3Exception, KeyError): pass
            if len(exs) >= 6: return
    search({}, missing[0])
    if not exs: raise StructuralMismatch("local %s that the contract of %s names is gone" % (missing[0], fn.name))
    return exs

# ---------------------------------------------------------------- runtime driver
def mined_consts(path):
    """numeric literals of the current sources: candidate inputs for the concrete search"""
    vals = set()
    for f in glob.glob(os.path.join(REPO, "src", "*.[ch]")):
        txt = re.sub(r"/\*.*?\*/|//[^\n]*", "", open(f, errors="replace").read(), flags=re.S)
        for m in re.findall(r"(?<![\w.])(?:0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)", txt):
            try: v = float(int(m, 16)) if m.lower().startswith("0x") else float(m)
            except ValueError: continue
            vals.add(v)
    with open(path, "w") as f:
        for v in sorted(vals)[:4000]: f.write("%r\n" % v)

def build_rt(src, d, opts=()):
    t = open(os.path.join(REPO, "config/r3d-config.h.in")).read()
    t = re.sub(r"@\w+@", "", t.replace("@R3D_MAX_VERTS@", "512"))
    open(os.path.join(d, "r3d-config.h"), "w").write(t)
    exe = os.path.join(d, "rt_" + os.path.basename(src)[:-2])
    cmd = ["gcc", "-O1", "-g", "-w", "-std=gnu11", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=float-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=undefined",
           "-fno-omit-frame-pointer", "-I" + d, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "rt")] + list(opts)
    objs = []
    procs = []
    srcs = [os.path.join(VERIF, "rt", "main.c"), os.path.join(VERIF, "rt", src)] + sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    for s in srcs:
        o = os.path.join(d, os.path.basename(src)[:-2] + "_" + os.path.basename(s)[:-2] + ".o"); objs.append(o)
        procs.append((s, subprocess.Popen(cmd + ["-c", s, "-o", o], stderr=subprocess.PIPE, text=True)))
    for s, p in procs:
        err = p.communicate()[1]
        if p.returncode: return None, "%s: %s" % (s, err[-1500:])
    r = subprocess.run(cmd + objs + ["-lm", "-o", exe], capture_output=True, text=True)
    return (exe, "") if r.returncode == 0 else (None, r.stderr[-1500:])

def run_rt(tests, secs, max_evals=0, workers=None):
    """tests: [(src, testname)]. -> (failure text | None, stats dict)"""
    d = tempfile.mkdtemp(prefix="dvrt")
    stats = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "tests": [], "errors": []}
    try:
        consts = os.path.join(d, "consts"); mined_consts(consts)
        jobs = []
        exes = {}
        for src, t in tests:
            if src not in exes: exes[src] = build_rt(src, d)
        k = 0
        total = workers or 8
        per = max(1, total // max(1, len(tests)))
        for src, t in tests:
            exe, err = exes[src]
            if exe is None: stats["errors"].append(err); continue
            for w in range(per):
                ff = os.path.join(d, "fail%d" % k); k += 1
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:exitcode=3:abort_on_error=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=3", LSAN_OPTIONS="exitcode=4")
                p = subprocess.Popen(["bash", "-c", "ulimit -s 1000000 2>/dev/null || ulimit -s $(ulimit -Hs); exec \"$@\"", "rt", exe, t, str(SEED * 1000 + w), str(secs), str(max_evals), ff, consts],
                                     stdout=open(ff + ".out", "w"), stderr=open(ff + ".err", "w"), env=env, cwd=d)   # files: a full pipe would block the driver
                jobs.append((t, p, ff, SEED * 1000 + w))
        fail = None
        # stop the others soon after one driver has found a failing input
        end = time.time() + secs + 120; cut = None; stopped = set()
        while any(p.poll() is None for _, p, _, _ in jobs) and time.time() < end:
            if cut is None and any(p.poll() not in (None, 0, 2) for _, p, _, _ in jobs): cut = time.time() + 2
            if cut is not None and time.time() > cut:
                for q, (_, p, _, _) in enumerate(jobs):
                    if p.poll() is None: p.kill(); p.wait(); stopped.add(q)
                break
            time.sleep(0.1)
        for q, (t, p, ff, sd) in enumerate(jobs):
            if q in stopped: continue
            def text(x, n=4 << 20):
                with open(ff + x, errors="replace") as h: h.seek(max(0, os.path.getsize(ff + x) - n)); return h.read()
            try: p.wait(timeout=max(0.1, end - time.time())); out, err = text(".out"), text(".err")
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                if fail is None: fail = "test %s (seed %d): the code under test did not return within %d s\n" % (t, sd, secs + 120)
                continue
            m = re.search(r"RTDONE evals=(\d+) nontrivial=(\d+)", out)
            if m:
                stats["evaluations"] += int(m.group(1)); stats["distinct_nontrivial"] += int(m.group(2))
                s = re.search(r"RTSAMPLE (.*)", out)
                if s and len(stats["samples"]) < 4: stats["samples"].append("%s: %s" % (t, s.group(1)[:400]))
            if p.returncode in (0,): continue
            txt = open(ff).read() if os.path.exists(ff) else ""
            if p.returncode == 4 and not txt:
                txt = "memory leaked by the code under test (LeakSanitizer)\n" + err[-3000:]
            if p.returncode == 2: stats["errors"].append("%s: %s" % (t, err[-500:])); continue
            if fail is None:
                fail = "test %s (driver seed %d, exit %d)\n%s\n%s" % (t, sd, p.returncode, txt[:8000], err[-4000:])
        stats["tests"] = [t for _, t in tests]
        return fail, stats
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- main
def known_findings(pid):
    f = os.path.join(VERIF, "known-findings.txt"); out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid): out.append(l[len("finding: "):])
    return out

def main():
    pid = sys.argv[1]
    P = load_props()[pid]
    thorough = TIER == "thorough"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": P.level, "coverage": {}, "assumptions": [], "wall_s": 0.0, "violations": 0}
    from specs.common import BASE_ASSUMPTIONS
    assumptions = list(BASE_ASSUMPTIONS) + P.assumptions
    structural, failures, fn_report = [], [], []
    total = disch = 0; solver_s = 0.0; backends = {}; trusted = list(P.trusted)
    budget = P.budget * (3 if thorough else 1)
    jobs = []            # (label, [candidate obligation lists], covers)
    for fn in P.fns + (P.thorough_fns if thorough else []):
        lab = fn.name + ((":" + fn.label) if getattr(fn, "label", None) else "")
        try:
            exs = generate(fn)
            jobs.append((lab, exs))
        except (Unsupported, StructuralMismatch, Unbound, TooManyPaths, FrontError, Fork) as e:
            structural.append((lab, "%s: %s" % (type(e).__name__, e)))
        except Exception as e:
            structural.append((lab, "generator error %s: %s" % (type(e).__name__, traceback.format_exc()[-1200:])))
    deadline = T0 + LIMIT * 0.62
    # all obligations of all functions in one pool
    flat, index = [], []
    for j, (lab, exs) in enumerate(jobs):
        for ob in exs[0].obls: flat.append(ob); index.append((j, ob))
    for lm in P.lemmas:
        L = lm() if callable(lm) else lm
        flat.append(symx.Obligation(name=L.name, kind="lemma", hyps=L.hyps, goal=L.goal, fn="lemma", hint=L.hint)); index.append((-1, flat[-1]))
    res = solve.discharge(flat, budget, retry=budget * 2.5, deadline=deadline) if flat else []
    per = {}
    for (j, ob), r in zip(index, res):
        per.setdefault(j, []).append((ob, r)); solver_s += r[3]
    for j, (lab, exs) in enumerate(jobs):
        rs = per.get(j, [])
        bad = [(o, r) for o, r in rs if r[0] != "proved"]
        if bad and len(exs) > 1:       # renamed locals: another binding may be the right one
            for ex in exs[1:]:
                r2 = solve.discharge(ex.obls, budget, deadline=deadline)
                if all(r[0] == "proved" for r in r2): rs, bad = list(zip(ex.obls, r2)), []; break
            if bad:
                structural.append((lab, "renamed locals: no binding of the contract's names verifies")); continue
        if not rs: structural.append((lab, "no obligations were generated")); continue
        ex = exs[0]
        total += len(rs); disch += len(rs) - len(bad)
        for o, r in rs:
            if r[0] == "proved":
                for b in r[1].split("+"): backends[b] = backends.get(b, 0) + 1
        fn_report.append({"function": lab, "file": ex.tu.relpath, "obligations": len(rs), "discharged": len(rs) - len(bad), "paths": ex.npaths,
                          "inlined": sorted(ex.inlined), "callee_contracts_used": sorted(ex.used_contracts)})
        assumptions += sorted(ex.assumed)
        for o, r in bad: failures.append((lab, o, r))
    for ob, r in per.get(-1, []):
        total += 1
        if r[0] == "proved":
            disch += 1
            for b in r[1].split("+"): backends[b] = backends.get(b, 0) + 1
        else: failures.append(("lemma", ob, r))
    # lemmas proved in Lean: pure mathematics, independent of the source
    for f, thms in P.lean:
        r = subprocess.run(["lean", os.path.join(VERIF, "lean", f)], capture_output=True, text=True, timeout=300, cwd=VERIF)
        for t in thms:
            ok = r.returncode == 0 and "sorryAx" not in r.stdout and re.search(r"'%s' (does not depend|depends) on" % re.escape(t), r.stdout)
            if ok: total += 1; disch += 1; backends["lean"] = backends.get("lean", 0) + 1
            else: trusted.append("NOT CHECKED IN THIS RUN: theorem %s of lean/%s" % (t, f))
    # vacuity guard
    covs = []
    for lab, exs in jobs:
        seen = set()
        for n, h in exs[0].covers:
            if n in seen: continue
            seen.add(n); covs.append(("%s: %s" % (lab, n), h))
    contradictory = solve.covers(covs, 2.0) if covs and not failures else []
    for c in contradictory: structural.append((c, "hypotheses are contradictory (vacuous proof)"))
    ev["assumptions"] = sorted(set(assumptions))
    trusted += ["z3 5.3.2 (Python binding), cvc5 1.1.2", "rational-function normaliser /verif/dv/ring.py", "VC generator /verif/dv/symx.py", "pycparser, gcc -E"]
    cov = {"obligations": total, "discharged": disch, "checker_cmd": "python3-vt checks/run.py %s" % pid, "trusted_base": trusted,
           "functions_under_contract": fn_report, "backends": backends, "solver_seconds": round(solver_s, 2), "reachability_covers": len(covs), "lemmas": len(P.lemmas)}
    def finish(code, line=None, extra=None):
        ev["coverage"] = dict(cov, **(extra or {})); ev["wall_s"] = round(time.time() - T0, 2)
        ev["violations"] = 1 if code == 1 else 0
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for k in known_findings(pid): print("KNOWN-FINDING: " + k)
        print("%s: %d functions under contract, %d/%d obligations discharged, %d outside reach, %.1f s" % (pid, len(fn_report), disch, total, len(structural), time.time() - T0))
        if line: print(line)
        sys.stdout.flush(); os._exit(code)
    def describe():
        t = ""
        for lab, o, r in failures[:12]:
            t += "failed obligation: %s / %s: %s%s\n  verdict %s by %s\n  %s\n" % (lab, o.kind, o.name, " (line %s)" % o.line if o.line else "", r[0], r[1], (r[2] or "").replace("\n", "\n  ")[:1500])
        for lab, why in structural[:12]: t += "outside the verifier's reach: %s: %s\n" % (lab, why)
        return t
    remain = lambda: LIMIT - (time.time() - T0)
    always = list(P.bounded)
    rt_stats = None
    if failures or structural:
        tests = list(dict.fromkeys(list(P.rt) + always))
        secs = min(150 if not thorough else 600, max(20, remain() - 150))
        if not failures: secs = min(secs, 75 if not thorough else 600)
        fail, st = run_rt(tests, secs) if tests else (None, {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "errors": ["no driver"]})
        extra = {"bounded_stand_in": st, "outside_reach": structural}
        if fail is not None or failures:
            rp = os.path.join(VERIF, "replays", "%s.txt" % pid)
            with open(rp, "w") as f:
                f.write("property %s\n%s\n" % (pid, describe()))
                if fail is not None: f.write("concrete failing input against the real code (replay: the driver /verif/rt with the seed below):\n%s\n" % fail)
                else: f.write("no concrete failing input was found (%s evaluations)\n%s\n" % (st["evaluations"], st.get("errors")))
            if fail is not None: finish(1, "VIOLATION property=%s replay=%s" % (pid, rp), extra)
            finish(1, "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp), extra)
        ev["level"] = "exploration" if disch == 0 else ev["level"]
        extra.update({"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"], "samples": st["samples"] or ["none"],
                      "rule": "bounded stand-in: random structured inputs against an independent oracle; non-trivial = non-empty input", "bounded": True})
        finish(0, None, extra)
    if always:
        fail, st = run_rt(always, 40 if not thorough else 600)
        extra = {"bounded_checks": st, "evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"], "samples": st["samples"] or ["none"],
                 "rule": "bounded: functions outside the verifier's reach, random structured inputs against an independent oracle; non-trivial = non-empty input"}
        if fail is not None:
            rp = os.path.join(VERIF, "replays", "%s.txt" % pid)
            open(rp, "w").write("property %s (bounded check)\n%s\n" % (pid, fail))
            finish(1, "VIOLATION property=%s replay=%s" % (pid, rp), extra)
        finish(0, None, extra)
    finish(0)

if __name__ == "__main__":
    main()
