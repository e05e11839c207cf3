#!/usr/bin/env python3-vt
"""check.py <ID> [--tier quick|thorough]      decide one property on /repo's current working tree
   check.py <ID> --case SEED ITER            replay one generated case against the real code
   check.py <ID> --fn NAME                   verify only the contracts whose name contains NAME (development)

Deciding step: every contract that carries the property (and every contract those proofs used at a call site) is
verified against the LLVM IR that clang produces from /repo's sources in this run.  A bounded search of the compiled
real code (drivers/) runs as well: it is the stand-in for what no contract covers, and it looks for a concrete failing
input whenever an obligation is not discharged."""
import re, sys, os, json, time, tempfile, shutil, subprocess, importlib, multiprocessing as mp, multiprocessing.connection, concurrent.futures as cf, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = ["varint", "addrcache", "headerparser", "codetable", "decodetable", "instmap", "encodetable", "adler", "rollhash", "blockhash",
           "engine_", "decoder", "window", "deltafile", "jsonwriter", "encoder", "lifecycle", "tool"]
TRUSTED = ["clang 18 as the extractor: its unoptimised LLVM IR of /repo/src is the verified text (exception paths dropped by -fno-exceptions; the code throws nothing itself)",
           "the IR executor and obligation generator irv/ (memory model: distinct objects are disjoint, a string or vector buffer is its own object)",
           "z3 4.x and cvc5 1.1 answers 'unsat'"]

def load_contracts():
    cs, lemmas = [], {}
    for m in MODULES:
        if not os.path.exists(os.path.join(ROOT, "irv", "contracts", m + ".py")): continue
        M = importlib.import_module("irv.contracts." + m)
        for c in M.CONTRACTS: c.module = m; cs.append(c)
        for k, v in getattr(M, "LEMMAS", {}).items(): lemmas.setdefault(k, []).extend(v)
    return cs, lemmas

G = {}
def _verify(job):
    from irv import contract
    i, case = job
    c = G["cs"][i]
    try:
        if getattr(c, "data", False):
            t = time.time(); r = contract.Result(c)
            try: r.obligs = c.check(G["mod"], G["di"])
            except Exception: r.error = "static data not evaluable: " + traceback.format_exc()[-800:]
            r.time = time.time() - t; r.idx = i
            return r
        import z3
        t0 = time.time()
        best = None
        for attempt in range(5):
            # an obligation left open is tried again with loops cut behind their exit test (attempts 1, 3) and with other solver seeds: any accepted proof counts
            seed = attempt // 2 * 17
            z3.set_param("smt.random_seed", seed); z3.set_param("sat.random_seed", seed)
            r = contract.verify(G["mod"], G["di"], c, G["reg"], budget=G["budget"], only_case=case, patience=1 + attempt // 2 * 2, rotate=attempt % 2 == 1)
            ok = all(o.status == "proved" for o in r.obligs)
            if ok and not r.error: best = r; break
            # an attempt outside the engine's reach says nothing about the obligations another attempt left open
            if best is None: best = r
            if time.time() - t0 > 100 or r.missing: break
            if attempt == 1 and all(o.status == "proved" for o in best.obligs): break
        r = best
    except Exception:
        r = contract.Result(c); r.error = "internal: " + traceback.format_exc()[-1500:]
    r.idx = i
    return r
def _lemma(i):
    import z3
    fn = G["lemmas"][i]; out = []
    for name, s in fn():
        t = time.time(); r = s.check(); out.append((name, str(r), time.time() - t))
    return out

def run_jobs(queue, width, limit):
    """every job in a process of its own, forked from the same state: the solver's answers do not depend on what was verified before"""
    ctx = mp.get_context("fork"); live = {}
    def child(fn, job, w): w.send(fn(job)); w.close()
    while queue or live:
        while queue and len(live) < width:
            fn, job = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(fn, job, w)); p.start(); w.close()
            live[r] = (p, fn, job, time.time())
        ready = mp.connection.wait(list(live), timeout=5)
        for r in ready:
            p, fn, job, t = live.pop(r)
            try: v = r.recv()
            except EOFError: v = None
            r.close(); p.join()
            yield (fn, job), v
        for r in [r for r, v in live.items() if time.time() - v[3] > limit]:
            p, fn, job, t = live.pop(r); p.kill(); p.join(); r.close()
            yield (fn, job), None

def prove(prop, tmp, only=None, tier="quick", defines=(), pick=None):
    """-> dict with results; never raises for tool limits.  pick: only these contracts (by index), without the contracts they use"""
    from irv import ir, extract, contract
    out = {"results": [], "lemmas": [], "note": None}
    try:
        ll = extract.extract(REPO, os.path.join(tmp, "-".join(("ir",) + tuple(defines))), os.path.join(ROOT, "cfg"), tool=prop == "C18" or only is not None, defines=defines)
        mod = ir.Module(open(ll).read()); di = ir.DI(mod)
    except Exception as x:
        out["note"] = "extraction failed: %s" % str(x)[-1500:]
        return out
    cs, lem = load_contracts()
    reg = {}
    owner = {}
    for i, c in enumerate(cs):
        if getattr(c, "data", False): continue
        for n in contract.resolve(mod, c): reg[n] = c; c.mangled = n; owner[n] = i
    G.update(mod=mod, di=di, cs=cs, reg=reg, budget=240 if tier == "quick" else 900, lemmas=lem.get(prop, []) if pick is None else [])
    todo = list(pick) if pick is not None else [i for i, c in enumerate(cs) if (prop in c.props if only is None else only in c.match)]
    done = set(); queue = []
    def submit(i):
        if i in done or cs[i].trusted: return
        done.add(i)
        # the cases of a contract are independent proofs
        for case in (cs[i].cases if not getattr(cs[i], "data", False) and len(cs[i].cases) > 1 else (None,)): queue.append((_verify, (i, case)))
    for i in range(len(G["lemmas"])): queue.append((_lemma, i))
    for i in sorted(todo, key=lambda i: -getattr(cs[i], "cost", 1)): submit(i)
    for (fn, job), r in run_jobs(queue, 8, 420 if tier == "quick" else 1500):
        if fn is _lemma: out["lemmas"] += r if r is not None else [("lemma %d" % job, "no answer", 0.0)]; continue
        if r is None: r = contract.Result(cs[job[0]]); r.error = "the verifying process ended without an answer"; r.idx = job[0]
        prev = [q for q in out["results"] if q.idx == r.idx]
        if prev: contract.merge(prev[0], r)
        else: out["results"].append(r)
        if only is None and pick is None:
            for n in r.used_mangled:
                if n in owner: submit(owner[n])
    out["results"].sort(key=lambda r: r.idx)
    return out

CXX = ["clang++", "-std=c++17", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w"]
# properties that only the frame conditions state: another open obligation leaves them undecided, it does not violate them
FRAME_ONLY = ("C19",)
def sanitizer(prop):
    f = os.path.join(ROOT, "drivers", prop + ".cc")
    return "ThreadSanitizer" if os.path.exists(f) and "// SANITIZE: thread" in open(f).read() else "AddressSanitizer and UBSan"
def build_driver(prop, tmp):
    src = os.path.join(ROOT, "drivers", prop + ".cc")
    if not os.path.exists(src): return None, "no driver"
    d = os.path.join(tmp, "drv"); os.makedirs(d, exist_ok=True)
    m = re.search(r"// SANITIZE: (\S+)", open(src).read()); san = "-fsanitize=" + (m.group(1) if m else "address,undefined")
    cxx = [san if x.startswith("-fsanitize=") else x for x in CXX if not (m and "recover" in x)] + (["-pthread"] if m else [])
    inc = ["-I" + ROOT + "/cfg", "-I" + REPO + "/src", "-I" + REPO + "/src/zlib", "-I" + ROOT + "/drivers"]
    from irv import extract
    jobs = []
    for p in extract.sources(REPO):
        o = os.path.join(d, os.path.basename(p) + ".o")
        jobs.append((["clang"] + [x for x in cxx[1:] if not x.startswith("-std")] if p.endswith(".c") else cxx) + inc + ["-c", p, "-o", o])
    jobs.append(cxx + inc + ["-c", src, "-o", os.path.join(d, "main.o")])
    def run(c): return subprocess.run(c, capture_output=True, text=True)
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(run, jobs):
            if r.returncode: return None, "driver build failed: " + r.stderr[-1500:]
    exe = os.path.join(d, prop)
    r = run(["clang++", san] + (["-pthread"] if m else []) + [c[-1] for c in jobs] + ["-o", exe])
    if r.returncode: return None, "driver link failed: " + r.stderr[-1500:]
    t = re.search(r"// TOOL: (\S+) (\S+) (\S+)", open(src).read())
    if t:      # the command-line tool, with the named function wrapped by the shim
        mo, so = os.path.join(d, "tool.o"), os.path.join(d, "shim.o")
        for c in (cxx + inc + ["-I" + REPO + "/src/google", "-c", REPO + "/src/" + t.group(1), "-o", mo],
                  ["clang", "-O1", "-w", "-c", os.path.join(ROOT, "drivers", t.group(2)), "-o", so],
                  ["clang++", san, "-Wl,--wrap=" + t.group(3), mo, so] + [c[-1] for c in jobs[:-1]] + ["-lgflags", "-o", exe + "_tool"]):
            r = run(c)
            if r.returncode: return None, "tool build failed: " + r.stderr[-1500:]
    return exe, None

def search(exe, prop, seed, secs, replay, jobs=8):
    try:
        r = subprocess.run([exe, "run", str(seed), str(secs), str(jobs), replay, "1000000000"], capture_output=True, text=True, timeout=secs + 200)
    except subprocess.TimeoutExpired:
        return "error", 0, "driver timeout"
    last = (r.stdout.strip().split("\n") or [""])[-1]
    if r.returncode == 0 and last.startswith("OK"):
        return "ok", int(last.split("cases=")[1].split()[0]), last
    if r.returncode == 3 and last.startswith("FAIL"): return "fail", 0, last
    return "error", 0, (r.stdout + r.stderr)[-800:]

def main():
    a = sys.argv[1:]
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        if "--case" in a:
            exe, err = build_driver(prop, tmp)
            if err: print(err); return 2
            k = a.index("--case")
            return subprocess.run([exe, "case", a[k + 1], a[k + 2]]).returncode
        if "--fn" in a:
            pr = prove(prop, tmp, a[a.index("--fn") + 1], tier)
            if pr["note"]: print(pr["note"])
            for r in pr["results"]: show(r, "-v" in a)
            return 0
        return decide(prop, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

VLEN = int(os.environ.get('VLEN', '900'))
def show(r, verbose=True):
    bad = [o for o in r.obligs if o.status != "proved"]
    print("%s obl %d bad %d err %s t%.1f solver %.1f q%d paths %d reach %d" % (r.contract, len(r.obligs), len(bad), r.error, r.time, r.solver, r.queries, r.paths, r.reach))
    for o in bad[:6]:
        print("   ", o.status, o.key(), o.line, o.backend, "%.1f" % o.time)
        if verbose: print(o.detail[:VLEN])
    if verbose:
        for l in r.loops: print("   loop", l[0].split("::")[-1], l[1], [x for x in l[2] if x[0] == "!"])
        for l in r.dropped: print("   dropped", l)

def decide(prop, tier, seed, tmp):
    t0 = time.time()
    rdir = os.path.join(ROOT, "replays"); os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, "%s.txt" % prop)
    if os.path.exists(replay): os.unlink(replay)
    with cf.ThreadPoolExecutor(1) as bx:
        fut = bx.submit(build_driver, prop, tmp)
        exe, berr = fut.result()
    try: pr = prove(prop, tmp, None, tier)
    except Exception: pr = {"results": [], "lemmas": [], "note": "verifier internal error: " + traceback.format_exc()[-1500:]}
    # a build with NDEBUG goes on where a debug build exits: the small contracts that allow an exit (thorough: all) are proved on that build's text too
    try:
        cs = G.get("cs", [])
        pick = [r.idx for r in pr["results"] if not r.missing and not getattr(cs[r.idx], "data", False) and (tier == "thorough" or (callable(cs[r.idx].may_abort) and getattr(cs[r.idx], "cost", 1) < 5))]
        if pick:
            nd = prove(prop, tmp, None, tier, ("NDEBUG",), pick)
            if nd["note"]: pr["note"] = (pr["note"] or "") + " NDEBUG: " + nd["note"]
            for r in nd["results"]:
                r.contract += " (NDEBUG)"
                for o in r.obligs: o.detail = "(text compiled with NDEBUG)\n" + (o.detail or "")
                pr["results"].append(r)
    except Exception: pr["note"] = "verifier internal error (NDEBUG): " + traceback.format_exc()[-1500:]
    tp = time.time() - t0
    res = pr["results"]
    failed, undecided = [], []
    if pr["note"]: undecided.append(pr["note"])
    cs = G.get("cs", [])
    lost = set(cs[r.idx].module for r in res if r.missing)     # a function under contract is gone (renamed, other signature): its callers' proofs lack its contract
    for r in res:
        # an obligation tagged {Cnn,...} matters to those properties only
        r.obligs = [o for o in r.obligs if not o.name.startswith("{") or prop in o.name[1:o.name.index("}")].split(",")]
        for o in r.obligs:
            if o.status == "proved": continue
            if cs and cs[r.idx].module in lost: undecided.append("%s: open, and a callee's contract no longer applies" % o.key())
            elif prop in FRAME_ONLY and o.kind != "frame" and "read-only" not in o.name: undecided.append("%s: open (other property)" % o.key())
            else: failed.append((r, o))
        if r.error: undecided.append("%s: %s" % (r.contract, r.error.strip().split("\n")[-1][:300] if "internal" not in r.error else r.error[-400:]))
    for n, s, t in pr["lemmas"]:
        if s != "unsat": undecided.append("lemma %s: %s" % (n, s))
    # known findings, re-established on every run
    if exe:
        k = subprocess.run([exe, "known"], capture_output=True, text=True)
        listed = [l for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) if l.startswith("known: property=%s " % prop)]
        for l in k.stdout.split("\n"):
            if l.startswith("KNOWN-FINDING:") and any(w in x.split() for x in listed for w in l.replace(")", " ").split() if len(w) >= 12 and all(c in "0123456789abcdef" for c in w)): print(l)
    # bounded search on the compiled code
    secs = {"quick": 25, "thorough": 600}[tier]
    if undecided: secs = int(secs * 2)
    cases = 0; verdict = None; msg = berr
    if exe:
        verdict, cases, msg = search(exe, prop, seed, secs, replay)
        if verdict == "ok" and failed:
            for k in range(1, 4):
                verdict, n, msg = search(exe, prop, seed + 1000 * k, secs * 2, replay)
                cases += n
                if verdict != "ok": break
    viol = 0; line = None
    if verdict == "fail":
        viol = 1
        with open(replay, "a") as f:
            f.write("\nreplay with: python3-vt /verif/check.py %s --case SEED ITER  (seed and iteration above)\n" % prop)
            for r, o in failed[:10]: f.write("\nundischarged obligation: %s (line %s) [%s by %s]\n%s\n" % (o.key(), o.line, o.status, o.backend, o.detail))
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif failed:
        viol = 1
        with open(replay, "w") as f:
            f.write("property: %s\nThe verifier does not discharge these obligations on the current tree:\n" % prop)
            for r, o in failed[:40]: f.write("\nobligation: %s (line %s), under contract %s\nstatus: %s by %s\n%s\n" % (o.key(), o.line, r.contract, o.status, o.backend, o.detail))
            f.write("\nNo concrete failing input was found in %d generated executions of the compiled code.\n" % cases)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    nob = sum(len(r.obligs) for r in res); nd = sum(1 for r in res for o in r.obligs if o.status == "proved")
    be = {}
    for r in res:
        for o in r.obligs:
            if o.status == "proved": be[o.backend] = be.get(o.backend, 0) + 1
    lem_ok = sum(1 for _, s, _ in pr["lemmas"] if s == "unsat")
    kinds = {}
    for r in res:
        for o in r.obligs: kinds[o.kind] = kinds.get(o.kind, 0) + 1
    ass = sorted(set("trusted contract of external function: " + x for r in res for x in r.assumed))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {"obligations": nob + len(pr["lemmas"]), "discharged": nd + lem_ok,
                       "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier), "trusted_base": TRUSTED,
                       "obligation_kinds": kinds, "back_ends": be, "solver_s": round(sum(r.solver for r in res), 2), "solver_queries": sum(r.queries for r in res),
                       "functions_under_contract": [{"function": r.contract, "obligations": len(r.obligs), "discharged": sum(1 for o in r.obligs if o.status == "proved"), "paths": r.paths, "seconds": round(r.time, 2),
                                                     "inlined_callees": sorted(r.inlined), "callee_contracts": sorted(r.used)} for r in res],
                       "loops": [{"function": l[0], "header": l[1], "invariant": l[2][:60]} for r in res for l in r.loops][:80],
                       "lemmas": [{"name": n, "status": s} for n, s, _ in pr["lemmas"]],
                       "undecided": undecided,
                       "bounded_stand_in": {"what": "generated executions of the compiled code under %s against an independent reference (drivers/%s.cc); bounded, not counted as proved" % (sanitizer(prop), prop),
                                            "executions": cases, "seconds": secs, "result": verdict or "not run", "message": (msg or "")[:500]}},
          "assumptions": ass + ["machine integers are modelled exactly (wrap-around for unsigned, overflow obligations for signed); memory allocation succeeds",
                                "functions of this property that no contract covers are only exercised by the bounded stand-in (see DESIGN.md)"],
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d contracts, %d/%d obligations and %d/%d lemmas discharged in %.0f s; bounded stand-in: %s, %d executions; undecided: %d" %
          (prop, len(res), nd, nob, lem_ok, len(pr["lemmas"]), tp, verdict, cases, len(undecided)))
    for u in undecided: print("  undecided: " + u.replace("\n", " ")[:300])
    if line: print(line); return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
