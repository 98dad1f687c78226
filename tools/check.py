#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property.

For every contract file contracts/<property>_*.cpp:
  1. compile it together with the current sources of /repo to LLVM IR, link, normalise;
  2. hand the module to the verifier (build/vcexec): every obligation is proved, refuted or left undecided;
  3. compile the same file natively (address and undefined-behaviour sanitizers) and (a) replay every refutation on the
     real code, (b) run seeded random instances as a labelled bounded check.
A violation is reported only when the native run of the real code fails.
"""
import json, os, re, subprocess, sys, time, glob, hashlib, fcntl, shutil, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin"
BUILD = os.path.join(V, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
SRC = None
TIER = "quick"

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") + "\n[timeout]"

def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(["make", "-s", "-C", os.path.join(V, "engine"), "OUT=" + BUILD], timeout=600)
        if rc: print(out); sys.exit(2)

DEFAULTS = dict(std="c++14", iters="40", timeout="60", tier="quick", link="", eigen="0", defs="", native="1", eqops="4e8", slice="6", sqrt="0", cc="clang++", opt="1")
def snapshot(dst):
    """Copy of the sources with one textual change: function-local 'constexpr auto X =' becomes 'static constexpr auto X ='
    (same value; without it clang refuses lambdas in operators.h that g++ accepts)."""
    for root, _, fs in os.walk(os.path.join(REPO, "anifem++")):
        d = os.path.join(dst, os.path.relpath(root, REPO)); os.makedirs(d, exist_ok=True)
        for f in fs:
            if not f.endswith((".h", ".inl", ".cpp", ".hpp", ".in")): continue
            t = open(os.path.join(root, f), encoding="utf-8", errors="surrogateescape").read()
            t = re.sub(r"(?<!static )\bconstexpr auto (\w+) =", r"static constexpr auto \1 =", t)
            open(os.path.join(d, f), "w", encoding="utf-8", errors="surrogateescape").write(t)

def compact(functions, limit=200000):
    # long template arguments are cut so that the evidence file stays small; identical cut names are counted
    def cut(n, w): return n if len(n) <= w else n[:w] + '..'
    for w in (400, 200, 120, 80):
        seen = {}
        for n in functions: k = cut(n, w); seen[k] = seen.get(k, 0) + 1
        out = [k if c == 1 else '%s (%d instances)' % (k, c) for k, c in sorted(seen.items())]
        if sum(map(len, out)) <= limit: break
    return out

def header(path):
    d = dict(DEFAULTS)
    with open(path) as f:
        for line in f:
            m = re.match(r"//\s*VCFLAGS:\s*(.*)", line)
            if m:
                for kv in m.group(1).split():
                    k, _, v = kv.partition("="); d[k] = v
    return d

def flags(h):
    fl = ["-std=" + h["std"], "-I" + SRC, "-I" + REPO, "-I" + os.path.join(V, "contracts"), "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    if h["eigen"] == "1": fl += ["-DWITH_EIGEN", "-I/usr/include/eigen3", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_ALIGN"]
    fl += ["-D" + x for x in h["defs"].split(",") if x]
    if TIER == "thorough": fl.append("-DVC_THOROUGH")
    return fl

def ir(src, out, h):
    return sh([LL + "/clang++"] + flags(h) + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-ffp-contract=off", "-emit-llvm", "-c", src, "-o", out], timeout=400)

def build(path, work, h):
    """returns (module or None, native or None, log)"""
    name = os.path.basename(path)[:-4]; log = ""
    links = [os.path.join(SRC, x) for x in h["link"].split(",") if x]
    tasks = []
    with cf.ThreadPoolExecutor(6) as ex:
        bc = [os.path.join(work, "m%d.bc" % i) for i in range(len(links) + 2)]
        srcs = [path] + links + [os.path.join(V, "engine/rt.cpp")]
        fs = [ex.submit(ir, s, b, h) for s, b in zip(srcs, bc)]
        nat = os.path.join(work, "native"); nf = None
        if h["native"] == "1":
            def nat_build():
                objs = []
                def one(i, s):
                    o = os.path.join(work, "n%d.o" % i)
                    return o, sh(["/usr/lib/llvm-18/bin/clang++"] + [x for x in flags(h) if "EXTERN_TEMPLATE" not in x] + ["-DVC_NATIVE", "-O1", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off", "-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,pointer-overflow", "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern", "-c", s, "-o", o], timeout=600)
                with cf.ThreadPoolExecutor(6) as e2:
                    rs = list(e2.map(lambda t: one(*t), enumerate([path] + links + [os.path.join(V, "engine/vc_native.cpp")])))
                for o, (rc, out) in rs:
                    if rc: return rc, out
                    objs.append(o)
                return sh(["/usr/lib/llvm-18/bin/clang++", "-fsanitize=address,undefined"] + objs + ["-o", nat, "-lpthread"], timeout=300)
            nf = ex.submit(nat_build)
        ok = True
        for f in fs:
            rc, out = f.result()
            if rc: ok = False; log += out[-3000:]
        module = None
        if ok:
            lk, md = os.path.join(work, "l.bc"), os.path.join(work, "module.bc")
            rc, out = sh([LL + "/llvm-link"] + bc + ["-o", lk], timeout=200)
            if rc == 0:
                rc, out = sh([LL + "/opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg)", "-internalize-public-api-list=vc_case_*,vc_neg_*", lk, "-o", md], timeout=300)
            if rc == 0: module = md
            else: log += out[-3000:]
        if nf:
            rc, out = nf.result()
            if rc: log += "\n[native] " + out[-3000:]; nat = None
        else: nat = None
    return module, nat, log

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=255:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=1")

def known_findings():
    res = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+case=(\S+)\s+label=\"([^\"]*)\"\s+(.*)", line)
            if m: res.append(m.groups())
    return res

def replay(native, prop, rdir, fname, case, label, detail, model):
    rp = os.path.join(rdir, fname)
    with open(rp, "w") as f:
        f.write("# property %s\n# obligation: %s / %s\n# verifier: %s\n# replay: build/work/<file>/native --replay <this file>\ncase %s\n" % (prop, case, label, detail, case))
        for k, v in model: f.write("%s %s\n" % (k, v))
    rc, out = sh([native, "--replay", rp], timeout=150, env=ENV)
    if rc in (0, 4):   # the model does not fail natively: look for an input that does
        rp2 = rp + ".search"
        rc2, out2 = sh([native, "--replay", rp, "--search", "20000", "--out-replay", rp2], timeout=70, env=ENV)
        if rc2 not in (0, 4, 5, 124, -14, 142) and os.path.exists(rp2):
            with open(rp2) as f: body = [l for l in f if not l.startswith("case ")]
            with open(rp, "w") as f: f.write("# property %s\n# obligation: %s / %s\n# verifier: %s\n# replay: build/work/<file>/native --replay <this file>\ncase %s\n" % (prop, case, label, detail, case) + "".join(body))
            rc, out = rc2, out2
        if os.path.exists(rp2): os.unlink(rp2)
    with open(rp, "a") as f: f.write("".join("# native: " + l + "\n" for l in out.splitlines()[-60:]))
    return rp, rc, out

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    global TIER
    TIER = tier
    only = sys.argv[3] if len(sys.argv) > 3 else None
    ensure_engine()
    files = sorted(glob.glob(os.path.join(V, "contracts", prop + "_*.cpp")))
    if only: files = [f for f in files if only in f]
    items = [(f, header(f)) for f in files]
    items = [(f, h) for f, h in items if tier == "thorough" or h["tier"] == "quick"]
    # variants: the same contract file against several build configurations
    var = []
    for f, h in items:
        for e in h["eigen"].split("+"):
            hh = dict(h); hh["eigen"] = e; var.append((f, hh, os.path.basename(f)[:-4] + ("" if e == "0" else "_eigen")))
    work0 = os.path.join(BUILD, "work_%s_%d" % (prop, os.getpid())); shutil.rmtree(work0, ignore_errors=True); os.makedirs(work0)
    global SRC
    SRC = os.path.join(work0, "src"); snapshot(SRC)
    rdir = os.path.join(V, "replays", prop); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    known = [k for k in known_findings() if k[0] == prop]
    st = dict(obligations=0, exact=0, tol=0, smt=0, undecided=0, refuted=0, bounded_obl=0)
    viol = []; unconf_viol = []; knownhit = {}; notes = []; functions = set(); assumptions = set(); covers = 0; paths = 0; steps = 0; mem = 0; solver = 0.0; canon = 0.0
    proved_cases = []; undecided_cases = []; bounded_cases = []; vac_bad = []; nat_runs = 0; nat_checks = 0; built = 0; unconfirmed = []; counters = {}; neg_ok = 0
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    def prep(t):
        f, h, nm = t; w = os.path.join(work0, nm); os.makedirs(w); return t, w, build(f, w, h)
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(prep, t) for t in var]
        for fu in futs:
            (f, h, nm), w, (module, native, log) = fu.result()
            if log: notes.append("%s: build problem: %s" % (nm, log[-1500:]))
            if not module and not native: continue
            built += 1
            mult = 4 if tier == "thorough" else 1
            res = None
            if module:
                outj = os.path.join(w, "res.json")
                lim = float(h["timeout"]) * mult
                rc, out = sh([os.path.join(BUILD, "vcexec"), module, "--jobs", str(jobs), "--out", outj, "--vc-timeout", str(lim), "--slice", h["slice"], "--eq-ops", str(float(h["eqops"]) * mult)] + (["--sqrt-split"] if h["sqrt"] == "1" else []), timeout=850 if tier == "quick" else 3000)
                if out.strip(): notes.append("%s: verifier says: %s" % (nm, out.strip()[-800:]))
                try: res = json.load(open(outj))
                except Exception as e: notes.append("%s: no verifier result (%s, rc %d)" % (nm, e, rc))
            fullproved = set()
            if res:
                functions.update(res["functions"])
                for vc in res["vcs"]:
                    if vc["neg"]:
                        if any(l["refuted"] for l in vc["labels"]): neg_ok += 1
                        else: vac_bad.append(nm + ":" + vc["name"])
                        continue
                    full = nm + ":" + vc["name"]
                    paths += vc["paths"]; steps += vc["steps"]; mem += vc["memory_accesses_checked"]; solver += vc["solver_s"]; canon += vc["canon_s"]
                    for k, n in vc["counters"].items(): counters[k] = counters.get(k, 0) + n
                    assumptions.update(vc["assumptions"])
                    covers += len(vc["covers"])
                    incomplete = vc["timed_out"] or vc["unsupported"] or vc["aborted"]
                    nlab = sum(l["exact"] + l["tol"] + l["smt"] for l in vc["labels"])
                    und = sum(l["undecided"] for l in vc["labels"]); ref = sum(l["refuted"] for l in vc["labels"])
                    if vc["paths"] - vc["discarded"] <= 0 and not incomplete: vac_bad.append(full + " (no feasible path)")
                    isb = bool(vc["bounded"])
                    st["obligations"] += nlab + und + ref + (1 if incomplete else 0)
                    if isb: st["bounded_obl"] += nlab
                    else:
                        st["exact"] += sum(l["exact"] for l in vc["labels"]); st["tol"] += sum(l["tol"] for l in vc["labels"]); st["smt"] += sum(l["smt"] for l in vc["labels"])
                    st["undecided"] += und + (1 if incomplete else 0); st["refuted"] += ref
                    if not incomplete and not und and not ref:
                        fullproved.add(vc["name"])
                        (bounded_cases if isb else proved_cases).append(full)
                    else:
                        why = []
                        if vc["timed_out"]: why.append("time limit")
                        why += vc["unsupported"][:3]; why += ["%s: %s" % (l["label"], l["detail"]) for l in vc["labels"] if l["undecided"]][:3]
                        if not ref: undecided_cases.append(full + " (" + "; ".join(why)[:400] + ")")
                    for i, l in enumerate(vc["labels"]):
                        if not l["refuted"]: continue
                        kn = [k for k in known if k[1] == vc["name"] and l["label"].startswith(k[2])]
                        if not native:
                            rp = os.path.join(rdir, "%s_%s_%d.txt" % (nm, vc["name"], i))
                            with open(rp, "w") as fo: fo.write("# obligation: %s / %s\n# verifier: %s\ncase %s\n" % (full, l["label"], l["detail"], vc["name"]) + "".join("%s %s\n" % (k, v) for k, v in l["model"]))
                            unconfirmed.append(full + ": " + l["label"])
                            if kn: knownhit[(kn[0][1], kn[0][2])] = kn[0][3]
                            else: unconf_viol.append((rp, full, l["label"], l["detail"]))
                            continue
                        rp, rc, out = replay(native, prop, rdir, "%s_%s_%d.txt" % (nm, vc["name"], i), vc["name"], l["label"], l["detail"], l["model"])
                        if rc in (0, 4, 5, 124):
                            unconfirmed.append("%s: %s: %s (native replay: %s)" % (full, l["label"], l["detail"], out.strip()[-200:]))
                            if kn: knownhit[(kn[0][1], kn[0][2])] = kn[0][3]; os.unlink(rp)
                            else: unconf_viol.append((rp, full, l["label"], l["detail"]))
                            continue
                        if kn: knownhit[(kn[0][1], kn[0][2])] = kn[0][3]; os.unlink(rp)
                        else: viol.append((rp, full, l["label"], l["detail"]))
            if native:
                rp = os.path.join(rdir, nm + "_random.txt"); iters = int(h["iters"]) * (25 if tier == "thorough" else 1)
                rc, lst = sh([native, "--list"], timeout=60, env=ENV)
                cases = [l.split()[0] for l in lst.splitlines() if l.strip() and not l.endswith(" neg")]
                done = {v[1].split(":")[1] for v in viol}
                def one(c):
                    crp = os.path.join(rdir, "%s_%s_random.txt" % (nm, c))
                    return c, crp, sh([native, "--iters", str(iters), "--seed", str(SEED), "--case", c, "--out-replay", crp], timeout=120 if tier == "quick" else 900, env=ENV)
                with cf.ThreadPoolExecutor(8) as e3:
                    for c, crp, (rc, out) in e3.map(one, cases):
                        for m in re.finditer(r"^NATIVE \S+ runs (\d+) checks (\d+)", out, re.M): nat_runs += int(m.group(1)); nat_checks += int(m.group(2))
                        if rc in (0, 124):
                            if rc == 124: notes.append("%s: native run of %s hit its time limit" % (nm, c))
                            continue
                        if c in done: continue
                        kn = [k for k in known if k[1] == c]
                        with open(crp, "a") as fo: fo.write("".join("# native: " + l + "\n" for l in out.splitlines()[-60:]))
                        lab = out.strip().splitlines()[-1][:300] if out.strip() else "crash"
                        mm = re.search(r"fails \d+ (.*)", out); lab = mm.group(1) if mm else lab
                        kk = [k for k in kn if lab.startswith(k[2])]
                        if kk: knownhit[(kk[0][1], kk[0][2])] = kk[0][3]; os.unlink(crp)
                        else: viol.append((crp, nm + ":" + c, lab, "bounded native run"))
    shutil.rmtree(work0, ignore_errors=True)
    discharged = st["exact"] + st["tol"] + st["smt"]
    wall = time.time() - T0
    level = "proof"
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=dict(
        obligations=st["obligations"], discharged=discharged, checker_cmd="tools/check.py %s %s (build/vcexec on LLVM IR compiled from %s)" % (prop, tier, REPO),
        trusted_base=["clang 18 front end and the IR passes sroa, early-cse, simplifycfg", "engine/*.cpp (symbolic executor, canonical rational-function normaliser)", "z3 4.8.12", "engine/rt.cpp stand-ins for binary-only libstdc++ code"],
        discharged_by=dict(canonical_form_exact=st["exact"], canonical_form_with_coefficient_tolerance_1e_10=st["tol"], z3=st["smt"]),
        bounded_obligations_not_counted_as_discharged=st["bounded_obl"], undecided=st["undecided"], refuted=st["refuted"],
        contract_cases_fully_proved=len(proved_cases), cases_proved=sorted(proved_cases), cases_bounded=sorted(bounded_cases), cases_undecided=sorted(undecided_cases),
        implicit_safety_obligations=dict(memory_accesses_checked=mem), paths=paths, instructions=steps, solver_seconds=round(solver, 2), normaliser_seconds=round(canon, 2),
        functions_under_contract_count=len(functions), functions_under_contract=compact(functions), reachability_markers=covers, negated_contracts_refuted=neg_ok, vacuity_problems=vac_bad,
        refutations_not_confirmed_natively=unconfirmed, bounded_native=dict(runs=nat_runs, checks=nat_checks, seed=SEED), counters=counters, notes=notes, known_findings_seen=["%s / %s" % k for k in knownhit]),
        assumptions=["machine floating point is treated as exact real arithmetic (decimal literals within one ulp of a fraction with denominator <= 5040 are read as that fraction)", "coefficients differing by less than 1e-10 relative are identified"] + sorted(assumptions)[:60],
        wall_s=round(wall, 2), violations=len(viol) + len(unconf_viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for (c, l), w in sorted(knownhit.items()): print("KNOWN-FINDING: property=%s case=%s %s" % (prop, c, w))
    print("%s %s: %d obligations, %d discharged (%d exact, %d tol, %d smt), %d bounded, %d undecided, %d refuted, %d functions, native %d runs/%d checks, %.1f s" % (prop, tier, st["obligations"], discharged, st["exact"], st["tol"], st["smt"], st["bounded_obl"], st["undecided"], st["refuted"], len(functions), nat_runs, nat_checks, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for x in undecided_cases: print("  undecided", x)
        for x in unconfirmed: print("  unconfirmed", x)
        for x in vac_bad: print("  vacuity", x)
        for x in notes: print("  note", x)
    if viol:
        for rp, full, lab, det in viol[:20]: print("  failed obligation %s / %s: %s" % (full, lab, det[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0])); sys.exit(1)
    if unconf_viol:
        for rp, full, lab, det in unconf_viol[:20]: print("  failed obligation %s / %s: %s" % (full, lab, det[:300]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, unconf_viol[0][0])); sys.exit(1)
    if not os.listdir(rdir): os.rmdir(rdir)
    if built == 0 or (st["obligations"] == 0 and nat_runs == 0): print("no answer: nothing could be built"); sys.exit(2)
    sys.exit(0)
if __name__ == "__main__": main()
