#!/usr/bin/env python3
"""Runs the checks of one property: python3 check.py P01 [--tier quick|thorough] [--keep]

For every harness of the property: compile /repo's current sources and the harness through the
FP-rewriting pass, execute it symbolically (z3 decides every branch and every assertion), replay each
counterexample on a native build of the same sources, replay one witness per case to validate the
encoding.  CBMC harnesses are run with cbmc on the same sources.  Exit 0 / 1 (VIOLATION line)."""
import sys, os, json, subprocess, tempfile, shutil, time, re, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
ENG = os.path.join(V, ".build")
CLANG, OPT = "clang-18", "opt-18"
sys.path.insert(0, V)
from checks import CHECKS, KNOWN_FILE

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True); sys.exit(3)

def engine():
    os.makedirs(ENG, exist_ok=True)
    src = {n: open(os.path.join(V, "engine", n), "rb").read() for n in ("symfp_pass.cpp", "runtime.cpp", "native.c", "sym.h")}
    h = hashlib.sha256(b"".join(src[k] for k in sorted(src))).hexdigest()[:16]
    stamp = os.path.join(ENG, "stamp"); so, ro = os.path.join(ENG, "symfp.so"), os.path.join(ENG, "runtime.o")
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(so) and os.path.exists(ro): return so, ro
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std")]
    t = str(os.getpid())
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run, ["clang++-18", "-shared", "-fPIC", "-O1", "-fno-rtti", *flags, "-std=c++17", os.path.join(V, "engine/symfp_pass.cpp"), "-o", so + t])
        b = ex.submit(run, ["g++", "-O2", "-std=gnu++17", "-c", os.path.join(V, "engine/runtime.cpp"), "-I" + Z3 + "/include", "-o", ro + t])
        for r in (a.result(), b.result()):
            if r.returncode: die("engine build failed:\n" + r.stdout[-3000:])
    os.rename(so + t, so); os.rename(ro + t, ro)
    open(stamp + t, "w").write(h); os.rename(stamp + t, stamp)
    return so, ro

def sources():
    txt = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    m = re.search(r"set\(SOURCE_FILES(.*?)\)", txt, re.S)
    return [os.path.join(REPO, "src", f) for f in m.group(1).split() if f.endswith(".c")]

CINC = ["-I" + REPO + "/src", "-I" + REPO + "/header", "-I" + os.path.join(V, "engine"), "-I" + os.path.join(V, "harness")]
BASE = ["-w", "-g1", "-fno-builtin", "-ffp-contract=off", "-fvisibility=hidden", "-ftrivial-auto-var-init=pattern", "-fsanitize=address", "-fno-sanitize-address-use-odr-indicator", "-fno-common"]

def sh(cmd, env=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    if r.returncode: raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd)[:400], r.stdout[-2000:]))
    return r.stdout

_own = None
def own_math():
    """math.h functions that the library defines itself: executed like the rest of its code"""
    global _own
    if _own is None:
        _own = sorted({n for f in sources() for n in re.findall(r"^double\s+(log1p|expm1|erfc?|lgamma|tgamma)\s*\(", open(f, errors="replace").read(), re.M)})
    return _own

def compile_sym(src, d, so, stubs, tag, extra=(), model=()):
    b = os.path.join(d, tag + "_" + os.path.basename(src)); env = dict(os.environ, SYMFP_STUB=stubs, SYMFP_DEFINED=",".join(n for n in own_math() if n not in model))
    sh([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", *BASE, *CINC, *extra, src, "-o", b + ".0.bc"])
    sh([OPT, "-load-pass-plugin=" + so, "-passes=function(sroa),symfp", b + ".0.bc", "-o", b + ".1.bc"], env)
    sh([CLANG, "-O1", "-w", "-fsanitize=address", "-c", b + ".1.bc", "-o", b + ".o"])
    return b + ".o"

def compile_nat(src, d, stubs, tag, extra=()):
    b = os.path.join(d, tag + "_" + os.path.basename(src)); ex = []
    if stubs:  # same redirection as the pass does, on the IR
        sh([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-S", *BASE, *CINC, *extra, src, "-o", b + ".ll"])
        t = open(b + ".ll").read()
        for s in stubs.split(","):
            t = re.sub(r"^(define [^\n]*)@" + re.escape(s) + r"\(", r"\1@orig_" + s + "(", t, flags=re.M)
            t = re.sub(r"@" + re.escape(s) + r"(?=[\s(,)])", "@stub_" + s, t)
        has = set(re.findall(r"^(?:declare|define) [^\n]*@stub_(\w+)\(", t, flags=re.M))
        for s in stubs.split(","):   # a definition was renamed: give stub_ a declaration
            m = re.search(r"^define ([^\n]*)@orig_" + re.escape(s) + r"\(([^)]*)\)", t, flags=re.M)
            if m and s not in has:
                ret = [w for w in m.group(1).split() if w in ("void", "i32", "double", "i64", "ptr")][-1]
                args = ", ".join(a.strip().split()[0] for a in m.group(2).split(",")) if m.group(2).strip() else ""
                t += "\ndeclare %s @stub_%s(%s)\n" % (ret, s, args)
        open(b + ".ll", "w").write(t)
        sh([CLANG, "-O1", "-w", "-fsanitize=address", "-c", b + ".ll", "-o", b + ".o"])
    else:
        sh([CLANG, "-O1", "-c", *BASE, *CINC, *extra, src, "-o", b + ".o"])
    return b + ".o"

def build(h, d, so, ro):
    """h: harness spec {file, stubs}; returns (symbolic exe, native exe)"""
    stubs = ",".join(h.get("stubs", [])); hs = os.path.join(V, "harness", h["file"]); srcs = sources(); ex = h.get("cflags", []); mo = tuple(h.get("model", []))  # library-defined math functions taken as exact here (decided elsewhere)
    tag = "s" + hashlib.md5((stubs + "|" + ",".join(mo)).encode()).hexdigest()[:6]; ntag = "n" + tag; jobs = {}
    global _cache
    with ThreadPoolExecutor(8) as pool:
        for s in srcs:
            if (tag, s) not in _cache: _cache[(tag, s)] = pool.submit(compile_sym, s, d, so, stubs, tag, (), mo)
            if (ntag, s) not in _cache: _cache[(ntag, s)] = pool.submit(compile_nat, s, d, stubs, ntag)
        a = pool.submit(compile_sym, hs, d, so, stubs, "hs" + tag + "_" + h["name"], ["-Dmain=harness_main_c", "-fvisibility=default", *ex], mo)
        b = pool.submit(compile_nat, hs, d, stubs, "hn" + tag + "_" + h["name"], ex)
        c = pool.submit(sh, [CLANG, "-O1", "-w", "-c", os.path.join(V, "engine/native.c"), "-o", os.path.join(d, "native%s.o" % h["name"])])
        objs = [_cache[(tag, s)].result() for s in srcs]; nobjs = [_cache[(ntag, s)].result() for s in srcs]
        ha, hb = a.result(), b.result(); c.result()
    se, ne = os.path.join(d, "sym_" + h["name"]), os.path.join(d, "nat_" + h["name"])
    with ThreadPoolExecutor(2) as pool:
        x = pool.submit(sh, ["clang++-18", "-fsanitize=address", *objs, ha, ro, "-L" + Z3 + "/lib", "-l:libz3.so", "-Wl,-rpath," + Z3 + "/lib", "-lgmp", "-lm", "-o", se])
        y = pool.submit(sh, ["clang-18", "-fsanitize=address", *nobjs, hb, os.path.join(d, "native%s.o" % h["name"]), "-lm", "-o", ne])
        x.result(); y.result()
    return se, ne
_cache = {}
ASAN = "detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1000000000:quarantine_size_mb=4:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=0:print_summary=1:hard_rss_limit_mb=3500"

def native(exe, model_path, tier, values=False, slack=None, timeout=60, jobs=None):
    env = dict(os.environ, SYM_MODEL=model_path, ASAN_OPTIONS=ASAN, SYM_TIER=tier)
    if values: env["SYM_VALUES"] = "1"
    if slack: env["SYM_SLACK"] = str(slack)
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

def write_model(path, case, model, head=()):
    with open(path, "w") as f:
        for l in head: f.write("# %s\n" % l)
        f.write("case %s\n" % case)
        for k, v in model.items(): f.write("%s %s\n" % (k, repr(v) if isinstance(v, float) else v))

def close(a, b):
    if a == b: return True
    if abs(a) > 1e98 or abs(b) > 1e98 or a != a or b != b: return True   # not comparable (non-finite on one side)
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))

def run_sym(prop, h, tier, d, so, ro, outdir, budget):
    t0 = time.time(); se, ne = build(h, d, so, ro); tb = time.time() - t0
    out = os.path.join(d, h["name"] + ".jsonl")
    cb = h.get("case_budget", 100 if tier == "quick" else 600)
    env = dict(os.environ, SYM_OUT=out, SYM_TIER=tier, ASAN_OPTIONS=ASAN, SYM_BUDGET=str(budget), SYM_CASE_BUDGET=str(cb), SYM_JOBS=os.environ.get("SYM_JOBS", "8"))
    if "rlimit" in h: env["SYM_RLIMIT"] = str(h["rlimit"])
    if "maxpaths" in h: env["SYM_MAXPATHS"] = str(h["maxpaths"])
    try:
        r = subprocess.run([se], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + cb + 60, text=True, errors="replace", start_new_session=True)
        serr = r.stderr
    except subprocess.TimeoutExpired as e:
        serr = "harness timeout"
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except ValueError: pass
    summ = [x for x in recs if x["t"] == "summary"]
    res = {"harness": h["name"], "build_s": round(tb, 1), "summary": summ[0] if summ else None, "viol": [], "unconfirmed": [], "notes": []}
    if not summ: res["notes"].append("no summary: " + serr[-600:])
    n = 0; seen = {}
    todo = []
    for x in recs:
        if x["t"] in ("viol", "crash", "timeout"):
            k = (x["case"], x["t"], x.get("kind"), x.get("label"))
            if seen.get(k, 0) >= 2: continue
            seen[k] = seen.get(k, 0) + 1; todo.append(x)
        elif x["t"] in ("inconclusive", "unknown", "toobig", "toobig-branch"): res["notes"].append("%s: %s %s" % (x["t"], x["case"], x.get("label", "")))
    confirmed_cases = {}
    def rep(ix):
        i, x = ix
        p = os.path.join(outdir, "%s-%s-%d.model" % (prop, h["name"], i))
        write_model(p, x["case"], x.get("model", {}), ["property %s harness %s kind %s" % (prop, h["name"], x.get("kind", x["t"])), x.get("label", ""), "replay: python3 %s/check.py %s --replay %s" % (V, prop, p)])
        rc, so_, se_ = native(ne, p, tier, slack=0.5, timeout=90)
        bad = rc == "timeout" and x["t"] == "timeout" or (rc not in (0, 5, "timeout", 4))
        lines = [l for l in so_.splitlines() if l.startswith("VIOL")]
        m = re.search(r"ERROR: (AddressSanitizer: .*)", se_)
        fr = re.findall(r"#\d+ 0x\w+ in (\w+)", se_)[:3]
        desc = lines[0][5:] if lines else (m.group(1)[:70] + " in " + "<-".join(f for f in fr) if m else ("hang" if rc == "timeout" else "rc %s" % rc))
        return p, x, bad, desc
    # a bounded number of replays: enough to confirm, never all of thousands
    todo = todo[:64]
    with ThreadPoolExecutor(8) as pool:
        for p, x, bad, desc in pool.map(rep, list(enumerate(todo))):
            (res["viol"] if bad else res["unconfirmed"]).append({"case": x["case"], "kind": x.get("kind", x["t"]), "label": x.get("label", ""), "native": desc, "replay": p})
            if not bad: os.unlink(p)
    # witnesses: native values must agree with the encoding
    wit = [x for x in recs if x["t"] == "witness"]; lim = h.get("witnesses", 24 if tier == "quick" else 200)
    step = max(1, len(wit) // lim); ok = 0; badw = []
    def wrep(ix):
        i, x = ix; p = os.path.join(d, "w-%s-%d.model" % (h["name"], i)); write_model(p, x["case"], x["model"])
        rc, so_, se_ = native(ne, p, tier, values=True); os.unlink(p)
        vals = [tuple(map(float, l.split()[1:])) for l in so_.splitlines() if l.startswith("VAL")]
        want = x["values"]; mism = [(i, v, w) for i, (v, w) in enumerate(zip(vals, want)) if not (close(v[0], w[0]) and close(v[1], w[1]))]
        return x, rc, mism, len(vals), so_[:300] + se_[-300:]
    with ThreadPoolExecutor(8) as pool:
        for x, rc, mism, nv, o in pool.map(wrep, list(enumerate(wit[::step]))):
            if rc == 0 and not mism: ok += 1
            else: badw.append({"case": x["case"], "rc": rc, "mismatch": str(mism[:3])[:200], "out": o if rc else ""})
    res["witness_ok"] = ok; res["witness_bad"] = badw[:10]; res["nwitness"] = len(wit)
    res["samples"] = [{"case": w["case"], "model": dict(list(w["model"].items())[:6]), "asserted(first)": w["values"][:2]} for w in wit[:3]]
    res["wall_s"] = round(time.time() - t0, 1)
    return res

def run_cbmc(prop, h, tier, d, outdir, budget):
    """CBMC harness: list of runs {function, unwind, defines, sources}"""
    t0 = time.time(); res = {"harness": h["name"], "viol": [], "unconfirmed": [], "notes": [], "runs": [], "samples": []}
    hf = os.path.join(V, "harness", h["file"])
    def one(rn):
        if rn.get("tier") == "thorough" and tier != "thorough": return None
        nm = rn["function"] + "".join("_" + x.replace("=", "") for x in rn.get("defines", []))
        gb = os.path.join(d, h["name"] + nm + ".gb")
        try:
            sh(["goto-cc", *CINC, *["-D" + x for x in rn.get("defines", [])], hf, *[os.path.join(REPO, "src", s) for s in rn["sources"]], "--function", rn["function"], "-o", gb])
        except RuntimeError as e: return nm, "builderror", str(e), [], 0
        cmd = ["cbmc", gb, "--function", rn["function"], "--unwind", str(rn["unwind"]), "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions", "--trace", "--json-ui", *rn.get("flags", [])]
        t1 = time.time()
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=min(budget, rn.get("timeout", 300)))
        except subprocess.TimeoutExpired: return nm, "timeout", "", [], time.time() - t1
        try: js = json.loads(r.stdout)
        except ValueError: return nm, "error", r.stdout[-500:], [], time.time() - t1
        props = next((x["result"] for x in js if "result" in x), [])
        return nm, ("ok" if r.returncode == 0 else "fail" if r.returncode == 10 else "error"), "", props, time.time() - t1
    with ThreadPoolExecutor(8) as pool:
        for rn, o in zip(h["runs"], pool.map(one, h["runs"])):
            if o is None: continue
            nm, st, msg, props, dt = o
            res["runs"].append({"run": nm, "status": st, "properties": len(props), "s": round(dt, 1)})
            if st in ("builderror", "error", "timeout"): res["notes"].append("cbmc %s: %s %s" % (nm, st, msg[:300])); continue
            for p in props:
                if p["status"] == "FAILURE":
                    vals = {}
                    for s in p.get("trace", []):
                        if s.get("stepType") == "assignment" and not s.get("hidden") and str(s.get("lhs", "")).startswith("in_"):
                            vals[s["lhs"]] = s["value"].get("data")
                    rp = os.path.join(outdir, "%s-%s-%s.json" % (prop, nm, hashlib.md5(p["property"].encode()).hexdigest()[:6]))
                    conf, desc = replay_cbmc(h, rn, vals, d, p["description"])
                    json.dump({"property": prop, "run": nm, "cbmc_property": p["property"], "description": p["description"], "inputs": vals, "native": desc}, open(rp, "w"), indent=1)
                    (res["viol"] if conf else res["unconfirmed"]).append({"case": nm, "kind": "cbmc", "label": p["description"], "native": desc, "replay": rp})
            if len(res["samples"]) < 3: res["samples"].append({"run": nm, "checked": [p["property"] for p in props[:4]]})
    res["wall_s"] = round(time.time() - t0, 1)
    return res

def replay_cbmc(h, rn, vals, d, what):
    """native replay: the harness is compiled with -DREPLAY; nondet inputs in_* come from the environment"""
    nm = hashlib.md5((rn["function"] + str(rn.get("defines"))).encode()).hexdigest()[:8]; exe = os.path.join(d, "rep" + nm)
    try:
        if not os.path.exists(exe):
            sh(["clang-18", "-w", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DREPLAY", "-DENTRY=" + rn["function"], *CINC, *["-D" + x for x in rn.get("defines", [])], os.path.join(V, "harness", h["file"]), *[os.path.join(REPO, "src", s) for s in rn["sources"]], "-lm", "-o", exe])
        env = dict(os.environ, ASAN_OPTIONS=ASAN, **{k: str(v) for k, v in vals.items() if re.match(r"^in_\w+$", k)})
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
        return r.returncode not in (0, 5), ("rc %d " % r.returncode) + (r.stdout + r.stderr)[-300:]
    except subprocess.TimeoutExpired: return True, "hang"
    except RuntimeError as e: return False, "replay build failed: " + str(e)[:300]

def main():
    a = sys.argv[1:]; prop = a[0]
    if prop == "--setup": engine(); print("engine built"); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    spec = CHECKS[prop]; so, ro = engine()
    d = tempfile.mkdtemp(prefix="vchk-"); outdir = os.path.join(V, "evidence", "replays"); os.makedirs(outdir, exist_ok=True)
    try:
        if "--replay" in a:
            mp = a[a.index("--replay") + 1]; hn = re.search(r"harness (\w+)", open(mp).read()).group(1)
            h = next(x for x in spec["harnesses"] if x["name"] == hn); se, ne = build(h, d, so, ro)
            rc, o, e = native(ne, mp, tier, slack=0.5, timeout=90); print(o, e[-3000:]); print("rc", rc); return 0
        only = a[a.index("--harness") + 1] if "--harness" in a else None
        for f in os.listdir(outdir):
            if f.startswith(prop + "-"): os.unlink(os.path.join(outdir, f))
        results = []; total = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
        hs = [h for h in spec["harnesses"] if (not only or h["name"] == only) and not (h.get("tier") == "thorough" and tier != "thorough")]
        for h in hs:
            left = max(30, total - (time.time() - t0)); b = min(left, h.get("budget", {}).get(tier, left))
            try:
                if h.get("kind") == "cbmc": results.append(run_cbmc(prop, h, tier, d, outdir, b))
                else: results.append(run_sym(prop, h, tier, d, so, ro, outdir, b))
            except RuntimeError as e:
                die(str(e))
        return report(prop, spec, tier, seed, results, t0, only)
    finally:
        if "--keep" in a: print("kept", d)
        else: shutil.rmtree(d, ignore_errors=True)

def known():
    try: return json.load(open(KNOWN_FILE))["findings"]
    except FileNotFoundError: return []

def qtext(prop):
    try: return [json.loads(l)["quantifier"]["text"] for l in open(os.path.join(V, "properties.jsonl")) if '"id": "%s"' % prop in l][0]
    except Exception: return ""

def report(prop, spec, tier, seed, results, t0, only):
    kf = [k for k in known() if k["property"] == prop and k.get("status") == "known"]; hit = {}; viol = []
    for r in results:
        for v in r["viol"]:
            for k in kf:
                if re.fullmatch(k["harness"], r["harness"]) and re.fullmatch(k["case"], v["case"]) and re.search(k["match"], v["label"] + " | " + v["native"]): hit[k["id"]] = k; break
            else: viol.append((r["harness"], v))
    for k in hit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    tot = lambda f: sum((r.get("summary") or {}).get(f, 0) for r in results)
    cb = [x for r in results for x in r.get("runs", [])]
    funs = sorted({f for r in results for f in (r.get("summary") or {}).get("functions", [])})
    cov = {"states": tot("paths") + sum(x["properties"] for x in cb), "transitions": tot("forks") + tot("queries") + len(cb),
        "traces_validated_against_impl": sum(r.get("witness_ok", 0) for r in results), "samples": [s for r in results for s in r["samples"]][:8] or ["none"],
        "meaning": "states = execution paths completed with symbolic data (+ CBMC properties); transitions = path forks + solver queries; traces_validated = models replayed on the native build with values equal to the encoding's",
        "cases": tot("cases"), "asserts": tot("asserts"), "identities_after_normalisation": tot("identities"), "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
        "asserts_with_rigorous_rounding_bound": tot("fp_bounded"), "asserts_real_semantics_only": tot("fp_unbounded"), "divisors_assumed_nonzero": tot("div_assumed_nonzero"), "paths_cut_by_assume": tot("assume_cut"),
        "inconclusive": tot("inconclusive"), "unexplored": tot("unexplored"), "timeouts": tot("timeouts"), "functions_encoded": funs, "bounds": spec.get("bounds") or qtext(prop), "cbmc_runs": cb,
        "harnesses": [{k: r[k] for k in ("harness", "wall_s", "notes", "unconfirmed", "witness_bad", "nwitness") if k in r and r[k] not in ([], None)} for r in results]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for r in results:
        s = r.get("summary") or {}
        print("%-14s %-22s wall=%ss cases=%s paths=%s asserts=%s queries=%s inconcl=%s unexpl=%s timeouts=%s fpb=%s/%s wit=%s/%s viol=%d unconf=%d %s" % (prop, r["harness"], r["wall_s"], s.get("cases"), s.get("paths"), s.get("asserts"), s.get("queries"), s.get("inconclusive"), s.get("unexplored"), s.get("timeouts"), s.get("fp_bounded"), s.get("fp_unbounded"), r.get("witness_ok"), r.get("nwitness"), len(r["viol"]), len(r["unconfirmed"]), r.get("runs", "")))
        for n in r["notes"][:8]: print("   note:", n)
        for u in r["unconfirmed"][:6]: print("   unconfirmed:", u["case"], u["kind"], u["label"], "->", u["native"][:120])
        for w in r.get("witness_bad", [])[:6]: print("   witness mismatch:", w)
    for hn, v in viol[:12]: print("   violation:", hn, v["case"], "|", v["kind"], v["label"], "|", v["native"][:200])
    bad = [r["harness"] for r in results if "runs" not in r and not ((r.get("summary") or {}).get("asserts", 0) and (r.get("summary") or {}).get("paths", 0))] + [r["harness"] for r in results if "runs" in r and not any(x["status"] in ("ok", "fail") and x["properties"] for x in r["runs"])]
    if (bad or not results) and not viol: die("nothing was decided by " + ", ".join(bad))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]["replay"])); return 1
    print("OK property=%s tier=%s wall=%.1fs" % (prop, tier, time.time() - t0)); return 0

if __name__ == "__main__": sys.exit(main())
