#!/usr/bin/env python3
"""tools/seed.py FILE.py: plants the bugs described in FILE (a list BUGS of dicts id, property, needs, breaks, edits=[(file,old,new[,nth])], demo=C source)
into /verif/seeded/<id>, validating each in a scratch copy of /repo (build, stable tests, demo with and without), and reports whether the property's quick check catches it."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/seedwork"; R = S + "/repo"
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
lib=$(find . -name libctsalib.a | head -1)
gcc -O1 -g -w -Iheader -Isrc "$d/demo.c" "$lib" -lm -o "$t/demo" || exit 9
timeout 120 "$t/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R): sh("cp -a /repo %s" % R)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD" % R)
    for n in ("build", "test"): open("%s/%s.sh" % (S, n), "w").write(open("/opt/vp/%s.sh" % n).read().replace("/repo", R).replace("/opt/vp/build.sh", S + "/build.sh"))
def build(): r = sh("bash %s/build.sh" % S); return r.returncode == 0, r.stdout[-1500:]
def main():
    g = {}; exec(open(sys.argv[1]).read(), g); only = sys.argv[2:]; fresh()
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or json.load(open("/opt/vp/BASELINE.json")).get("passed", []))
    if os.path.exists(R + "/_build/CMakeCache.txt") and R not in open(R + "/_build/CMakeCache.txt").read(): shutil.rmtree(R + "/_build")
    for b in g["BUGS"]:
        if only and b["id"] not in only: continue
        D = "%s/seeded/%s" % (V, b["id"]); os.makedirs(D, exist_ok=True)
        open(D + "/demo.c", "w").write(b["demo"]); open(D + "/demo.sh", "w").write(DEMO); os.chmod(D + "/demo.sh", 0o755)
        sh("cd %s && git checkout -q -- ." % R); ok, o = build(); r0 = sh("bash %s/demo.sh" % D, cwd=R)
        bad = None
        for e in b["edits"]:
            p = os.path.join(R, e[0]); t = open(p).read(); n = t.count(e[1])
            if n == 0 or (n > 1 and len(e) < 4): bad = "edit matches %d times: %s" % (n, e[1][:60]); break
            i = -1
            for _ in range(e[3] if len(e) > 3 else 1): i = t.index(e[1], i + 1)
            open(p, "w").write(t[:i] + e[2] + t[i + len(e[1]):])
        if bad: print(b["id"], "BAD", bad); sh("cd %s && git checkout -q -- ." % R); continue
        open(D + "/patch.diff", "w").write(sh("cd %s && git diff" % R).stdout)
        ok, o = build(); t = sh("bash %s/test.sh %s/o.json" % (S, S)); tj = json.load(open(S + "/o.json")); r1 = sh("bash %s/demo.sh" % D, cwd=R)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        c = sh("VP_REPO=%s python3 check.py %s --tier quick" % (R, b["property"]), cwd=V)
        caught = "VIOLATION property=" + b["property"] in c.stdout and c.returncode == 1
        print("%-28s %s build=%s tests_failed=%s demo clean rc=%d patched rc=%d check=%s" % (b["id"], b["property"], ok, tj["failed"], r0.returncode, r1.returncode, "CAUGHT" if caught else "missed rc=%d" % c.returncode), flush=True)
        if r0.returncode: print("   clean demo output:", r0.stdout[-400:])
        if r1.returncode not in (1, 2) : print("   patched demo output:", r1.stdout[-300:])
        if not caught: print("   check:", c.stdout[-600:])
        else: print("   " + [l for l in c.stdout.splitlines() if "violation:" in l][0][:200])
        sh("cd %s && git checkout -q -- ." % R)
main()
