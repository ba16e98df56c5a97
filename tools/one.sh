#!/bin/bash
# tools/one.sh PROP HARNESS "case" [seconds]: builds (kept in /tmp/one-PROP-HARNESS) and runs a single case, printing records
cd "$(dirname "$0")/.." && python3 - "$@" <<'P'
import sys,os,subprocess
sys.argv_=sys.argv; import check
prop,hn,case=sys.argv[1:4]; sec=sys.argv[4] if len(sys.argv)>4 else "20"
d="/tmp/one-%s-%s"%(prop,hn); os.makedirs(d,exist_ok=True); so,ro=check.engine()
h=next(x for x in check.CHECKS[prop]["harnesses"] if x["name"]==hn); se,ne=check.build(h,d,so,ro)
env=dict(os.environ,SYM_OUT="/dev/stdout",SYM_TIER=os.environ.get("VERIF_TIER","quick"),ASAN_OPTIONS=check.ASAN,SYM_BUDGET="600",SYM_CASE_BUDGET=sec,SYM_JOBS="8",SYM_CASE_ONLY=case)
r=subprocess.run([se],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace"); print(r.stdout[-4000:])
P
