#!/usr/bin/env python3
"""Author's tool, used by no check: make one seeded bug from a spec and try it.
usage: mkseed.py SPEC.py  -- SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (Go main program), [checks]
Applies the edit to /repo, builds, runs the suite, the demo and the checks, and undoes it."""
import sys, os, subprocess, json, shutil
V="/verif"
spec={}
exec(open(sys.argv[1]).read(), spec)
sid=spec["id"]; d=f"{V}/seeded/{sid}"
os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout=="" , "dirty /repo"
DEMO='''#!/bin/bash
# Exit 0 when the property holds for the case in main.go.txt, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
cat > "$d/go.mod" <<M
module demo
go 1.24.4
require github.com/pandatix/go-abnf v0.0.0
require github.com/hashicorp/go-uuid v1.0.3
replace github.com/pandatix/go-abnf => $repo
M
cd "$d" && exec timeout 120 go run .
'''
open(f"{d}/demo.sh","w").write(spec.get("demo_sh", DEMO)); os.chmod(f"{d}/demo.sh",0o755)
if "demo" in spec: open(f"{d}/main.go.txt","w").write(spec["demo"].lstrip())
json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(f"{d}/meta.json","w"), indent=1)
def demo():
    r=sh(f"cd /repo && bash {d}/demo.sh"); return r.returncode, (r.stdout+r.stderr)[-600:]
rc,out=demo()
ok = rc==0
print("demo clean:", rc, out if rc else "")
try:
    for f,o,n in spec["edits"]:
        p=f"/repo/{f}"; s=open(p).read(); assert s.count(o)>=1, (f,"not found"); 
        assert s.count(o)==1 or spec.get("multi"), (f, s.count(o))
        open(p,"w").write(s.replace(o,n, 1))
    open(f"{d}/patch.diff","w").write(sh("git -C /repo diff").stdout)
    b=sh("bash /opt/vp/build.sh"); print("build:", b.returncode, b.stderr[-400:] if b.returncode else "")
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    B=json.load(open('/opt/vp/BASELINE.json')); O=json.load(open('/tmp/seed_out.json'))
    def names(x):
        for k in ('passed','tests','stable','pass'):
            if k in x:
                v=x[k]; return set(v if isinstance(v,list) else list(v))
    miss=sorted(names(B)-names(O)); print("suite missing:", miss[:5])
    rc2,out2=demo(); print("demo bug:", rc2, out2[-300:])
    good = ok and b.returncode==0 and not miss and rc2!=0
    print("COUNTS" if good else "DOES NOT COUNT")
    if good or "--force" in sys.argv:
        for c in spec.get("checks",[spec["prop"]]):
            r=sh(f"{V}/check.sh {c} -root /tmp/vr"); print("check", c, "exit", r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("VIOL","ok"))], r.stdout[:500] if r.returncode==1 else r.stderr[-300:])
finally:
    sh("git -C /repo checkout -- .")
