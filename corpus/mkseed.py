#!/usr/bin/env python3
# usage: mkseed.py NAME...   Confirms seeds described in /tmp/seeds/NAME.seed in a scratch copy and writes /verif/seeded/NAME.
# file format: "property: Cxx", "pkg: core/manager", "needs: ...", "breaks: ...", then @@ file / old / ==== / new, then "%%%%" and the test
import sys, os, re, json, subprocess, shutil
W = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prep():
    shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W}")
    for f in ("test.sh",):
        s = open("/opt/vp/" + f).read().replace("cd /repo", "cd " + W)
        open("/tmp/seed_" + f, "w").write(s)
DEMO = '''#!/bin/bash
# Runs the test beside this script inside package %(pkg)s of the tree in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
go test -vet=off -count=1 -timeout 250s -overlay "$T/o.json" -run '^TestSeededDemo$' ./%(pkg)s
'''
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
def one(name):
    t = open(f"/tmp/seeds/{name}.seed").read()
    head, test = t.split("%%%%\n", 1)
    meta = dict(re.findall(r"^(property|pkg|needs|breaks): (.*)$", head, re.M))
    sh(f"git -C {W} checkout -q -- .")
    for part in head.split("@@ ")[1:]:
        f, body = part.split("\n", 1)
        old, new = body.split("====\n", 1)
        p = f"{W}/{f.strip()}"
        s = open(p).read()
        if s.count(old) != 1: return f"{name}: old text occurs {s.count(old)} times in {f}"
        open(p, "w").write(s.replace(old, new))
    D = f"/verif/seeded/{name}"
    os.makedirs(D, exist_ok=True)
    open(f"{D}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout)
    open(f"{D}/demo_test.go", "w").write(test)
    open(f"{D}/demo.sh", "w").write(DEMO % meta); os.chmod(f"{D}/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(f"{D}/meta.json", "w"), indent=1)
    r = sh(f". /opt/vp/env.sh; cd {W} && go build ./...")
    if r.returncode: return f"{name}: does not build\n{r.stderr}"
    bad = sh(f"bash {D}/demo.sh", cwd=W)
    sh(f"git -C {W} checkout -q -- .")
    good = sh(f"bash {D}/demo.sh", cwd=W)
    if good.returncode: return f"{name}: demo fails without the patch\n{good.stdout[-3000:]}{good.stderr[-2000:]}"
    if not bad.returncode: return f"{name}: demo passes with the patch\n{bad.stdout[-2000:]}"
    if "build failed" in bad.stdout: return f"{name}: demo does not build with the patch\n{bad.stdout[-2000:]}{bad.stderr[-2000:]}"
    # existing tests
    if not os.environ.get("NOTEST"):
        sh(f"git -C {W} apply {D}/patch.diff")
        r = sh(f"bash /tmp/seed_test.sh /tmp/seed_out.json")
        o = json.load(open("/tmp/seed_out.json"))
        sh(f"git -C {W} checkout -q -- .")
        miss = base - set(o["passed"])
        if miss: return f"{name}: tests fail {sorted(miss)[:5]}"
    return f"{name}: ok   " + " | ".join(l for l in bad.stdout.splitlines() if "demo_test" in l or "panic" in l)[:200]
prep()
for n in sys.argv[1:]: print(one(n), flush=True)
shutil.rmtree(W, ignore_errors=True)
