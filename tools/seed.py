#!/usr/bin/env python3
# Builds and validates planted bugs from tools/seed_defs.py into seeded/<id>/.
# usage: seed.py [id ...]
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}
def bug(id, prop, pkg, edits, demo, needs, breaks):
    D[id] = dict(prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks)
exec(open(os.path.join(here, "tools", "seed_defs.py")).read())
DEMO = '''#!/bin/bash
# runs the test beside this file inside package %s of the current directory; exit 0 when it passes
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
tmp="$(mktemp -d)"
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./%s
rc=$?
rm -rf "$tmp"
exit $rc
'''
def sh(cmd, cwd, t=300):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
ids = sys.argv[1:] or sorted(D)
for id in ids:
    b = D[id]
    w = tempfile.mkdtemp(prefix="seed")
    wt = os.path.join(w, "repo")
    shutil.copytree("/repo", wt, symlinks=True)
    d = os.path.join(here, "seeded", id)
    os.makedirs(d, exist_ok=True)
    demo = b["demo"]
    name = b["pkg"].split("/")[-1] if b["pkg"] != "." else "main"
    if b["pkg"] == "lib/strategy": name = "strategy"
    if not demo.lstrip().startswith("package"):
        demo = "package %s\n\n%s" % (name, demo.lstrip())
    open(os.path.join(d, "demo_test.go.txt"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (b["pkg"], b["pkg"], b["pkg"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc0, o0 = sh(os.path.join(d, "demo.sh"), wt)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f); s = open(p).read()
        if s.count(old) != 1: print(id, "edit matches", s.count(old), "times:", old); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if ok:
        rc, o = sh("go vet ./... >/dev/null 2>&1; GOFLAGS='-mod=mod -buildvcs=false' go build ./...", wt)
        if rc: print(id, "does not build", o[:500]); ok = False
    if ok:
        _, patch = sh("git diff", wt)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        rc1, o1 = sh(os.path.join(d, "demo.sh"), wt)
        # existing tests
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("pass", [])) if False else None
        rct, ot = sh("GOFLAGS='-mod=mod -buildvcs=false' go test -vet=off -count=1 ./lib/... ./uint256/... 2>&1 | grep -E '^(--- FAIL|panic)' | grep -v 'TestFormat ' | head -5", wt, 600)
        verdict = "OK" if rc0 == 0 and rc1 != 0 and not ot.strip() else "BAD"
        print(id, b["prop"], verdict, "demo clean rc", rc0, "demo patched rc", rc1, "tests:", ot.strip() or "pass")
        if rc0: print(o0[-600:])
        if verdict == "BAD" or "-v" in os.environ.get("SEED", ""): print(o1[-300:])
        if verdict == "BAD" and os.environ.get("KEEP") is None: shutil.rmtree(d)
    else: shutil.rmtree(d)
    shutil.rmtree(w)
