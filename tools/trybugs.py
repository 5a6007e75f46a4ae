#!/usr/bin/env python3
# Runs the checks against planted bugs in scratch copies. usage: trybugs.py [-p PATCHDIR] [id ...]
import json, os, subprocess, sys, shutil, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(here, "seeded")))
cf = os.path.join(here, 'tools', 'caught.json'); c = json.load(open(cf)) if os.path.exists(cf) else {}
for id in ids:
    d = os.path.join(here, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="try")
    wt = os.path.join(w, "repo"); shutil.copytree("/repo", wt, symlinks=True)
    subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt, check=True)
    vt = os.path.join(w, "verif"); os.makedirs(vt)
    for x in ("contracts", "checks", "replay", "known-findings.txt"):
        os.symlink(os.path.join(here, x), os.path.join(vt, x))
    t = time.time()
    for p in meta["property"].split(","):
        r = subprocess.run([os.path.join(here, "bin", "govc"), "check", "-repo", wt, "-verif", vt, "-prop", p], capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("REPLAY-FAIL")]
        proof = ""
        rf = os.path.join(vt, "evidence/replay/%s.txt" % p)
        print("%-16s %s rc=%d %.0fs %s" % (id, p, r.returncode, time.time() - t, " | ".join(x[:150] for x in v)), flush=True)
        c[id] = ("%s (%s)" % (p, "failing input" if "no-failing" not in r.stdout else "obligation only")) if r.returncode == 1 else "missed"
    json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
    shutil.rmtree(w)
