#!/usr/bin/env python3
"""seed.py [-c] ID...: (re)make seeded/ID from tools/seeds.py and seeded/ID/demo.c, confirm it in a scratch copy
of /repo mounted over /repo in a namespace of its own (builds, tests pass, demo passes without and fails with),
and with -c run the quick check of its property against it. Development aid."""
import os, sys, subprocess, shutil, tempfile, json, time
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import seeds
BASE = "d52f1f8"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def inrepo(r, cmd):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (r, cmd))
args = sys.argv[1:]
runcheck = "-c" in args
args = [a for a in args if a != "-c"]
for sid, s in seeds.S.items():
    if args and sid not in args: continue
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(t, "repo")
    try:
        sh("cp -a /repo %s" % r)
        if not os.path.exists(os.path.join(d, "demo.c")):
            open(os.path.join(d, "demo.c"), "w").write(s["demo"])
        for f in ("demo.sh", "demo.h"):
            shutil.copy(os.path.join(H, "seedlib", f), d)
        bad = []
        for file, old, new in s["edits"]:
            p = os.path.join(r, "amelie", file)
            txt = open(p).read()
            if txt.count(old) != 1: bad.append("%d matches of %r" % (txt.count(old), old))
            open(p, "w").write(txt.replace(old, new, 1))
        if bad: print(sid, "EDIT", bad); continue
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # touched original lines
        own = 0; orig = 0
        for file in {e[0] for e in s["edits"]}:
            out = sh("git -C %s blame -s HEAD -- amelie/%s" % (r, file)).stdout.splitlines() if False else subprocess.run(["git","-C",r,"blame","-s","HEAD","--","amelie/"+file],stdout=subprocess.PIPE).stdout.decode("utf8","replace").split("\n")
            import re
            h = sh("git -C %s diff -U0 -- amelie/%s" % (r, file)).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
                a = int(m.group(1)); n = int(m.group(2) or 1)
                for l in range(a, a + n):
                    if out[l - 1].lstrip("^").startswith(BASE[:6]) : orig += 1
                    else: own += 1
        x = inrepo(r, "git stash -q && bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % d)
        clean = x.returncode
        y = inrepo(r, "git stash pop -q && bash /opt/vp/build.sh 2>&1 | grep -E \"error|FAILED\"; bash /opt/vp/test.sh %s/o.json > %s/t.log 2>&1; bash %s/demo.sh" % (t, t, d))
        passed = json.load(open(t + "/o.json"))
        np = len(passed["passed"]) if isinstance(passed["passed"], list) else passed["passed"]
        print(sid, "orig lines %d own %d; clean demo %d, patched demo %d, tests %s" % (orig, own, clean, y.returncode, np), flush=True)
        if clean: print(x.stdout[-1500:])
        else: print("   ", y.stdout.strip()[-300:])
        if runcheck:
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_NOEVIDENCE="1")
            t0 = time.time()
            c = subprocess.run([sys.executable, os.path.join(V, "check.py"), s["property"], "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = c.returncode == 1 and "VIOLATION property=" + s["property"] in c.stdout
            print("   ", "CAUGHT" if ok else "MISSED rc=%d" % c.returncode, "%.0fs" % (time.time() - t0), [l for l in c.stdout.splitlines() if "FAIL" in l or "ERROR" in l][-1:], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
