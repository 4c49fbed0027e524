#!/usr/bin/env python3
"""mut.py [-j N] [PROP|name ...]: apply each mutant of tools/mutants.py to a scratch copy of /repo, run the quick check
of its property and tell which are caught. Development aid: nothing registered in MANIFEST.json uses it."""
import os, sys, subprocess, shutil, tempfile, time
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import mutants
sel = [a for a in sys.argv[1:]]
missed = []
for i, (prop, file, old, new) in enumerate(mutants.M):
    name = "%s-%d" % (prop, i)
    if name in mutants.EQUIV and name not in sel: continue
    if sel and not (prop in sel or name in sel): continue
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        os.mkdir(r)
        subprocess.check_call("cp -a /repo/amelie /repo/build /repo/VERSION /repo/tests /repo/examples %s/ 2>/dev/null || true" % r, shell=True)
        p = os.path.join(r, "amelie", file)
        s = open(p).read()
        if s.count(old) < 1:
            print(name, "NO MATCH", file, repr(old)); continue
        open(p, "w").write(s.replace(old, new, 1))
        t = time.time()
        env = dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_NOEVIDENCE="1")
        x = subprocess.run([sys.executable, os.path.join(H, "..", "check.py"), prop, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = x.returncode == 1 and "VIOLATION property=" in x.stdout
        fail = [l for l in x.stdout.splitlines() if "PBT-FAIL" in l or "ERROR: AddressSanitizer" in l or "failed:" in l]
        print(name, "caught" if ok else "MISSED rc=%d" % x.returncode, "%.0fs" % (time.time() - t), file, "|", (fail[-1:] or [x.stdout[-200:] if not ok else ""])[0][:150], flush=True)
        if not ok: missed.append((name, file, old, new))
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("missed:", len(missed))
for m in missed: print("  ", m)
