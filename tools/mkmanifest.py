#!/usr/bin/env python3
# writes MANIFEST.json and known_findings.json from the registry, properties.jsonl and the fix commits of /repo
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "py"))
import registry
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = json.load(open(os.path.join(H, "tools/not_applicable.json")))
checks = []
for p in props:
    e = registry.CHECKS.get(p["id"])
    if not e: continue
    checks.append(dict(property=p["id"],
        quick_cmd="python3 check.py %s quick" % p["id"],
        thorough_cmd="python3 check.py %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=e.get("technique", "property-based testing: coverage-guided choice-sequence generation against a reference model, with shrinking"),
        level="exploration",
        level_note=e.get("level_note", "Search over generated cases, not exhaustive: it shows presence of a violation with a reduced replay, absence only for the cases generated. "
                   + e.get("trusts", "Trusts the reference model in the harness, clang and AddressSanitizer."))))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check is built for it yet")) for p in props if p["id"] not in registry.CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's working tree in a scratch directory under /tmp and removes it. "
               "No hooks are added to /repo: harnesses link the unmodified sources.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
# known findings
known = json.load(open(os.path.join(H, "tools/known.json")))
out = []
fixes = json.load(open(os.path.join(H, "tools/fixes.json")))
subj = {}
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "): subj[s[5:]] = h
for s, prop in fixes.items():
    if s not in subj: print("no commit for:", s); continue
    out.append(dict(property=prop, status="fixed", commit=subj[s], key="", what=s,
                    line="fixed: property=%s %s %s" % (prop, subj[s], s)))
for s in subj:
    if s not in fixes: print("fix not recorded:", s)
for k in known:
    k["status"] = "known"; k["line"] = "known: property=%s %s" % (k["property"], k["what"]); out.append(k)
json.dump(out, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable,", len(out), "findings")
