#!/usr/bin/env python3
# DESIGN.md from its parts, the fixes and the planted bugs
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = "".join(open(p).read() for p in sorted(glob.glob(R + "/tools/design/[1-3]*.md")))
kf = json.load(open(R + "/known_findings.json"))
kf = kf if isinstance(kf, list) else kf["findings"]
fixed = [k for k in kf if k["status"] == "fixed"]
out += "\n## Defects found and repaired\n\nEach was found by the check of its property (the failing case was run against the real code), repaired by one `fix:` commit and is\nreported again by the check when the repair is undone.\n\n"
for p in sorted({k["property"] for k in fixed}):
    out += "* " + p + ": " + "; ".join("%s (%s)" % (k["what"], k["commit"]) for k in fixed if k["property"] == p) + "\n"
out += open(R + "/tools/design/40-seeds.md").read()
out += "\n| planted bug | check | what it breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"])
out += open(R + "/tools/design/50-limits.md").read()
open(R + "/DESIGN.md", "w").write(out)
