#!/usr/bin/env python3
"""Rewrites the fixed: list of known_findings.json from /repo's fix: commits (run by hand). Findings themselves are kept."""
import json, os, subprocess
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
MAP = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixmap.json")))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"]).decode().splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[5:]
    k = [v for m, v in MAP.items() if m in s]
    if not k:
        print("unmapped:", s)
        continue
    out.append("fixed: property=%s %s %s" % (k[0], h[:12], s))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
print(len(out), "fixed")
