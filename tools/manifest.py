#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist (python3 tools/manifest.py)."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(V + "/checks/*.cc"))
have = set(re.findall(r'Registrar\s+\w+\(\{\s*"(C\d+)"', src))
TECH = {}
NOTE = {}
exec(open(V + "/tools/manifest_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=TECH[i], level=LEVEL.get(i, "exploration"), level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check yet (work in progress).")))
m = dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
