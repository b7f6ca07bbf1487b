#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of properties and the facets that exist.
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in sorted(glob.glob(root + "/harness/*.go")))
have = sorted(set(re.findall(r'addFacet\("(C\d\d)"', src)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
notes = json.load(open(root + "/tools/level_notes.json")) if os.path.exists(root + "/tools/level_notes.json") else {}
DEF = {"technique": "generated rules and messages against a reference model", "note": "generated search within the bounds in DESIGN.md; not exhaustive"}
checks = []
for p in props:
    if p["id"] not in have:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "bash check.sh " + p["id"],
        "technique": "property-based testing (rapid): " + notes.get(p["id"], DEF)["technique"],
        "level": "exploration",
        "level_note": notes.get(p["id"], DEF)["note"],
        "evidence_file": "evidence/%s.json" % p["id"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
