#!/usr/bin/env python3
"""record repaired defects: fixed.py PROPERTY COMMIT 'what failed'"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(P)) if os.path.exists(P) else {"findings": []}
prop, commit, what = sys.argv[1:4]
d["findings"].append({"property": prop, "status": "fixed", "commit": commit,
                      "line": "fixed: property=%s %s %s" % (prop, commit, what)})
json.dump(d, open(P, "w"), indent=1)
