#!/usr/bin/env python3
"""fixed.py PROP KEY COMMIT WHAT: records a repaired defect in known_findings.json (by hand, never by a check)."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../known_findings.json')
d = json.load(open(p))
prop, key, commit, what = sys.argv[1:5]
d.append({"property": prop, "key": key, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, 'w'), indent=1)
