#!/usr/bin/env python3
"""tools/fixed.py P06 <commit> <what failed>: records a repaired defect."""
import json, os, sys
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
d = json.load(open(fn))
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(fn, "w"), indent=1)
