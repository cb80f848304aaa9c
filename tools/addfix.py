#!/usr/bin/env python3
"""addfix.py Cnn <commit> <what failed>: records a repaired defect"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p)); d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4])); json.dump(d, open(p, "w"), indent=1)
