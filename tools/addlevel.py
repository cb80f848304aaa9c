#!/usr/bin/env python3
"""addlevel.py Cnn <technique> <note>"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json")
d = json.load(open(p)); d[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}; json.dump(d, open(p, "w"), indent=1)
