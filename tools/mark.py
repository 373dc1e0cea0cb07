#!/usr/bin/env python3
"""mark.py SEED...: notes in caught.json that the seed is caught by the check of its own property"""
import json, os, sys
f = os.path.dirname(os.path.abspath(__file__)) + "/caught.json"
c = json.load(open(f))
for s in sys.argv[1:]:
    c.setdefault(s, {})[s[:3].upper()] = "caught"
json.dump(c, open(f, "w"), indent=1, sort_keys=True)
