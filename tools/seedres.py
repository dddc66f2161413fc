"""Adds newly planted changes to seeded_results.json: seedres.py [missed-id ...]"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(HERE, "seeded_results.json")
r = json.load(open(path))
seeded = os.path.join(os.path.dirname(HERE), "seeded")
for d in sorted(os.listdir(seeded)):
  if d not in r:
    prop = json.load(open(os.path.join(seeded, d, "meta.json")))["property"]
    r[d] = {"by": prop, "note": "missed at first; check extended" if d in sys.argv[1:] else ""}
json.dump(r, open(path, "w"), indent=1, sort_keys=True)
