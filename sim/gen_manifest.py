#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a maker in props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

NUM = ("a pure function of its arguments, computed sequentially: no scheduling, time, I/O, crash or fault influences whether it holds, so simulation has nothing to vary; "
       "its dependence on history, memory contents and environment is decided by C01, C11 and C12, its numerical content is not")
checks, na = [], []
for line in open(os.path.join(HERE, "..", "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in props.MAKERS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + props.NOTES[i][0], "level": "exploration", "level_note": props.NOTES[i][1]})
    elif i[0] == "N":
        na.append({"property": i, "reason": NUM})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 sim/build.py",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
