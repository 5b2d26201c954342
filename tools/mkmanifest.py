#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness modules."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(HERE, "harness", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    src = open(f).read()
    what = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', re.search(r"^WHAT = (.*?)\n(?=[A-Z]+ = )", src, re.S | re.M).group(1)))
    traces = sorted(set(re.findall(r'"(Trace\w+)"', src)))
    designs = sorted(set(re.findall(r'\("(\w+)", "\w+\.cfg"', src)))
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+/TLC: design model %s checked exhaustively at small bounds; behaviours of the real code "
                     "validated by TLC against %s" % (", ".join(designs) or "(none)", ", ".join(traces)),
        "level": "model_checking",
        "level_note": what + ". Exhaustive on the model within its constants; on the code, every replayed and "
                      "generated behaviour. Trusted: NumPy/SciPy arithmetic to the stated tolerance and the "
                      "decoders in harness/dec.py.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, recording and decoding in harness/, driver check.py. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
