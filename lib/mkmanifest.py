"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props
P = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = []
for p in P:
    if p["id"] not in props.PROPS:
        continue
    suites, models = props.PROPS[p["id"]]
    note = ("Histories of the suite%s %s are recorded from the library built from /repo and every call is accepted or rejected by TLC "
            "as an action of spec/M4rie.tla with the complete object state before and after; MCKernel checks the specification's own "
            "operators on every run%s. Exhaustive where the suites enumerate (see DESIGN.md), sampled otherwise; nothing outside the recorded "
            "calls is decided." % ("s" if len(suites) > 1 else "", ", ".join(suites),
                                   "; " + ", ".join(m[1] for m in models) + " model-checked exhaustively within the bounds they state" if models else ""))
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                   "technique": "TLA+ specification checked with TLC; TLC trace validation of histories recorded from the library",
                   "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "not claimed"} for p in P if p["id"] not in props.PROPS]}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
