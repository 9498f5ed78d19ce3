"""writes MANIFEST.json from sa/suites.py and the table of declined properties"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import suites  # noqa: E402

DECLINED = {
    "N01": "convergence of the balancing arithmetic quantifies over numbers of tasks and repeated runtime rounds; no sound static argument in reach bounds it",
    "N03": "behaviour of pickle/cloudpickle on arbitrary runtime values, decided outside this repository",
    "N04": "no mechanism for it exists in the code (nothing observes the death of the processor), so there is no construct to analyse",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in ids:
    s = suites.PROPERTIES.get(p)
    if s is None:
        DECLINED.setdefault(p, "check not built yet")
        continue
    checks.append({"property": p, "quick_cmd": f"python3 -m sa.run {p}", "thorough_cmd": f"python3 -m sa.run {p} --thorough",
                   "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": checks,
     "not_applicable": [{"property": p, "reason": DECLINED[p]} for p in ids if p in DECLINED]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
