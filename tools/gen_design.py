"""writes DESIGN.md: tools/design_text.md and the tables of checks and planted bugs"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import suites  # noqa: E402

out = [open(HERE + "/tools/design_text.md").read().rstrip(), "", "## Planted bugs and the checks that catch them", "",
       "Every bug is caught by the quick check of the property it is planted against (`tools/runseed.sh`), except where noted.", "",
       "| planted bug | caught by | needs |", "|---|---|---|"]
missed = json.load(open(HERE + "/tools/missed.json")) if os.path.exists(HERE + "/tools/missed.json") else {}
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n = f.split("/")[-2]
    out.append(f"| {n} | {m['property'] if n not in missed else 'missed: ' + missed[n]} | {m['needs']} |")
out += ["", "## Checks", ""]
for l in open(HERE + "/properties.jsonl"):
    p = json.loads(l)
    s = suites.PROPERTIES.get(p["id"])
    if s is None:
        continue
    th = [u for u in s["thorough"] if u not in s["quick"]]
    out.append(f"* **{p['id']}** ({p['title']}) - {s['explanation']}. Quick: {', '.join(s['quick'])}." + (f" Thorough also: {', '.join(th)}." if th else ""))
out += ["", "## Analyses", "", "| analysis | what it explores |", "|---|---|"]
for n in suites.UNITS:
    out.append(f"| {n} | {suites.TEXT[n].replace('|', '/')[:300]} |")
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
