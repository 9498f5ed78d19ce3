"""python3 -m sa.run <property> [--thorough]

Decides one property by analysing the current source of the repository.  Exit 0: no violation; exit 1 with a VIOLATION
line: the property is broken; exit 2: the analysis could not be carried out (never a verdict).
"""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """finding: property=<id> rule=<rule> analysis=<name> contains=<words_with_underscores> what=<text>"""
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith("finding: "):
                    head, _, what = line[9:].strip().partition(" what=")
                    e = dict(p.split("=", 1) for p in head.split())
                    if e["property"] == pid:
                        out.append(dict(e, what=what, contains=e.get("contains", "").replace("_", " ")))
    return out


def matches(entry, alarm, scenario):
    return alarm["rule"] == entry["rule"] and entry["contains"] in alarm["text"].replace("_", " ") and \
        entry.get("analysis", scenario) == scenario


def analyse(job):
    """one analysis unit in a process of its own"""
    pid, name, seconds = job
    sys.setrecursionlimit(20000)
    t0 = time.time()
    r = {"scenario": name, "alarms": [], "states": 0, "transitions": 0, "complete": True, "cuts": 0, "functions": [], "sites": [],
         "checks": {}, "error": None, "notes": []}
    try:
        from . import suites

        unit = suites.UNITS[name]
        known = known_findings(pid)
        unit(pid, r, seconds, lambda a: any(matches(e, a, name) for e in known))
    except Exception as e:
        from .vm import GuestError

        if isinstance(e, GuestError):
            r["error"] = f"exception of the program outside its entry points: {e.obj.cls.name} {e.obj.f.get('args')} {e.obj.tb}"
        else:
            r["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4)
    r["seconds"] = round(time.time() - t0, 2)
    return r


def run(pid, tier, jobs=None, only=None, verbose=False):
    from . import suites

    t0 = time.time()
    spec = suites.PROPERTIES[pid]
    names = list(spec["quick"])
    if tier == "thorough":
        names += [n for n in spec.get("thorough", ()) if n not in names]
    if only:
        names = [n for n in names if n in only]
    seconds = 600 if tier == "quick" else 3000
    known = known_findings(pid)
    results, new, hits, errors = [], [], set(), []
    jobs = jobs or os.cpu_count() or 1
    order = sorted(names, key=lambda n: -suites.COST.get(n, 1))
    if jobs == 1 or len(order) == 1:
        it = (analyse((pid, n, seconds)) for n in order)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(min(jobs, len(order)))
        it = pool.imap_unordered(analyse, [(pid, n, seconds) for n in order], chunksize=1)
    try:
        for r in it:
            results.append(r)
            if r["error"]:
                errors.append(f"{r['scenario']}: {r['error']}")
            for a in r["alarms"]:
                e = next((e for e in known if matches(e, a, r["scenario"])), None)
                if e is None:
                    new.append((r["scenario"], a))
                else:
                    hits.add(e["what"])
            if verbose:
                print(f"# {r['scenario']}: {r['states']} states {r['transitions']} transitions {len(r['alarms'])} alarms "
                      f"complete={r['complete']} {r['seconds']}s", file=sys.stderr)
            if new and not verbose:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    for w in sorted(hits):
        print(f"KNOWN-FINDING: property={pid} {w}")
    done = {r["scenario"] for r in results}
    functions = sorted({f for r in results for f in r["functions"]})
    sites = sorted({s for r in results for s in r["sites"]})
    checks = {}
    for r in results:
        for k, v in r["checks"].items():
            checks[k] = checks.get(k, 0) + v
    if not new and not errors:
        for k in spec.get("need", ()):
            if not any(c == k or c.startswith(k + " ") for c in checks):
                errors.append(f"the analysis met no instance of {k!r}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    complete = all(r["complete"] for r in results) and done == set(names)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "other"),
        "coverage": {
            "explanation": spec["explanation"],
            "analyses": [{"name": r["scenario"], "what": suites.TEXT.get(r["scenario"], ""), "abstract_states": r["states"],
                          "abstract_transitions": r["transitions"], "fixpoint_reached": r["complete"], "infeasible_paths_cut": r["cuts"],
                          "seconds": r["seconds"], **({"notes": r["notes"]} if r["notes"] else {})}
                         for r in sorted(results, key=lambda r: r["scenario"])],
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "functions_analysed": len(functions),
            "functions": functions,
            "call_sites": len(sites),
            "sites": sites,
            "rule_instances": checks,
            "exhaustive": complete,
            "known_findings_seen": sorted(hits),
            "source_digest": next((r["digest"] for r in results if "digest" in r), ""),
        },
        "assumptions": suites.ASSUMPTIONS + list(spec.get("assumptions", ())),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        path = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(path, "w") as f:
            for sc, a in new:
                text = f"{a['rule']} [{a['construct']}] {a['text']}\n  analysis: {sc}\n  path: {' ; '.join(a['trace'])}\n"
                if a.get("site"):
                    text += "  stack: " + a["site"] + "\n"
                f.write(text)
                print(text.rstrip())
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ANALYSIS-ERROR " + e)
        return 2
    if not complete:
        print(f"NOTE property={pid} exploration stopped at its limit: "
              + ", ".join(r["scenario"] for r in results if not r["complete"]))
    print(f"OK property={pid} {ev['coverage']['states']} abstract states, {ev['coverage']['transitions']} transitions, "
          f"{len(functions)} functions, {ev['wall_s']} s")
    return 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    sys.exit(run(args[0], tier, only=args[1:] or None, verbose="-v" in sys.argv, jobs=1 if "--serial" in sys.argv else None))


if __name__ == "__main__":
    main()
