"""(Re)creates /verif/seeded/<id> from the declarations in tools/seeds/*.seed.py and confirms each in a scratch copy.

usage: mkseed.py [--tests] [id…]
"""
import json, os, shutil, subprocess, sys, tempfile, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDS = []


def seed(id, prop, file, edits, needs, breaks, demo, harness=()):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS.append(dict(id=id, prop=prop, edits=[(e if len(e) == 3 else (file, *e)) for e in edits], needs=needs, breaks=breaks, demo=demo, harness=harness))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for f in sorted(glob.glob(HERE + "/*.seed.py")):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    for s in SEEDS:
        if args and s["id"] not in args:
            continue
        d = f"{VERIF}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        try:
            sh(f"cp -a /repo {tmp}/repo && git -C {tmp}/repo checkout -q -- .")
            for h in s["harness"]:
                shutil.copy(f"{HERE}/{h}", d)
            open(d + "/demo.py", "w").write(s["demo"].lstrip())
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            a = sh(f"bash {d}/demo.sh", cwd=tmp + "/repo")
            for f, old, new in s["edits"]:
                p = f"{tmp}/repo/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff", cwd=tmp + "/repo").stdout
            open(d + "/patch.diff", "w").write(diff)
            b = sh(f"bash {d}/demo.sh", cwd=tmp + "/repo")
            t = ""
            if "--tests" in sys.argv:
                x = sh(f"sed 's#/repo#{tmp}/repo#g' /opt/vp/test.sh > {tmp}/test.sh; cp /opt/vp/*.py /opt/vp/*.json {tmp}; bash {tmp}/test.sh {tmp}/o.json; cat {tmp}/o.json")
                base = json.load(open("/opt/vp/BASELINE.json"))
                t = x.stdout[-600:]
            print(s["id"], s["prop"], "clean:", a.returncode, "patched:", b.returncode, "OK" if a.returncode == 0 and b.returncode not in (0, 124) else "*** BAD ***", b.stdout.strip()[-150:], flush=True)
            if a.returncode: print(a.stdout[-800:], a.stderr[-1500:])
            elif b.returncode != 1 or "FAIL" not in b.stdout: print(b.stderr[-600:])
            if t: print(t)
        finally:
            shutil.rmtree(tmp)


main()
