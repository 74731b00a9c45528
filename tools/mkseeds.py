"""Builds and confirms planted bugs: tools/mkseeds.py [id...]; definitions in tools/seeds.py.
Each is kept only if it applies, passes the stable tests, and its demonstration fails with it and passes without."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def make(s):
    d = f"/tmp/seed-{s['id']}"
    shutil.rmtree(d, True)
    shutil.copytree("/repo", d, symlinks=True)
    for path, old, new in s["edits"]:
        p = os.path.join(d, path)
        t = open(p, encoding="utf8").read()
        if t.count(old) != 1:
            return f"edit matches {t.count(old)} times: {old[:60]!r}"
        open(p, "w", encoding="utf8").write(t.replace(old, new))
    diff = sh("git diff", d).stdout
    out = f"/verif/seeded/{s['id']}"
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(s["demo"].strip() + "\n")
    open(out + "/demo.sh", "w").write("#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\n"
                                      "D=\"$(cd \"$(dirname \"$0\")\" && pwd)\"\nPYTHONPATH=\"$PWD\" exec $PY -B \"$D/demo.py\"\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    a = sh(f"bash {out}/demo.sh", "/repo", timeout=300)
    b = sh(f"bash {out}/demo.sh", d, timeout=300)
    t = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --doctest-modules number_parser tests README.rst 2>&1 | tail -4", d, env={**os.environ, "PYTHONPATH": d})
    shutil.rmtree(d)
    res = []
    if a.returncode != 0:
        res.append("demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-300:])
    if b.returncode == 0:
        res.append("demo passes with the patch")
    if "failed" in t.stdout or "369 passed" not in t.stdout:
        res.append("tests: " + t.stdout[-400:])
    if res:
        shutil.rmtree(out)
    return "; ".join(res) or "ok"


for s in SEEDS:
    if len(sys.argv) < 2 or s["id"] in sys.argv[1:]:
        print(s["id"], make(s), flush=True)
