"""Runs the check of each planted bug's property (or the given checks) on a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
allchecks = "--all" in sys.argv
PROPS = ["C%02d" % i for i in range(1, 18)]


def one(i):
    d = f"/tmp/run-{i}"
    v = f"/tmp/runv-{i}"
    shutil.rmtree(d, True); shutil.rmtree(v, True)
    shutil.copytree("/repo", d, symlinks=True)
    shutil.copytree("/verif", v, ignore=shutil.ignore_patterns(".git", "seeded"))
    subprocess.run(["git", "-C", d, "apply", f"/verif/seeded/{i}/patch.diff"], check=True)
    prop = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
    res = []
    for p in (PROPS if allchecks else [prop]):
        t = time.time()
        r = subprocess.run(["python3", "harness/check.py", p], cwd=v, env={**os.environ, "NP_REPO": d, "VERIF_SEED": "1"}, capture_output=True, text=True)
        res.append((p, r.returncode, round(time.time() - t), (r.stdout + r.stderr).strip().splitlines()[:1]))
    shutil.rmtree(d); shutil.rmtree(v)
    return i, prop, res


resf = "/verif/tools/seedresults.json"
for i in ids:
    i, prop, res = one(i)
    own = [x for x in res if x[0] == prop][0]
    print(i, "CAUGHT" if own[1] == 1 else "MISSED" if own[1] == 0 else "BROKEN", own[2], str(own[3])[:160], "| also:" if allchecks else "", " ".join(x[0] for x in res if x[1] == 1 and x[0] != prop) if allchecks else "", flush=True)
    known = json.load(open(resf)) if os.path.exists(resf) else {}
    known[i] = sorted(x[0] for x in res if x[1] == 1)
    json.dump(known, open(resf, "w"), indent=1, sort_keys=True)
