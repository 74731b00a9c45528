"""Unbounded part: Apalache proves the inductive invariant and the step laws of BuilderInd; TLC
shows that BuilderInd and Builder are the same machine (spec/MCSame.tla)."""
import os, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from common import Broken, SPEC, tlc, tlc_counts, tmpdir

SCHEMES = ["ShortScale", "LongScale", "Indian"]
JOBS = {"C01": [("Init", "IndInv", 0), ("IndInvInit", "IndInv", 1), ("IndInvInit", "Standard", 0)],
        "C06": [("AnyTyped", "ForcedStart", 1), ("AnyTyped", "Fresh", 1)],
        "C15": [("AnyTyped", "Laws", 1)], "C12": []}


def apalache(cinit, init, inv, length):
    d = tempfile.mkdtemp(dir=tmpdir(), prefix="apa-")
    for n in ("BuilderInd.tla", "MCInd.tla"):
        shutil.copy(os.path.join(SPEC, n), d)
    try:
        p = subprocess.run(["apalache-mc", "check", f"--cinit={cinit}", f"--init={init}", f"--inv={inv}", f"--length={length}", f"--out-dir={d}/out", "MCInd.tla"],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500, env={**os.environ, "JVM_ARGS": "-Xmx2g", "HOME": d})
        out = p.stdout.decode("utf8", "replace")
    except (OSError, subprocess.TimeoutExpired) as e:
        return "not completed: " + type(e).__name__
    m = re.search(r"The outcome is: (\w+)", out)
    shutil.rmtree(d, True)
    if m and m.group(1) == "NoError":
        return "proved"
    if m and m.group(1) == "Error":
        raise Broken(f"the specification is wrong: {inv} of BuilderInd ({cinit}):\n" + out[-1500:])
    return "not completed: " + out[-200:]


def tlaps(module, *needs):
    """all obligations of a TLAPS proof: how many were proved"""
    d = tempfile.mkdtemp(dir=tmpdir(), prefix="tlaps-")
    for n in (module, *needs):
        shutil.copy(os.path.join(SPEC, n + ".tla"), d)
    try:
        p = subprocess.run(["tlapm", "--stretch", "4", "--cache-dir", d + "/cache", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400,
                           env={**os.environ, "HOME": d})
        out = p.stdout.decode("utf8", "replace")
    except (OSError, subprocess.TimeoutExpired) as e:
        return "not completed: " + type(e).__name__
    finally:
        shutil.rmtree(d, True)
    m = re.search(r"All (\d+) obligations? proved", out)
    return f"proved ({m.group(1)} obligations)" if m and p.returncode == 0 else "not completed: " + out[-200:]


def run(prop):
    if prop == "C12":
        return {"PureAlways (any number of threads, calls and steps)": tlaps("SessionsProof", "Sessions")}
    """{obligation: outcome} for all schemes"""
    jobs = [(s, *j) for s in SCHEMES for j in JOBS[prop]]
    with ThreadPoolExecutor(4) as ex:
        res = dict(zip([f"{j[2]} from {j[1]} ({j[0]})" for j in jobs], ex.map(lambda j: apalache(*j), jobs)))
        def same(k):
            rc, out, _ = tlc("MCSame", f"MCSame{k}.cfg", workers=2, timeout=500)
            if rc or "No error has been found" not in out:
                raise Broken("BuilderInd and Builder differ:\n" + out[-2000:])
            return tlc_counts(out)[1]
        for k, n in zip(("Short", "Long", "Indian"), ex.map(same, ("Short", "Long", "Indian"))):
            res[f"BuilderInd = Builder ({k})"] = f"{n} states"
    return res


class Background:
    def __init__(self, prop):
        self.res, self.err = None, None
        self.t = threading.Thread(target=self.go, args=(prop,))
        self.t.start()

    def go(self, prop):
        try:
            self.res = run(prop)
        except BaseException as e:
            self.err = e

    def get(self):
        self.t.join()
        if self.err:
            raise self.err
        return self.res
