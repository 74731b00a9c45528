"""Shared parts of the harness: paths, the vocabulary, recording, TLC runs, reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, unicodedata
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("NP_REPO", "/repo")
VOCAB_FILE = os.path.join(SPEC, "vocab", "vocab.json")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CORES = max(1, min(8, os.cpu_count() or 1))
LANGS = ["en", "es", "hi", "ru", "uk"]


class Broken(Exception):
    """The machinery failed (neither 'holds' nor 'violated')."""


def fold(word):
    return "".join(c for c in unicodedata.normalize("NFD", word.lower()) if unicodedata.category(c) != "Mn")


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="npverif-")
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def child_env(**extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "JAVA_TOOL"))}
    env.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(tmpdir(), "pyc"),
                "PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "NP_REPO": REPO})
    env.update(extra)
    return env


# ----------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, heap="2g", timeout=600, extra=(), cwd=None):
    """Runs TLC in a scratch copy of spec/; returns (exit code, output)."""
    d = tempfile.mkdtemp(dir=tmpdir(), prefix="tlc-")
    for n in os.listdir(SPEC):
        if n.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, n), d)
    if os.path.sep not in cfg and not os.path.exists(os.path.join(d, cfg)):
        raise Broken("no config " + cfg)
    e = {k: v for k, v in os.environ.items() if not k.startswith("JAVA_TOOL")}
    e.update({"VOCAB": VOCAB_FILE, "LC_ALL": "C.UTF-8"})
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dstderr.encoding=UTF-8",
           "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out on {module}")
    out = p.stdout.decode("utf8", "replace")
    return p.returncode, out, d


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc_counts(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


# ------------------------------------------------- recording and validation
def split(items, n):
    return [items[i::n] for i in range(n)]


def record(cases, tag, call_limit=20.0):
    """Runs the cases on the real code; returns the paths of the trace and character table."""
    base = os.path.join(tmpdir(), tag)
    with open(base + ".jobs", "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    p = subprocess.run([PY, "-B", os.path.join(HARNESS, "recorder.py"), base + ".jobs", base + ".ndjson",
                        base + ".chars", str(call_limit)], env=child_env(), cwd=tmpdir(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode:
        raise Broken("recorder failed: " + p.stdout.decode("utf8", "replace")[-2000:])
    return base


def validate(base, n):
    rc, out, _ = tlc("Trace", "Trace.cfg", {"TRACE": base + ".ndjson", "CHARS": base + ".chars"}, heap="3g", timeout=800)
    m = re.search(r'"VERDICTS (.*)"', out)
    if not m or rc != 0:
        raise Broken("trace validation failed:\n" + out[-3000:])
    v = json.loads(m.group(1).replace('\\"', '"'))
    if v["n"] != n or v["ok"] + v["skip"] + v["nbad"] != n:
        raise Broken("trace validation incomplete: " + m.group(1))
    v["states"] = tlc_counts(out)
    return v


def conformance(cases, shards=CORES, tag="t"):
    """Records the cases and validates the trace against the specification."""
    if not cases:
        raise Broken("no cases")
    parts = [p for p in split(cases, shards) if p]

    def one(k):
        base = record(parts[k], f"{tag}{k}")
        v = validate(base, len(parts[k]))
        v["events"] = []
        if v["bad"]:
            want = {b[0]: b[1] for b in v["bad"]}
            with open(base + ".ndjson") as f:
                for i, line in enumerate(f, 1):
                    if i in want:
                        v["events"].append((want[i], parts[k][i - 1], json.loads(line)))
        for ext in (".jobs", ".ndjson", ".chars"):
            os.unlink(base + ext)
        return v

    with ThreadPoolExecutor(len(parts)) as ex:
        vs = list(ex.map(one, range(len(parts))))
    tot = {"n": 0, "ok": 0, "skip": 0, "nbad": 0, "generated": 0, "distinct": 0, "events": []}
    for v in vs:
        for k in ("n", "ok", "skip", "nbad"):
            tot[k] += v[k]
        tot["generated"] += v["states"][0]
        tot["distinct"] += v["states"][1]
        tot["events"] += v["events"]
    return tot


# ----------------------------------------------------------------- cases
def case(p, x, calls, g=""):
    """calls: (function, language or None, text or {'ref': k})"""
    return {"p": p, "x": x, "c": [[f, l, t] for f, l, t in calls], "g": g}


def text(res):
    if res["t"] == "int":
        return "".join(map(str, reversed(res["d"]))) or "0"
    if res["t"] == "str":
        return repr("".join(res["s"]))
    return res["t"] + (" " + res["n"] if res["n"] else "")


def show(event):
    return [f'{c["f"]}({"".join(c["i"])!r}, {c["l"]}) -> {text(c["r"])}' for c in event["c"]]


def rng(salt):
    return random.Random(f"{SEED}-{salt}")
