"""Mutation testing of the checks: mutate.py list|tests|checks [fraction]
tests: mutants that pass the stable tests -> /tmp/mut/survivors.json; checks: which checks catch them."""
import ast, copy, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
FILES = ["number_parser/parser.py", "number_parser_scripts/write_complete_language_data.py"]
SWAP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
        ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    out = []

    def emit(i, fn, what):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        parents = {id(c): p for p in ast.walk(t) for c in ast.iter_child_nodes(p)}
        if fn(n, parents) is False:
            return
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, "m", "exec")
        except Exception:
            return
        out.append((s, f"{getattr(nodes[i], 'lineno', 0)}: {what}: {ast.unparse(nodes[i])[:70]!r}"))

    def replace(n, parents, new):
        p = parents[id(n)]
        for f, v in ast.iter_fields(p):
            if v is n:
                setattr(p, f, new)
                return
            if isinstance(v, list) and n in v:
                v[v.index(n)] = new
                return
        return False
    doc = {id(n.body[0].value) for n in nodes if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr)}
    infstr = {id(c) for n in nodes if isinstance(n, ast.JoinedStr) for c in ast.walk(n)}
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for q in SWAP.get(type(op), []):
                    emit(i, lambda m, p, k=k, q=q: m.ops.__setitem__(k, q()), "compare " + q.__name__)
        if isinstance(n, ast.BoolOp):
            emit(i, lambda m, p: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()), "and/or")
            for k in range(len(n.values)):
                emit(i, lambda m, p, k=k: m.values.pop(k) and None if len(m.values) > 2 else replace(m, p, m.values[1 - k]), f"drop operand {k}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(i, lambda m, p: replace(m, p, m.operand), "drop not")
        if isinstance(n, ast.Constant) and id(n) not in doc and id(n) not in infstr:
            v = n.value
            if v is True or v is False:
                emit(i, lambda m, p: setattr(m, "value", not m.value), "negate constant")
            elif isinstance(v, int):
                for w in (v + 1, v - 1, 0, v * 10):
                    if w != v:
                        emit(i, lambda m, p, w=w: setattr(m, "value", w), f"constant {w}")
            elif isinstance(v, str):
                for w in {"", v + "x", v[:-1], v.upper()} - {v}:
                    emit(i, lambda m, p, w=w: setattr(m, "value", w), f"string {w!r}")
            elif v is None:
                emit(i, lambda m, p: setattr(m, "value", 0), "None -> 0")
        if isinstance(n, ast.AugAssign):
            for q in (ast.Add, ast.Sub, ast.Mult):
                if not isinstance(n.op, q):
                    emit(i, lambda m, p, q=q: setattr(m, "op", q()), "aug " + q.__name__)
            emit(i, lambda m, p: replace(m, p, ast.Assign([m.target], m.value, lineno=1)), "aug -> assign")
        if isinstance(n, ast.BinOp):
            emit(i, lambda m, p: replace(m, p, m.left), "left operand")
            emit(i, lambda m, p: replace(m, p, m.right), "right operand")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Return)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            emit(i, lambda m, p: replace(m, p, ast.Pass()), "delete")
            if isinstance(n, ast.Continue):
                emit(i, lambda m, p: replace(m, p, ast.Break()), "break")
        if isinstance(n, (ast.If, ast.While)):
            emit(i, lambda m, p: setattr(m, "test", ast.Constant(False)), "if False")
            if isinstance(n, ast.If):
                emit(i, lambda m, p: setattr(m, "test", ast.Constant(True)), "if True")
        if isinstance(n, ast.IfExp):
            emit(i, lambda m, p: replace(m, p, m.body), "then")
            emit(i, lambda m, p: replace(m, p, m.orelse), "else")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "strip", "replace", "keys"):
            emit(i, lambda m, p: replace(m, p, m.func.value), "drop call " + n.func.attr)
        if isinstance(n, ast.Call) and len(n.args) >= 1 and isinstance(n.func, ast.Name) and n.func.id in ("_strip_accents", "int", "str", "sorted", "_normalize_tokens", "_normalize_dict"):
            emit(i, lambda m, p: replace(m, p, m.args[0]), "drop call " + n.func.id)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            for k in range(len(n.args) - 1):
                def sw(m, p, k=k):
                    m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                emit(i, sw, f"swap arguments {k}")
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", None), ast.Load):
            for k in range(len(n.elts)):
                emit(i, lambda m, p, k=k: m.elts.pop(k) and None, f"drop element {k}")
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            for k in range(len(n.keys)):
                emit(i, lambda m, p, k=k: (m.keys.pop(k), m.values.pop(k)) and None, f"drop key {k}")
        if isinstance(n, ast.comprehension) and n.ifs:
            emit(i, lambda m, p: m.ifs.clear(), "drop filter")
    seen, res = {src}, []
    for s, w in out:
        if s not in seen:
            seen.add(s)
            res.append((s, w))
    return res


def tests(job):
    k, f, s, w = job
    d = f"/tmp/mut/t{k % 8}-{k}"
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "number_parser_data"))
    open(f"{d}/{f}", "w").write(s)
    try:
        r = subprocess.run("timeout 60 /opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider --doctest-modules number_parser tests README.rst 2>&1 | tail -1", cwd=d, shell=True, env={**os.environ, "PYTHONPATH": d},
                           capture_output=True, text=True)
    finally:
        shutil.rmtree(d)
    return "369 passed" in r.stdout and "failed" not in r.stdout


def main():
    os.makedirs("/tmp/mut", exist_ok=True)
    allm = [(f, s, w) for f in FILES for s, w in mutants(open("/repo/" + f).read())]
    print(len(allm), "mutants")
    if sys.argv[1] == "list":
        return
    if sys.argv[1] == "tests":
        jobs = [(k, *m) for k, m in enumerate(allm)]
        # the tests do not reach the script
        with ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(lambda j: j[1] != FILES[0] or tests(j), jobs))
        sv = [m for m, o in zip(allm, ok) if o]
        json.dump(sv, open("/tmp/mut/survivors.json", "w"))
        print(len(sv), "survive the tests")
        return
    frac = sys.argv[2] if len(sys.argv) > 2 else "0.15"
    sv = json.load(open("/tmp/mut/survivors.json"))
    done = {}
    if os.path.exists("/tmp/mut/result.json"):
        done = json.load(open("/tmp/mut/result.json"))
    d = "/tmp/mut/repo"
    V = "/tmp/mut/verif"
    for n, (f, s, w) in enumerate(sv):
        key = f"{f}:{w}"
        if key in done:
            continue
        shutil.rmtree(d, True)
        shutil.rmtree(V, True)
        shutil.copytree("/repo", d, symlinks=True)
        shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git", "seeded"))
        open(f"{d}/{f}", "w").write(s)
        hit = []
        order = ["C14"] if f == FILES[1] else ["C16", "C15", "C03", "C13", "C11", "C05", "C09", "C07", "C10", "C17", "C02", "C06", "C08", "C04", "C01", "C12"]
        for p in order:
            r = subprocess.run(["python3", "harness/check.py", p], cwd=V, env={**os.environ, "NP_REPO": d, "NP_FRACTION": frac, "VERIF_SEED": str(n)}, capture_output=True, text=True)
            if r.returncode:
                hit.append(p if r.returncode == 1 else p + "!")
                if r.returncode == 1 and "--all" not in sys.argv:
                    break
        done[key] = hit
        json.dump(done, open("/tmp/mut/result.json", "w"), indent=1, ensure_ascii=False)
        print(n, len(sv), key, hit, flush=True)


main()
