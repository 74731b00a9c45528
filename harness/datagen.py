"""C14: the data script run in scratch trees on real and synthetic sources; TLC computes the tables (spec/DataGen.tla)."""
import json, os, re, shutil, subprocess, unicodedata
from concurrent.futures import ThreadPoolExecutor
from common import Broken, CORES, HARNESS, PY, REPO, SPEC, THOROUGH, child_env, rng, split, tlc, tlc_counts, tmpdir

TABLES = ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]
RAW, SUP, OUT = "number_parser_data/raw_cldr_translation_data", "number_parser_data/supplementary_translation_data", "number_parser/data"
SKIPPED = ("root.json", "es-419.json")


def cps(s):
    return [ord(c) for c in s]


def scratch(name, empty):
    """a copy of the repository to run the script in; empty: without languages"""
    tree = os.path.join(tmpdir(), name)
    os.mkdir(tree)
    for d in ("number_parser", "number_parser_scripts", "number_parser_data"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d), ignore=shutil.ignore_patterns("__pycache__"))
    if empty:
        for d in (RAW, SUP, OUT):
            for n in os.listdir(os.path.join(tree, d)):
                if n != "__init__.py":
                    os.unlink(os.path.join(tree, d, n))
    return tree


def run(tree, order=0, stop=0, cwd=None):
    """None, or the way the script failed"""
    global HUNG
    if HUNG:
        return "did not finish before (not tried again)"
    try:
        p = run_(tree, order, stop, cwd)
    except subprocess.TimeoutExpired:
        HUNG = True
        return "did not finish within 150 s"
    return None if p.returncode == 0 else p.stdout.decode("utf8", "replace")[-1500:]


HUNG = False


def run_(tree, order, stop, cwd):
    return subprocess.run([PY, "-B", os.path.join(HARNESS, "datadriver.py"), "run", tree, str(order), str(stop), cwd or tree], env=child_env(), cwd=tree,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)


def read(*dirs):
    out = os.path.join(tmpdir(), "tables.json")
    p = subprocess.run([PY, "-B", os.path.join(HARNESS, "datadriver.py"), "read", out, *dirs], env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Broken("cannot read tables: " + p.stdout.decode()[-1000:])
    return json.load(open(out))


def sets_of(data):
    """the rule sets of a source, in order; None if it has none"""
    try:
        rs = data["rbnf"]["rbnf"]["SpelloutRules"]
    except KeyError:
        return None
    return [[cps(n), [[cps(k), cps(v)] for k, v in x.items()] if isinstance(x, dict) else []] for n, x in rs.items()]


def supp_of(s):
    d = {t: [[cps(w), [int(c) for c in str(int(v))]] for w, v in s[t].items()] for t in TABLES}
    d["SKIP_TOKENS"] = [cps(w) for w in s["SKIP_TOKENS"]]
    d["LONG"] = {True: "true", False: "false", None: "absent"}[s.get("USE_LONG_SCALE")]
    return d


# ------------------------------------------------------------ synthetic sources
SETS = ["%spellout-cardinal", "%spellout-cardinal-masculine", "%spellout-cardinal-feminine", "%spellout-numbering", "%spellout-numbering-year",
        "%%spellout-numbering-m", "%%spellout-cardinal-reale", "%spellout-cardinal-verbose"]
NOSETS = ["%spellout-ordinal", "%spellout-ordinal-masculine", "%%2d-year", "%%lenient-parse", "%%cents-m", "%%spellout-cardinal-cents", "%spellout-numbering-cents",
          "%%and-small", "%spellout", "%%cardinal13", "spellout-cents-cardinal", "%%commas", "%spellout-cardinalcents", "%%cents-spellout-cardinal", "%percents:spellout-numbering"]
LETTERS = "abcdefghijklmnopqrstuvwxyzáéíóúñçßøåдвасортйцыиіїєкхकखगचजटतनपमयरलसहािीुू्اةتمن一二三百千кот'’"
ODD = ["true", "false", "null", "ERR", "error", "ERRORS", "Info", "ça-va", "q\"q", "b\\n", "w'w", "aN", "True", "None", "cents", "a#b", "x:y", "ｆｕｌｌ", "\u200bzw", "tab\tb",
       "é", "e\u0301", "İ", "zero", "twenty one", "y y y", "-", "—", "a.b", "a/b", "٥", "7", "½", "inf"]


def word(r):
    w = "".join(r.choice(LETTERS[:40] if r.random() < .6 else LETTERS) for _ in range(r.choice([1, 1, 2, 3, 4, 5, 8, 12])))
    x = r.random()
    if x < .06:
        w = r.choice(ODD)
    elif x < .14:
        w = w + " " + r.choice(LETTERS) + w[::-1]
    elif x < .17:
        w = w.capitalize()
    elif x < .2:
        w = w + "-" + w
    return w


def shy(r, s):
    if r.random() < .15:
        for _ in range(r.randint(1, 3)):
            i = r.randint(0, len(s))
            s = s[:i] + "\xad" + s[i:]
    return s


def number(r, kind):
    if kind == "base":
        return r.choice([r.randint(0, 9), r.randint(0, 99), r.randint(10, 19), r.randint(1, 9) * 10, r.randint(100, 9999), 10 ** r.randint(2, 25), 9, 10, 99, 100])
    if kind == "compound":
        return r.choice([r.randint(1, 9) * 10, r.randint(2, 9) * 100, r.randint(1, 9) * 100, r.randint(1, 9) * 10 ** r.randint(0, 6), r.randint(1, 9), 1, 11, 21, 101, 110, 1100])
    return r.choice([10 ** r.randint(1, 33), r.randint(1, 9) * 10 ** r.randint(0, 33), 10 ** r.randint(2, 18), 10 ** r.randint(2, 6), r.randint(1, 9), 10, 20, 21, 100, 101])


def rule(r, pool):
    """(key, text) in the syntax of spell-out rules"""
    W = lambda: r.choice(pool) if r.random() < .8 else word(r)
    L = lambda: "<" + r.choice(["", "%spellout-cardinal-masculine", "%%x", "0", "#,##0"]) + "<"
    G = lambda: ">" + r.choice(["", "%spellout-cardinal", "%%and", "%%and"]) + ">"
    sp = lambda: r.choice(["", " ", " ", " ", "-", ", "])
    opt = lambda: r.choice(["[" + sp() + G() + "]", "[ " + W() + " " + G() + "]", "[-" + G() + "]", sp() + G(), "[" + sp() + G() + sp() + "]"])
    x = r.random()
    if x < .4:
        kind, text = "base", r.choice([W(), W(), W(), W(), W(), " " + W(), W() + " ", "ERROR", "", W() + " " + W(), W() + "[ " + W() + "]", "$" + W()])
    elif x < .62:
        kind, text = "compound", r.choice([W() + opt(), W() + opt(), W() + opt(), " " + W() + " " + opt(), "[" + G() + W() + "]" + W(), G() + W(), opt(), W() + "[ " + W() + " " + G() + "]"])
    elif x < .9:
        kind = "multiplier"
        cats = [c for c in ("zero", "one", "two", "few", "many") if r.random() < (.5 if c != "one" else .95)] if r.random() < .4 else \
            ["one"] + ["few"] * (r.random() < .5)
        plural = "$(cardinal," + "".join(c + "{" + W() + "}" for c in cats + ["other"]) + ")$"
        text = r.choice([L() + " " + W() + opt(), L() + " " + W() + opt(), L() + W() + opt(), L() + " " + plural + opt(), L() + " " + plural + opt(), L() + plural + opt(),
                         W() + " " + L() + opt(), W() + " " + L() + " " + W() + opt(), L() + " " + opt(), opt() + L(), L() + "  " + W() + " " + opt(), L() + "-" + W() + opt(),
                         L() + opt(), L() + " " + W() + " " + W() + opt()])
    elif x < .95:
        kind, text = r.choice(["base", "compound", "multiplier"]), r.choice(["=%spellout-numbering=", "=#,##0=", W() + "=%x=", "=%x=" + W(), L() + " " + W() + "[ =%x=]" + opt()])
    else:
        kind, text = r.choice(["base", "compound", "multiplier"]), r.choice([L() + " " + W(), L() + W(), L(), W() + " " + L(), L() + " " + W() + " " + G()[:-1] + ">>", L() + G() + ">",
                                                                        W() + opt()[:-1] + ">" + "]", W() + " >>>", L() + " " + W() + " >>>", L() + " " + W() + "[ >>>]", W() + " >"])
    n = number(r, kind)
    key = str(n)
    y = r.random()
    if y < .05:
        key = r.choice(["x.x", "-x", "Inf", "NaN", "x,x", "0.x", key + "/100", key + "/1,000", key + "/20", "1100/100", key + ">", key + "/" + W() + ";"])
    return key, shy(r, text) + (";" if r.random() < .9 else "")


def synthetic(r):
    """(source, supplement)"""
    pool = [word(r) for _ in range(r.choice([4, 12, 30, 60]))]
    rs = {}
    for _ in range(r.randint(1, 6)):
        name = r.choice(SETS if r.random() < .75 else NOSETS)
        rules = rs.setdefault(name, {})
        for _ in range(r.choice([1, 4, 12, 30])):
            k, t = rule(r, pool)
            rules[k] = t
    src = {"rbnf": {"identity": {"language": "xx"}, "rbnf": {"SpelloutRules": rs, "OrdinalRules": {"%digits-ordinal": {"0": "=#,##0=."}}}}}
    if r.random() < .3:
        src["rbnf"]["rbnf"]["SpelloutRules"] = dict(sorted(rs.items(), reverse=True))
    sup = {}
    for t in TABLES:
        sup[t] = {}
        for _ in range(r.choice([0, 0, 1, 3, 10])):
            v = r.choice([r.randint(0, 9), r.randint(0, 99), r.randint(0, 10 ** 6), 10 ** r.randint(0, 30), r.randint(0, 10 ** 30)])
            if r.random() < .1:
                v = 10.0 ** r.randint(0, 22)
            sup[t][r.choice(pool) if r.random() < .7 else word(r)] = v
    sup["SKIP_TOKENS"] = r.sample(pool, r.choice([0, 0, 1, 3, min(6, len(pool))]) % (len(pool) + 1))
    if r.random() < .2:
        sup["SKIP_TOKENS"].append(word(r))
    if r.random() < .9:
        sup["USE_LONG_SCALE"] = r.random() < .5
    if r.random() < .2:
        sup = dict(reversed(list(sup.items())))
    return src, sup


def norules(r):
    _, sup = synthetic(r)
    return r.choice([{"rbnf": {"identity": {}, "rbnf": {}}}, {"rbnf": {"identity": {}}}, {"rbnf": {"rbnf": {"OrdinalRules": {"%digits-ordinal": {"0": "x"}}}}}, {}]), sup


def modelled(dump, keys):
    """the rule texts of spec/MCRules.tla, fifty to a language, with every key"""
    texts = []
    for st in open(dump).read().split("State ")[1:]:
        texts.append([int(x) for x in re.findall(r"\d+", st.split("rule =", 1)[1])])
    os.unlink(dump)
    pieces = ["W", " ", "<<", "<%r<", ">>", ">%r>", "[", "]", ";", "\xad", "$(c,one{W}other{V})$", "=%r="]
    langs = []
    letters = "abcdefghijklmnopqrstuvwxyz"
    per = 60
    for i in range(0, len(texts), per):
        rs = {}
        for j, t in enumerate(texts[i:i + per]):
            for q, k in enumerate(keys):
                w = letters[j // 26] + letters[j % 26] + letters[q]
                rs.setdefault(f"%spellout-cardinal-{j}", {})[k] = "".join(pieces[p - 1] for p in t).replace("W", "w" + w).replace("V", "v" + w)
        langs.append(({"rbnf": {"rbnf": {"SpelloutRules": rs}}}, {**{t: {} for t in TABLES}, "SKIP_TOKENS": [], "USE_LONG_SCALE": False}))
    return langs, len(texts)


def put(tree, langs, r):
    names = list(langs)
    r.shuffle(names)
    for n in names:
        src, sup = langs[n]
        json.dump(src, open(os.path.join(tree, RAW, n + ".json"), "w", encoding="utf8"), ensure_ascii=r.random() < .5)
        json.dump(sup, open(os.path.join(tree, SUP, n + ".json"), "w", encoding="utf8"), ensure_ascii=r.random() < .5)


KEYS = ["0", "5", "11", "30", "100", "700", "2000", "1" + "0" * 24, "20/1"]


def check(prop, t0, report):
    r = rng(prop)
    events, about = [], []        # events for TLC; what each is about
    viols, info = [], []
    states = trans = 0
    dump = os.path.join(tmpdir(), "rules")
    cfg = "MCRulesDeep.cfg" if THOROUGH else "MCRules.cfg"
    rc, out, _ = tlc("MCRules", cfg, workers=CORES, heap="4g", extra=("-dump", dump + ".dump"))
    if rc or "No error has been found" not in out:
        raise Broken("the specification of the rules violates a law:\n" + out[-1500:])
    g, d = tlc_counts(out)
    states, trans = states + d, trans + g
    pdump = os.path.join(tmpdir(), "proc")
    rc, out, _ = tlc("DataProc", "DataProc.cfg", workers=CORES, heap="2g", extra=("-dump", pdump + ".dump"))
    if rc or "No error has been found" not in out:
        raise Broken("the specification of the data process violates a property:\n" + out[-1500:])
    g, d = tlc_counts(out)
    states, trans = states + d, trans + g

    def failed(what, data):
        viols.append(("the script failed", what.strip().splitlines()[-1] if what else "", data))

    def add(ev, ab):
        events.append(ev)
        about.append(ab)

    # ---- the real sources
    shipped = os.path.join(REPO, OUT)
    sources = {}
    for n in sorted(os.listdir(os.path.join(REPO, RAW))):
        if n.endswith(".json"):
            sources[n[:-5]] = json.load(open(os.path.join(REPO, RAW, n), encoding="utf8"))
    if len(sources) < 80:
        raise Broken("too few language sources")
    plans = [("as listed", [(0, 0, None)]), ("run twice", [(0, 0, None), (0, 0, "/")])]
    for k in range(6 if THOROUGH else 2):
        plans.append((f"directory order {k + 1}", [(k + 1, 0, None)]))
    for k in range(8 if THOROUGH else 2):
        plans.append((f"stopped at write {7 + 31 * k % 80} and run again", [(k + 20, 7 + 31 * k % 80, None), (k + 40, 0, None)]))

    def real(k):
        name, runs = plans[k]
        tree = scratch(f"real{k}", False)
        if k % 2:                                  # older, longer and broken modules in place
            for n in os.listdir(os.path.join(tree, OUT)):
                if n != "__init__.py":
                    open(os.path.join(tree, OUT, n), "a").write("info = {'old': 1}\n" * 50)
        else:
            for n in os.listdir(os.path.join(tree, OUT)):
                if n != "__init__.py":
                    os.unlink(os.path.join(tree, OUT, n))
        for order, stop, cwd in runs:
            err = run(tree, order, stop, cwd)
            if err:
                return k, err, None, None
        return k, None, tree, os.path.join(tree, OUT)
    with ThreadPoolExecutor(4) as ex:
        reals = list(ex.map(real, range(len(plans))))
    dirs = [x[3] for x in reals if x[3]]
    got = read(shipped, *dirs)
    for k, err, tree, _ in reals:
        if err:
            failed(err, {"plan": plans[k]})
    ship = got[shipped]
    for n, src in sources.items():
        m = n.split(".")[0]
        sets = sets_of(src)
        if sets is None or n + ".json" in SKIPPED:
            for k, _, _, o in reals:
                if o and m in got[o] and k % 2 == 0:
                    add({"k": "none", "out": {"state": "written"}}, (plans[k][0], n))
            continue
        supp = supp_of(json.load(open(os.path.join(REPO, SUP, n + ".json"), encoding="utf8")))
        absent = {"state": "absent"}
        add({"k": "lang", "sets": sets, "supp": supp, "out": ship.get(m, absent)}, ("shipped module", n))
        for k, _, _, o in reals:
            if not o:
                continue
            if k == 0:
                add({"k": "lang", "sets": sets, "supp": supp, "out": got[o].get(m, absent)}, ("regenerated module", n))
            add({"k": "same", "a": ship.get(m, absent), "b": got[o].get(m, absent)}, (plans[k][0], n))
    nreal = len(events)
    for x in reals:
        if x[2]:
            shutil.rmtree(x[2])

    # ---- synthetic sources: rule texts of the model, and whole languages
    trees = []
    mlangs, ntexts = modelled(dump + ".dump", KEYS)
    nsyn = 8000 if THOROUGH else 1200
    langs = [(f"m{i}", x) for i, x in enumerate(mlangs)]
    langs += [(f"s{i}", synthetic(r)) for i in range(nsyn)]
    langs += [(f"n{i}", norules(r)) for i in range(nsyn // 40)]
    langs += [(f"l{i}-{r.choice(['XX', 'Latn'])}", synthetic(r)) for i in range(nsyn // 20)]
    r.shuffle(langs)
    for j, part in enumerate(split(langs, CORES)):
        trees.append((scratch(f"syn{j}", True), dict(part)))
    for tree, part in trees:
        put(tree, part, r)
        if r.random() < .5:
            for n in part:
                if n[0] != "n" and r.random() < .3:
                    open(os.path.join(tree, OUT, n + ".py"), "w").write("# older\n" * r.randint(1, 3000))

    def syn(j):
        return run(trees[j][0], j % 3, 0, None)
    with ThreadPoolExecutor(CORES) as ex:
        errs = list(ex.map(syn, range(len(trees))))
    outs = [os.path.join(t, OUT) for t, _ in trees]
    got = read(*outs)
    for (tree, part), err, o in zip(trees, errs, outs):
        if err:                    # find the source that stops the script
            culprit = None
            for n, x in part.items():
                one = scratch("one", True)
                put(one, {n: x}, r)
                e1 = run(one)
                shutil.rmtree(one)
                if e1:
                    culprit = (n, x)
                    break
                if len(info) > 200:
                    break
                info.append(n)
            failed(err, {"source": culprit[1][0], "supplement": culprit[1][1]} if culprit else {"sources": len(part)})
            continue
        for n, (src, sup) in part.items():
            out = got[o].get(n, {"state": "absent"})
            sets = sets_of(src)
            if sets is None:
                add({"k": "none", "out": {"state": "untouched" if out["state"] == "absent" else "written"}}, ("synthetic", (src, sup)))
            else:
                add({"k": "lang", "sets": sets, "supp": supp_of(sup), "out": out}, ("synthetic", (src, sup)))
    # ---- behaviours of the process: order, interruption, repetition, with three languages
    plansp = set()
    for st in open(pdump + ".dump").read().split("State ")[1:]:
        if '"finished"' in st:
            m = re.search(r"/\\ plan = (.*?)(?=\n/\\ |\n\n|\Z)", st, re.S)
            plansp.add(tuple(re.findall(r'<<\s*"(\w+)",\s*"(\w*)"\s*>>', m.group(1))))
    plansp = sorted(plansp)
    if not plansp:
        raise Broken("no complete behaviour of the data process")
    if not THOROUGH:
        plansp = r.sample(plansp, min(len(plansp), 48))

    def proc(k):
        rr = rng(f"proc{k}")
        tree = scratch(f"proc{k}", True)
        part = {"aa": synthetic(rr), "bb": synthetic(rr), "cc": norules(rr)}
        put(tree, part, rr)
        err, runs, i = None, [], 0
        for what, f in plansp[k]:
            if what == "run":
                runs.append([[], False])
            elif what == "file":
                runs[-1][0].append(f)
            else:
                runs[-1][1] = True
        for files, stopped in runs:
            writes = sum(1 for f in files if f != "cc")
            if stopped and not writes:
                continue
            order = files + [f for f in part if f not in files]
            # the order of the behaviour: a shuffle that gives it
            seed = next((s for s in range(1, 400) if shuffle_order(s, sorted(f + ".json" for f in part)) == [f + ".json" for f in order]), 1)
            err = err or run(tree, seed, writes if stopped else 0)
        res = read_one(os.path.join(tree, OUT))
        shutil.rmtree(tree)
        return err, part, res
    with ThreadPoolExecutor(CORES) as ex:
        procs = list(ex.map(proc, range(len(plansp))))
    for (err, part, res), pl in zip(procs, plansp):
        if err:
            failed(err, {"plan": pl})
            continue
        for n, (src, sup) in part.items():
            out = res.get(n, {"state": "absent"})
            if n == "cc":
                add({"k": "none", "out": {"state": "untouched" if out["state"] == "absent" else "written"}}, (f"process {pl}", (src, sup)))
            else:
                add({"k": "lang", "sets": sets_of(src), "supp": supp_of(sup), "out": out}, (f"process {pl}", (src, sup)))

    # ---- validation
    base = os.path.join(tmpdir(), "datatrace")
    idx = sorted(range(len(events)), key=lambda i: -len(json.dumps(events[i])) if i < 400 else 0)
    parts = [p for p in split(idx, CORES) if p]

    def val(k):
        with open(f"{base}{k}.ndjson", "w") as f:
            for i in parts[k]:
                f.write(json.dumps(events[i]) + "\n")
        rc, out, _ = tlc("DataTrace", "DataTrace.cfg", {"TRACE": f"{base}{k}.ndjson"}, heap="3g", timeout=800)
        m = re.search(r'"VERDICTS (.*)"', out)
        if rc != 0 or not m:
            raise Broken("data trace validation failed:\n" + out[-2500:])
        v = json.loads(m.group(1).replace('\\"', '"'))
        if v["n"] != len(parts[k]):
            raise Broken("incomplete data trace")
        return tlc_counts(out), [(parts[k][i - 1], why) for i, why in v["bad"]]
    with ThreadPoolExecutor(len(parts)) as ex:
        vs = list(ex.map(val, range(len(parts))))
    for (g, d), bad in vs:
        states, trans = states + d, trans + g
        for i, why in bad:
            kind, x = about[i]
            viols.append((why, f"{kind}: {x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)[:600]}", {"about": kind, "source": x, "event": events[i] if not isinstance(x, str) else {}}))
    entries = sum(len(e["out"][t]) for e in events if e["k"] == "lang" and e["out"]["state"] == "written" for t in TABLES)
    if not viols and entries < 20000:
        raise Broken(f"vacuous: {entries} entries")
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": len(events), "languages_shipped": len(ship), "real_comparisons": nreal, "rule_texts_of_the_model": ntexts,
           "synthetic_languages": sum(1 for a in about if a[0] == "synthetic"), "processes_replayed": len(plansp), "entries_compared": entries,
           "runs": [p[0] for p in plans], "samples": [langs[0][1], {"plan": plansp[0]}]}
    return report(prop, cov, viols, t0, assumptions=["rule texts follow the syntax of CLDR spell-out rules, with one significant digit in the numbers of compound and multiplier rules"])


def shuffle_order(seed, names):
    import random
    x = list(names)
    random.Random(seed).shuffle(x)
    return x


def read_one(d):
    import uuid
    out = os.path.join(tmpdir(), uuid.uuid4().hex)
    p = subprocess.run([PY, "-B", os.path.join(HARNESS, "datadriver.py"), "read", out, d], env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Broken("cannot read tables")
    x = json.load(open(out))[d]
    os.unlink(out)
    return x
