"""C12: histories, schedules and process configurations of spec/Sessions.tla, replayed and validated."""
import json, os, re, subprocess, sys, unicodedata
from concurrent.futures import ThreadPoolExecutor
from common import (Broken, CORES, HARNESS, LANGS, PY, REPO, THOROUGH, child_env, fold, rng, split, tlc, tlc_counts, tmpdir)
from gens import FN
from lang import LEX, EN, ORDS, noise, sentence, ordinal, recase, respell, odd_ordinal


def driver(job, tag, env=None, cwd=None, args=("-B",)):
    base = os.path.join(tmpdir(), tag)
    json.dump(job, open(base + ".job", "w"))
    e = child_env()
    e.update(env or {})
    e = {k: v for k, v in e.items() if v is not None}
    p = subprocess.run([PY, *args, os.path.join(HARNESS, "sessdriver.py"), base + ".job", base + ".out"], env=e, cwd=cwd or tmpdir(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode:
        raise Broken("session driver failed: " + p.stdout.decode("utf8", "replace")[-1500:])
    out = [json.loads(x) for x in open(base + ".out")]
    os.unlink(base + ".job")
    os.unlink(base + ".out")
    return out


def parallel(mode, calls, items, tag):
    """items: calls (refs, count) or sessions"""
    key = "calls" if mode in ("refs", "count") else "sessions"
    parts = [(k, items[k::CORES]) for k in range(CORES) if items[k::CORES]]
    out = [None] * len(items)

    def one(p):
        k, part = p
        job = {"mode": mode, "calls": calls, "sessions": []}
        job[key] = part
        return k, driver(job, f"{tag}{k}")
    with ThreadPoolExecutor(CORES) as ex:
        for k, res in ex.map(one, parts):
            if len(res) != len(items[k::CORES]):
                raise Broken("the session driver lost sessions")
            out[k::CORES] = res
    return out


# ---------------------------------------------------------------- calls
def confusable(r, s):
    """texts that are easily taken for one another"""
    ws = s.split(" ")
    sh = ws[:]
    r.shuffle(sh)
    return [s, s.upper(), s.lower(), s.capitalize(), " " + s, s + " ", s.replace(" ", "  "), s.replace(" ", "\n"), " ".join(sh), s + ".", s + ", " + s,
            unicodedata.normalize("NFD", s), fold(s), s.replace("-", " "), s[:-1], " ".join(ws[:-1]), " ".join(ws[1:]), s + " " + ws[-1], s.replace("a", "á", 1),
            s.replace(" ", "\xad ", 1)]


# ordinal endings mean something in English only; the answer of a fresh process is the reference
ORDTEXTS = ["twentieth", "the hundredth", "sixth fourth", "unoth", "twentieth y dosth", "одинth sixtieth", "millionth тысяча"]


def make_calls(r):
    calls, groups = [], []
    texts = ["one thousand and two, mil dos", "twenty-first century AND two", "one over two hundred", "cinco por dos", "mil", "y", "-", "first", "5", "",
             "one uno एक один", "hundred ciento सौ сто", "два миллиона семь / три", "तीन हज़ार दो सौ", "дев'яносто тисяч", "two thousand million", "dos mil millones", "sesenta y seis"] + ORDTEXTS
    for l in LANGS:
        for _ in range(14 if THOROUGH else 5):
            texts.append(sentence(r, l, 4))
            texts.append(LEX[l].phrase(r))
    # words and connectors of one language inside numbers of another
    for l in LANGS:
        for x in ["and", "-", "y", "And", "first", "th"] + [LEX[m].anyword(r) for m in LANGS if m != l]:
            a, b = LEX[l].phrase(r, top=6), LEX[l].phrase(r, top=6)
            texts.append(f"{a} {x} {b}")
            if THOROUGH or x in ("and", "y"):
                texts.append(f"{a} {x}")
    # texts of one length with a long common beginning (or end), numbers of different languages in the rest
    for _ in range(4 if THOROUGH else 2):
        pre = ("zz" + " kkk" * 40)[:r.choice([17, 33, 65, 130])]
        for g in (["one", "uno", "два", "три", "dos", "two", "сто", "mil", "ten"], ["один", "cien", "five", "п'ят", "five", "seis"]):
            texts += [f"{pre} {w}" for w in r.sample(g, 4)] + [f"{w} {pre}" for w in r.sample(g, 3)]
    for s in texts:
        if s not in ORDTEXTS and any(odd_ordinal(t) for t in re.split(r"\W+", s)):
            continue
        g = []
        for v in [s] + r.sample(confusable(r, s), 5) if s.strip() else [s]:
            for f in FN if v == s else r.sample(FN, 2):
                for l in (LANGS + [None, "fr", "EN"] if v == s else r.sample(LANGS + [None], 2)):
                    g.append(len(calls) + 1)
                    calls.append([f, l, v])
        groups.append(g)
    return calls, groups


# ---------------------------------------------------------------- behaviours of the specification
def behaviours(name):
    dump = os.path.join(tmpdir(), "sess-" + name)
    rc, out, _ = tlc("MCSessions", f"MCSessions{name}.cfg", workers=2, heap="3g", extra=("-dump", dump + ".dump"))
    if rc != 0 or "No error has been found" not in out:
        raise Broken("the specification of sessions violates a property:\n" + out[-2000:])
    maxc = int(re.search(r"MaxCalls = (\d+)", open(os.path.join(os.path.dirname(HARNESS), "spec", f"MCSessions{name}.cfg")).read()).group(1))
    path = dump + ".dump"
    bs = set()
    for st in open(path).read().split("State ")[1:]:
        if '"run"' in st:
            continue
        sched = re.search(r"/\\ sched = (.*?)(?=\n/\\ |\n\n|\Z)", st, re.S)
        if not sched:
            continue
        pairs = tuple((int(a), int(b)) for a, b in re.findall(r"<<\s*(\d+),\s*(\d+)\s*>>", sched.group(1)))
        if sum(1 for _, c in pairs if c) == maxc:
            bs.add(pairs)
    os.unlink(path)
    if not bs:
        raise Broken(f"no complete behaviour of the sessions {name}")
    return tlc_counts(out), sorted(bs)


def concretise(r, b, pick, counts, opcodes):
    """a schedule of the specification with real calls and trace event counts"""
    nth = max(t for t, _ in b)
    threads = [[] for _ in range(nth)]
    roles = {}
    plan = []
    # number of work segments of each call, in order
    segs, cur = {}, {}
    for t, c in b:
        if c:
            cur[t] = (t, len(threads[t - 1]))
            threads[t - 1].append(pick())
            segs[cur[t]] = 0
        else:
            segs[cur[t]] += 1
    cuts = {}
    for key, k in segs.items():
        n = counts[threads[key[0] - 1][key[1]] - 1][opcodes]
        x = sorted(r.choice([r.randint(0, max(1, n)), r.randint(0, min(n, 40))]) for _ in range(max(0, k - 1)))
        lens = [b_ - a_ for a_, b_ in zip([0] + x, x)] + [10 ** 9]
        cuts[key] = lens
    pos = {}
    at = {}
    for t, c in b:
        if c:
            at[t] = at.get(t, -1) + 1
            pos[t] = 0
        else:
            key = (t, at[t])
            plan.append([t - 1, max(0, cuts[key][pos[t]])])
            pos[t] += 1
    return {"threads": threads, "plan": plan, "opcodes": bool(opcodes)}


CONFIGS = [
    ({"PYTHONHASHSEED": "1"}, None, ("-B",)), ({"PYTHONHASHSEED": "2"}, "/", ("-B",)), ({"PYTHONHASHSEED": "12345"}, None, ("-B",)),
    ({"PYTHONHASHSEED": "random"}, None, ("-B",)), ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, None, ("-B",)),
    ({"LC_ALL": "POSIX", "PYTHONUTF8": None}, "/usr", ("-B",)), ({"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8", "LANGUAGE": "tr"}, None, ("-B",)),
    ({"LANG": "es_ES.UTF-8", "LC_ALL": None}, None, ("-B",)), ({"LANG": "hi_IN", "LC_ALL": "hi_IN"}, None, ("-B",)), ({}, None, ("-B", "-O")), ({}, None, ("-B", "-OO")),
    ({}, "/", ("-B", "-X", "dev")), ({"TZ": "Asia/Kolkata"}, None, ("-B", "-X", "utf8=0")), ({"PYTHONHASHSEED": "77", "HOME": "/nonexistent"}, None, ("-B", "-W", "error::SyntaxWarning")),
    ({"PYTHONMALLOC": "debug"}, None, ("-B",)), ({"NUMBER_PARSER_LANGUAGE": "es", "LANG": "ru_RU.UTF-8", "LC_MESSAGES": "uk_UA", "LANGUAGE": "uk:ru"}, None, ("-B", "-S"))]


def check(prop, t0, report):
    r = rng(prop)
    import induct
    proof = induct.Background(prop)
    calls, groups = make_calls(r)
    refs = parallel("refs", calls, calls, "refs")
    if any(x == "hang" for x in refs):
        refs = [x or "hang" for x in refs]
    kinds = {x.split(":")[0] for x in refs}
    if not {"int", "str", "none", "exc"} <= kinds:
        raise Broken(f"vacuous references {kinds}")
    sessions, what = [], []
    states = trans = 0

    # 1. histories
    (g, d), bs = behaviours("HistDeep" if THOROUGH else "Hist")
    states, trans = states + d, trans + g
    for rep in range(6 if THOROUGH else 3):
        for b in bs:
            grp = r.choice(groups)
            ids = [r.choice(grp) if r.random() < .75 else r.randrange(len(calls)) + 1 for _ in range(7)]
            sessions.append({"threads": [[ids[c - 1] for _, c in b if c]], "noise": r.random() < .2})
    what.append(f"{len(sessions)} histories from {len(bs)} behaviours")
    nlong = 60 if THOROUGH else 16
    for k in range(nlong):
        pool = list(range(1, len(calls) + 1)) if k % 2 else r.sample(range(1, len(calls) + 1), 60)
        n = 6000 if THOROUGH else 1500
        sessions.append({"threads": [[r.choice(pool) if r.random() < .7 else r.choice(r.choice(groups)) for _ in range(n)]], "noise": k % 3 == 0})
    short = [i for i in range(1, len(calls) + 1) if len(calls[i - 1][2]) < 60 and (refs[i - 1] != "none" or i % 5 == 0)]
    for k in range(8 if THOROUGH else 2):   # very long histories
        pool = short if k % 2 else r.sample(short, 80)
        sessions.append({"threads": [[r.choice(pool) for _ in range(40000 if THOROUGH else 13000)]]})
    for k in range(6):                      # one call again and again, then others
        c = r.randrange(len(calls)) + 1
        sessions.append({"threads": [[c] * 300 + [r.randrange(len(calls)) + 1 for _ in range(100)]]})
    # all texts of a group, every function and language, in both orders
    for g_ in groups:
        sessions.append({"threads": [g_ + g_[::-1]]})
        sessions.append({"threads": [g_[::-1] + g_]})
        for _ in range(3):
            sessions.append({"threads": [r.sample(g_, len(g_)) + g_]})
    # 2. schedules
    hot = [i + 1 for i, c in enumerate(calls) if len(c[2]) > 8 and len(c[2]) < 200]
    counts = parallel("count", calls, calls, "count")
    nsched = 0
    budget = {"Sched2": (2600, 16000), "Sched3": (900, 6000), "Mix": (700, 5000)}
    for name in ("Sched2Deep" if THOROUGH else "Sched2", "Sched3", "Mix"):
        (g, d), bs = behaviours(name)
        states, trans = states + d, trans + g
        want = budget[name.replace("Deep", "")][THOROUGH]
        for k in range(want):
            b = bs[k % len(bs)] if want >= len(bs) else r.choice(bs)
            x = r.random()
            grp = r.choice(groups)
            same = r.choice(hot)
            pick = (lambda: r.choice(hot)) if x < .6 else (lambda: r.choice(grp)) if x < .85 else (lambda: same)
            sessions.append(concretise(r, b, pick, counts, int(r.random() < .4)))
            nsched += 1
    # one switch at every line of a call
    nall = 0
    for k in range(40 if THOROUGH else 8):
        a, b = r.choice(hot), r.choice(hot)
        n = counts[a - 1][0]
        for i in range(0, n + 1, max(1, n // (400 if THOROUGH else 100))):
            sessions.append({"threads": [[a], [b, a]], "plan": [[0, i], [1, 10 ** 9], [1, 10 ** 9], [0, 10 ** 9]], "opcodes": False})
            nall += 1
    what.append(f"{nsched} sessions from schedules of 2 and 3 threads, {nall} with one switch at successive lines")
    for k in range(60 if THOROUGH else 16):
        sessions.append({"threads": [[r.choice(hot) for _ in range(60)] for _ in range(r.choice([2, 3, 6, 8]))], "free": True})
    logs = parallel("sessions", calls, sessions, "sess")
    # 3. configurations of the process
    confs = CONFIGS if THOROUGH else CONFIGS

    def conf(k):
        env, cwd, args = confs[k]
        return driver({"mode": "batch", "calls": calls, "sessions": []}, f"conf{k}", env, cwd, args)[0]
    with ThreadPoolExecutor(CORES) as ex:
        clogs = list(ex.map(conf, range(len(confs))))
    what.append(f"{len(confs)} process configurations x {len(calls)} calls")
    # 4. validation
    alls = [(("session", k), l) for k, l in enumerate(logs)] + [(("config", k), l) for k, l in enumerate(clogs)]
    base = os.path.join(tmpdir(), "sesstrace")
    # results as numbers: the answer "in a fresh process" is the same string
    json.dump(refs, open(base + ".refs", "w"))
    parts = [p for p in split(alls, CORES) if p]

    def val(k):
        index, n = [], 0
        with open(f"{base}{k}.ndjson", "w") as f:
            for key, log in parts[k]:
                f.write('{"e":"new","t":0,"c":0,"r":""}\n')
                index.append((key, -1))
                for j, (e, t, c, res) in enumerate(log):
                    f.write(json.dumps({"e": e, "t": t, "c": c, "r": res}) + "\n")
                    index.append((key, j))
            f.write('{"e":"new","t":0,"c":0,"r":""}\n')
            index.append((parts[k][-1][0], -1))
        rc, out, _ = tlc("SessTrace", "SessTrace.cfg", {"TRACE": f"{base}{k}.ndjson", "REFS": base + ".refs"}, heap="3g", timeout=800)
        m = re.search(r'"VERDICTS (.*)"', out)
        if rc != 0 or not m:
            raise Broken("session trace validation failed:\n" + out[-2500:])
        v = json.loads(m.group(1).replace('\\"', '"'))
        if v["n"] != len(index):
            raise Broken("incomplete session trace")
        v["counts"] = tlc_counts(out)
        v["where"] = [(index[i - 1], why) for i, why in v["bad"]]
        return v
    with ThreadPoolExecutor(len(parts)) as ex:
        vs = list(ex.map(val, range(len(parts))))
    viols = []
    for v in vs:
        for (key, j), why in v["where"]:
            kind, k = key
            log = logs[k] if kind == "session" else clogs[k]
            if j >= 0:
                c = log[j][2]
                desc = f"{calls[c - 1]} -> {log[j][3]} instead of {refs[c - 1]}"
                data = {"call": calls[c - 1], "got": log[j][3], "fresh": refs[c - 1]}
            else:
                desc, data = "a call was not answered", {}
            data[kind] = sessions[k] if kind == "session" else [str(x) for x in confs[k]]
            if kind == "session":
                used = sorted({c for t in sessions[k]["threads"] for c in t})[:40]
                data["calls"] = {c: calls[c - 1] for c in used}
            viols.append((why, desc, data))
    empty = sum(1 for l in logs if not l)
    if empty > len(logs) // 20:
        raise Broken(f"{empty} sessions did not finish")
    for k, l in enumerate(logs):
        if not l:
            viols.append(("a call was never answered", "session did not finish", {"session": sessions[k]}))
    returns = sum(v["returns"] for v in vs)
    cov = {"states": states + sum(v["counts"][1] for v in vs), "transitions": trans + sum(v["counts"][0] for v in vs),
           "traces_validated_against_impl": len(alls), "calls_answered": returns, "distinct_calls": len(calls), "threaded_sessions": nsched + nall,
           "configurations": len(confs), "what": what, "samples": [{"call": calls[k], "fresh": refs[k]} for k in range(0, len(calls), max(1, len(calls) // 5))][:5] + sessions[-30:-28]}
    cov["proof"] = proof.get()
    return report(prop, cov, viols, t0, assumptions=["switches are placed between lines or bytecodes of the library; switches inside C calls do not matter to pure Python state"])
