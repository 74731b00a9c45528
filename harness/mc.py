"""Exhaustive exploration of the specification (MCBuilder, MCText) and the behaviours it gives
back for replay in the code."""
import json, os, re, tempfile
from concurrent.futures import ThreadPoolExecutor
from common import Broken, LANGS, THOROUGH, fold, rng, case, tlc, tlc_counts, tmpdir, SPEC
from lang import LEX, ORDS, runs, isword
import unicodedata

WS = re.compile(r"/\\ ws = <<([0-9, \n]*)>>(?:.*?/\\ den = (TRUE|FALSE))?", re.S)
WS1 = re.compile(r"ws = <<([0-9, \n]*)>>")


def char(c):
    f = fold(c)
    return {"w": bool(re.match(r"[\w\u0300-\u036f]", c)), "s": c.isspace(), "z": c == "\xad", "f": f, "b": not f.strip(),
            "q": c in "'\u2019", "v": int(c) if c.isdecimal() else -1, "l": c.lower()}


def explore(module, cfg, conf, texts, tag):
    base = os.path.join(tmpdir(), "mc-" + tag)
    json.dump(conf, open(base + ".json", "w"))
    seen = set(" 0123456789/.,") | {c for t in texts for c in t}
    json.dump({c: char(c) for c in sorted(seen)}, open(base + ".chars", "w"))
    rc, out, d = tlc(module, cfg, {"CONFIG": base + ".json", "CHARS": base + ".chars"}, workers=2, heap="3g", timeout=800,
                     extra=("-dump", base + ".dump"))
    if rc != 0 or "No error has been found" not in out:
        raise Broken(f"the specification itself violates a property ({module} {tag}):\n" + out[-3000:])
    gen, dist = tlc_counts(out)
    path = base + ".dump" if os.path.exists(base + ".dump") else base + ".dump.dump"
    txt = open(path).read()
    os.unlink(path)
    states = []
    for st in txt.split("State ")[1:]:
        m = WS1.search(st)
        states.append(([int(x) for x in m.group(1).split(",") if x.strip()], "den = TRUE" in st))
    if len(states) != dist:
        raise Broken("incomplete dump")
    return gen, dist, states


# ---------------------------------------------------------------- builder
def builder_alphabet(l, big):
    L = LEX[l]
    u = ["0", "1", "7"] if big else ["0", "7"]
    ks = [("u", int(x)) for x in u]
    d = sorted(L.cls["d"])
    ks += [("d", d[1])]
    if L.cls["t"]:
        ks += [("t", 40)]
    if L.cls["h"]:
        ks += [("h", 300)]
    up = sorted(L.cls["p"])
    ks += [("p", e) for e in up[: (5 if big else 4)]]
    if len(up) > 6 and big:
        ks += [("p", up[-1])]
    return ks


def builder(l, n, tag, big=False):
    L = LEX[l]
    ks = builder_alphabet(l, big)
    words = [{"c": c, "d": [1] if c == "p" else [int(x) for x in reversed(str(v))] if v else [], "e": v if c == "p" else 0} for c, v in ks]
    if L.skip:
        words.append({"c": "conn", "d": [], "e": 0})
        ks = ks + [("conn", 0)]
    gen, dist, states = explore("MCBuilder", "MCBuilder.cfg", {"long": L.long, "n": n, "words": words}, [], f"{tag}-{l}")
    return gen, dist, [([ks[i - 1] for i in w], den) for w, den in states if w]


def say(r, l, ks):
    L = LEX[l]
    ws = [r.choice(L.skip) if c == "conn" else L.form(r, c, v) for c, v in ks]
    return L.join(r, ws)


# ---------------------------------------------------------------- texts
def pieces(prop, l):
    """(pieces, alternative spellings)"""
    L = LEX[l]
    f = lambda c, v: L.cls[c][v][0]
    big = sorted(e for e in L.cls["p"] if e >= 3)
    u, d = f("u", 7), f("d", 12)
    t = f("t", 40) if L.cls["t"] else f("d", 40)
    h = f("h", 300) if L.cls["h"] else f("p", 2)
    k, m = f("p", big[0]), f("p", big[1])
    sp = lambda ws: [" " + w for w in ws]
    c = L.skip[:1] and [" " + L.skip[-1]] or [" and"]
    if prop == "C02":
        return [" seven", " twenty", " third", " thirtieth", " hundred", " thousandth", " and", " path", "-", ","], None
    if prop == "C03":
        return sp([u, t, h, k, f("u", 0)]) + c + [" cat", ",", " 5", "-"], None
    if prop == "C04":
        return sp([u, t, k]) + c + [" cat", ",", "!", " ", "x", "."], None
    if prop == "C05":
        return sp([u, d, t, k, m]) + c + [" cat", ",", " 5"], None
    if prop == "C06":
        return sp([u, d, t, h, k]) + c + [" cat", ",", "."], None
    if prop == "C07":
        return sp([u, t, k]) + [" and", " AND", "-", " y", " Y", " cat", ","], None
    if prop == "C08":
        return [" one", " uno", " एक", " один", " два", " тисяча", " y", " first", " cat"], None
    if prop == "C09":
        alt = [L.cls["u"][0][0], u, t, k, m]
        a = sp(alt) + c + [" "]
        b = [" \t" + unicodedata.normalize("NFC", w.upper()) for w in alt] + ["\u3000" + x.strip().upper() for x in c] + ["\xa0\n"]
        e = ["  " + (w[:1] + "\xad" + w[1:]) for w in alt]
        return a + e[:2], b + a[:2]
    if prop == "C10":
        return sp([u, t, k]) + [" over ", " by ", "/", " divided by ", " cat", " 5", " "], None
    if prop == "C11":
        return ["½", "²", "五", "٣", "1", " ", "\u0301", "\xad", "-", "'", u, "/", ".", ",", " " + f("u", 0), " " + k], None
    if prop == "C13":
        return {"en": list("onetwx"), "es": list("unodsí"), "hi": list("एकतीनद"), "ru": list("одинва"), "uk": list("одинва")}[l], None
    if prop == "C16":
        return [u, " " + t, " " + k, " cat", ",", " ", "\n", "."] + (c if L.skip else []), None
    if prop == "C17":
        return ["5", "0", "٣", " ", " " + u, " " + k, ".", "-", "\n", " cat"], None
    raise KeyError(prop)


LANGS_OF = {"C02": ["en"], "C07": ["en", "es"], "C08": ["en"]}
# longest text in pieces: quick, thorough
DEPTH = {"C02": (4, 5), "C03": (4, 5), "C04": (4, 5), "C05": (4, 5), "C06": (4, 5), "C07": (4, 5), "C08": (4, 5), "C09": (4, 4), "C10": (4, 5),
         "C11": (3, 4), "C13": (5, 6), "C16": (4, 5), "C17": (4, 5)}
REPLAY = (24000, 150000)     # behaviours replayed per check at most; beyond that a random choice


def cases_of(prop, l, texts, alts):
    from gens import C05case, C06case, C08case, case as _c
    import re as _re
    out = []
    for ps, alt in zip(texts, alts):
        s = "".join(ps)
        if prop == "C02":
            from lang import tokens
            from common import fold as fo
            toks = [fo(t) for t in tokens(s, "en") if t.strip()]
            lastord = toks and toks[-1] in ORDS and not any(t in ORDS for t in toks[:-1])
            out.append(case(prop, "text", [("parse", "en", s)]))
            if lastord:
                out.append(case(prop, "ord", [("ord", "en", s)]))
            elif not any(t in ORDS for t in toks):
                out.append(case(prop, "card" if all(isword("en", t) or t in ("and", "-") for t in toks) else "none",
                                [("ord", "en", s)] + [("num", "en", s)] * all(isword("en", t) or t in ("and", "-") for t in toks)))
        elif prop == "C03":
            out.append(case(prop, "", [("num", l, s)]))
        elif prop in ("C04", "C16"):
            out.append(case(prop, "", [("parse", l, s)]))
        elif prop == "C05":
            out.append(C05case(s, l))
        elif prop == "C06":
            for i in range(1, len(ps) - 1):
                for j in range(i + 1, len(ps)):
                    g = "".join(ps[i:j])
                    a, b = "".join(ps[:i]), "".join(ps[j:])
                    if l == "hi":
                        g, b = " " + g.strip() + " ", b
                    mid = [x.strip() for x in ps[i:j]]
                    if not any(isword(l, x) for x in mid) and any(fold(x) not in LEX[l].skip for x in mid):
                        out.append(C06case(l, a, g, b))
        elif prop == "C07":
            out.append(case(prop, "text", [("parse", l, s)]))
            from lang import tokens
            toks = [t for t in tokens(s, l) if t.strip()]
            plain = [t for t in toks if isword(l, t)]
            if plain and isword(l, toks[0]) and all(isword(l, t) or fold(t) in LEX[l].skip for t in toks):
                out.append(case(prop, "num", [("num", l, s), ("num", l, " ".join(plain))]))
        elif prop == "C08":
            for f in ("parse", "num", "ord"):
                out.append(C08case(f, s))
        elif prop == "C09":
            for f in ("parse", "num", "ord"):
                out.append(case(prop, "", [(f, l, s), (f, l, "".join(alt))]))
        elif prop == "C10":
            cs = [("frac", l, s)]
            for sep in ["divided by", "over", "by", "/"]:
                i = s.find(sep)
                if i >= 0 and s.strip():
                    cs += [("num", l, s[:i]), ("num", l, s[i + len(sep):])]
                    break
            out.append(case(prop, "", cs))
        elif prop == "C11":
            for f in ("parse", "num", "ord", "frac"):
                out.append(case(prop, "total", [(f, l, s)]))
        elif prop == "C13":
            out.append(case(prop, "", [("num", l, s)]))
            out.append(case(prop, "", [("parse", l, s)]))
        elif prop == "C17":
            if s.strip().isdecimal():
                out.append(case(prop, "num", [("num", l, s)]))
                out.append(case(prop, "num", [("ord", l, s)]))
            elif any(c.isdecimal() for c in s):
                out.append(case(prop, "mix", [("num", l, s)]))
            out.append(case(prop, "text", [("parse", l, s)]))
    return out


def run(prop):
    r = rng("mc" + prop)
    total = {"cases": [], "generated": 0, "distinct": 0, "what": ""}
    if prop in ("C01", "C15"):
        # C15 explores all runs, C01 uses those that are standard spellings
        n = 4 if THOROUGH else 3
        if prop == "C01":
            n += 1
        def one(l):
            return l, builder(l, n, prop, THOROUGH and prop == "C15" or not THOROUGH and prop == "C15")
        with ThreadPoolExecutor(5) as ex:
            for l, (g, d, states) in ex.map(one, LANGS):
                total["generated"] += g
                total["distinct"] += d
                for ks, den in states:
                    if prop == "C01":
                        if den:
                            total["cases"].append(case(prop, "", [("num", l, say(r, l, ks))]))
                    else:
                        s = say(r, l, ks)
                        total["cases"].append(case(prop, "", [("parse", l, s)]))
                        total["cases"].append(case(prop, "", [("num", l, s)]))
        total["what"] = f"MCBuilder: all runs of up to {n} words and connectors over the word classes of each language"
        return total
    n = DEPTH[prop][THOROUGH]

    def two(l):
        ps, alt = pieces(prop, l)
        if l == "hi" and prop in ("C04", "C06", "C05", "C03"):
            ps = [p if p.strip() not in (",", ".", "!", "-") else " " + p for p in ps]
        conf = {"lang": l, "n": n, "prop": prop, "pieces": [list(p) for p in ps], "alt": [list(p) for p in (alt or ps)]}
        g, d, states = explore("MCText", "MCText.cfg", conf, ps + (alt or []), f"{prop}-{l}")
        texts = [[ps[i - 1] for i in w] for w, _ in states]
        alts = [[(alt or ps)[i - 1] for i in w] for w, _ in states]
        return g, d, cases_of(prop, l, texts, alts)
    ls = LANGS_OF.get(prop, LANGS)
    with ThreadPoolExecutor(len(ls)) as ex:
        for g, d, cs in ex.map(two, ls):
            total["generated"] += g
            total["distinct"] += d
            total["cases"] += cs
    total["what"] = f"MCText: all texts of up to {n} pieces, languages {' '.join(ls)}"
    if prop in ("C04", "C05", "C07", "C16"):
        rc, out, _ = tlc("Control", "Control.cfg", workers=1, timeout=200)
        if rc or "No error has been found" not in out:
            raise Broken("the control of parse does not follow the rules:\n" + out[-2000:])
        g, d = tlc_counts(out)
        total["generated"] += g
        total["distinct"] += d
        total["what"] += f"; Control: the rules of C04, C05, C07 and C16 for texts of any length ({d} control states, complete)"
    cap = REPLAY[THOROUGH] // (4 if prop == "C08" else 1)
    if len(total["cases"]) > cap:
        total["what"] += f"; {cap} of {len(total['cases'])} behaviours replayed"
        total["cases"] = r.sample(total["cases"], cap)
    return total
