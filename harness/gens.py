"""Case generators, one per property.  gen(property, r, n) -> about n cases.
They only choose inputs; what the results should be is decided by spec/Props.tla."""
import re, sys, unicodedata
from common import case, fold, LANGS, THOROUGH
from lang import (LEX, EN, V, ORDS, OTHERS, FOREIGN, PUNCT, SPACES, Lex, noise, recase, respell, gap, piece, sentence,
                  ordinal, ordinal_word, conn, conns, odd_ordinal, runs, isword, tokens, val)

FN = ["parse", "num", "ord", "frac"]


def langs(r, n):
    """language of each of n cases: they take turns"""
    return [LANGS[i % 5] for i in range(n)]


def vary(r, s):
    """the phrase as is, or with other letter case"""
    return s if r.random() < .8 else recase(r, s)


# ---------------------------------------------------------------- C01
def C01(r, n):
    out = []
    full = range(0, 10000) if THOROUGH else sorted(set(range(0, 200)) | {r.randrange(200, 10000) for _ in range(700)})
    for l in LANGS:
        L = LEX[l]
        for k in full:
            out.append(case("C01", "", [("num", l, L.phrase(r, k))]))
        # every form of every word, alone and in a larger number
        for w in L.forms:
            e = L.words[fold(w)]
            out.append(case("C01", "", [("num", l, w)]))
            ws = [w]
            if e["c"] == "p":
                q = r.randrange(2, 1000 if e["e"] > 2 else 10)
                ws = (L.sub1000(r, q) if q < 1000 and e["e"] > 2 else [L.form(r, "u", q)]) + ws
                lower = [x for x in L.exps if x < e["e"]]
                if lower and r.random() < .7:
                    x = r.choice(lower)
                    ws += [L.form(r, "u", r.randrange(2, 10)), L.form(r, "p", x)]
                ws += L.small(r, r.randrange(1, 100))
            elif e["c"] == "t" and val(e):
                ws += (["-"] if l == "en" else ["y"] if l == "es" else []) + [L.form(r, "u", r.randrange(1, 10))]
            elif e["c"] == "h":
                ws += L.small(r, r.randrange(1, 100))
            if e["c"] != "p" and val(e) and r.random() < .5:
                x = r.choice(L.exps)
                ws = L.sub1000(r, r.randrange(2, 1000)) + [L.form(r, "p", x)] + ws
            out.append(case("C01", "", [("num", l, L.join(r, ws))]))
        # every scale word with every coefficient shape, and round numbers around it
        for e in L.exps:
            for q in (1, 2, 10, 19, 20, 21, 99, 100, 101, 110, 111, 120, 200, 900, 999):
                m = q * 10 ** e
                for d in (0, 1, 10, 99, 100, 110, 111, 999):
                    if d < 10 ** e and (THOROUGH or r.random() < .25):
                        out.append(case("C01", "", [("num", l, L.phrase(r, m + d))]))
            if L.long and e >= 6:
                for q in (1000, 1001, 1100, 2000, 21000, 99999, 100000, 123456, 999999):
                    if L.sayable(q * 10 ** e):
                        out.append(case("C01", "", [("num", l, L.phrase(r, q * 10 ** e + r.choice([0, 1, 999])))]))
        # the longest numbers: every scale used
        for _ in range(20 if THOROUGH else 3):
            m, bound = 0, None
            for e in L.exps + [0]:
                cap = min(10 ** 6 if L.long and e >= 6 else 1000, 10 ** (bound - e) if bound is not None else 10 ** 6)
                if cap > 1:
                    m += r.randrange(1, min(cap, 1000) if e < 6 else cap) * 10 ** e
                bound = e
            out.append(case("C01", "", [("num", l, L.phrase(r, m))]))
    for l in langs(r, n - len(out)):
        out.append(case("C01", "", [("num", l, vary(r, LEX[l].phrase(r)))]))
    return out


# ---------------------------------------------------------------- C02
RESEMBLE = """path goldsmith tooth month north south with both cloth math death youth truth earth bath smith myth
ieth th twieth seconds firstly thirdly fifths ninths twelfths secondhand firsthand thirdborn fourthly tenths sixths
monolith forthwith hundredths thousandths millionths zerothly growth depth width length breath wealth health
twent thirt fort fift sixt sevent eight ninet secon firs thir fif nint twelft fourt""".split()


def resembling(r):
    if r.random() < .5:
        w = r.choice(RESEMBLE)
    else:
        w = r.choice([r.choice(sorted(ORDS)), r.choice(EN.forms)])
        i = r.randrange(len(w) + 1)
        w = r.choice([w[:i] + r.choice("abcdefghijklmnopqrstuvwxyz") + w[i:], w[:i] + w[i + 1:], w + r.choice(["s", "ly", "y", "er"]),
                      r.choice(["un", "a", "re", "mid"]) + w, w + r.choice(EN.forms), r.choice(EN.forms) + w])
    return w


def plainword(w):
    return not isword("en", w) and fold(w) not in EN.skip and not odd_ordinal(w)


def C02(r, n):
    out = []

    def add(m):
        s = EN.join(r, ordinal(r, m))
        out.append(case("C02", "ord", [("ord", "en", vary(r, s))]))
    for m in list(range(1, 1001 if not THOROUGH else 10000)):
        add(m)
    for e in EN.exps:
        for q in (1, 2, 9, 11, 20, 35, 99, 100, 200, 999):
            add(q * 10 ** e)
            add(q * 10 ** e + r.choice([1, 2, 3, 5, 8, 9, 12, 20, 90, 100]))
    for o in ORDS:
        out.append(case("C02", "ord", [("ord", "en", o)]))
        out.append(case("C02", "ord", [("ord", "en", recase(r, o))]))
        out.append(case("C02", "text", [("parse", "en", f"the {o} time")]))
        for o2 in (sorted(ORDS) if THOROUGH else r.sample(sorted(ORDS), 6)):
            out.append(case("C02", "text", [("parse", "en", f"{o} {o2}")]))
        for w in (EN.forms if THOROUGH else r.sample(EN.forms, 8)):
            out.append(case("C02", "text", [("parse", "en", f"{o} {w}")]))
            out.append(case("C02", "text", [("parse", "en", f"{w} {o} {r.choice(EN.forms)}")]))
    for i in range(n // 12):            # parse_ordinal is parse_number where there are no ordinals, in the language that was given
        l = LANGS[i % 5]
        s = r.choice([lambda: LEX[l].phrase(r), lambda: LEX[r.choice(LANGS)].phrase(r), lambda: r.choice(LEX[r.choice(LANGS)].forms),
                      lambda: LEX[l].join(r, LEX[l].wild(r, r.randint(1, 5))), lambda: sentence(r, l, 2, ordinals=False)])()
        s = vary(r, s)
        if not any(odd_ordinal(t) or fold(t) in ORDS for t in tokens(s, l)) and not any(c.isdecimal() or c in "'’" for c in s):
            out.append(case("C02", "same", [("ord", l, s), ("num", l, s)]))
    for w in RESEMBLE:
        if plainword(w):
            out.append(case("C02", "none", [("ord", "en", w)]))
            out.append(case("C02", "text", [("parse", "en", w)]))
    while len(out) < n:
        x = r.random()
        if x < .4:
            m = EN.number(r, zero=False)
            if EN.sayable(m):
                add(m)
        elif x < .5:
            s = EN.phrase(r) if r.random() < .6 else EN.join(r, EN.wild(r, r.randint(1, 5)))
            out.append(case("C02", "card", [("ord", "en", s), ("num", "en", s)]))
        elif x < .62:
            w = resembling(r)
            if plainword(w):
                s = r.choice([w, f"{EN.phrase(r)} {w}", f"{w} {EN.phrase(r)}", EN.join(r, EN.spell(r, 20 + r.randrange(1, 10))[:-1] + [w])])
                out.append(case("C02", "none", [("ord", "en", s)]))
                out.append(case("C02", "text", [("parse", "en", s)]))
        else:
            ws = []
            for _ in range(r.choice([1, 2, 3, 4, 6])):
                y = r.random()
                ws.append(EN.join(r, ordinal(r, r.randrange(1, 100))) if y < .25 else r.choice(sorted(ORDS)) if y < .5
                          else EN.anyword(r) if y < .65 else EN.phrase(r) if y < .75 else r.choice(["and", "-", "And"]) if y < .85
                          else resembling(r) if y < .93 else r.choice(OTHERS["en"]))
            if all(not odd_ordinal(t) for w in ws for t in tokens(w, "en")):
                s = "".join(w + r.choice([" ", " ", " ", "  ", ", ", ". ", "-", "\n"]) for w in ws)
                out.append(case("C02", "text", [("parse", "en", vary(r, s))]))
    return out


# ---------------------------------------------------------------- C03
def C03(r, n):
    out = []
    blanks = ["", " ", "\n", "\t \u3000", "\xad", "\xad \xad", "-", "- -", "and", " and ", "and and", "y", "'", "’", "''", "' '",
              "1_000", "1__0", "_1", "1_", "1,000", "+5", "-5", "1e3", "0x10", "5.0", "1 000", "٣_٤", "５．５",
              ".", ",", "!", "\u0301", "0 0", "--", "- and -", "\u200b"]
    for l in LANGS:
        for s in blanks:
            out.append(case("C03", "", [("num", l, s)]))
        for a in LEX[l].forms:
            for s in (f"{a} {r.choice(LEX[l].forms)}", f"{a} {r.choice(OTHERS[l])}", f"{r.choice(PUNCT)}{a}", f"{a}{r.choice(PUNCT)}",
                      f"{r.choice(LEX[l].skip or ['and'])} {a}", f"{a} {r.choice(LEX[l].skip or ['-'])}", f"{r.randrange(50)} {a}",
                      f"{a} {r.choice(FOREIGN[l])}", f"{a}{r.choice('sxsa1_é')}"):
                out.append(case("C03", "", [("num", l, s)]))
    for l in langs(r, max(0, n - len(out))):
        L = LEX[l]
        ws = L.spell(r, L.number(r, top=r.choice([3, 6, None]))) if r.random() < .65 else L.wild(r, r.choice([1, 2, 2, 3, 4, 6]))
        x = r.random()
        i = r.choice([0, len(ws), r.randrange(len(ws) + 1)])
        if x < .06:         # something glued to one of the words
            i = r.randrange(len(ws))
            ws[i] = r.choice([ws[i] + str(r.randrange(100)), str(r.randrange(10)) + ws[i], ws[i] + "_", "_" + ws[i], ws[i] + r.choice(["s", "x", "'s", "ish", "ª", "²", "\u0663", "5th", "th", "ieth", "st", "nd", "º"]),
                              r.choice(["un", "x", "non", "№", "º"]) + ws[i], ws[i] + ws[i]])
        elif x < .25:
            ws[i:i] = [noise(r, l)]
        elif x < .4:
            ws[i:i] = [r.choice(PUNCT)]
        elif x < .55:
            ws[i:i] = [r.choice(L.skip + ["and", "-", "y", "Y", "AND"])]
        elif x < .65:
            ws[i:i] = [r.choice(["5", "0", "12", "1000", "٣", "½", "²", "1st", "10th", "first"])]
        elif x < .75:
            ws += L.spell(r, L.number(r, top=6))
        elif x < .8:
            ws[i:i] = [r.choice(FOREIGN[l])]
        elif x < .88 and len(ws) > 1:
            del ws[r.randrange(len(ws))]
        s = L.join(r, ws, lambda: gap(r))
        if r.random() < .1:
            s = r.choice([" ", "\n", "'", "-", " - ", "\xad"]) + s
        out.append(case("C03", "", [("num", l, vary(r, s))]))
    return out


# ---------------------------------------------------------------- texts for C04, C05, C07, C16, C17
def numberfree(r, l):
    pool = [lambda: noise(r, l), lambda: noise(r, l), lambda: r.choice(PUNCT), lambda: conns(r, l) if LEX[l].skip else "-",
            lambda: gap(r, .6), lambda: r.choice(SPACES), lambda: " "]
    s = ""
    for _ in range(r.randint(1, 14)):
        s += r.choice(pool)() + r.choice([" ", " ", "", gap(r, .5)])
    return s


def longtext(r, l, k):
    return " ".join(sentence(r, l, 10).strip() + r.choice([".", ",", "", "!"]) for _ in range(k))


HIDDEN = [chr(i) for i in (*range(0, 9), *range(14, 28), *range(127, 133), *range(134, 160), *range(0x200b, 0x2010), *range(0x202a, 0x202f), *range(0x2060, 0x2070))] + [
    "\ufeff", "\u061c", "\u180e", "\ufe0f", "\ufe0e", "\ufffc", "\ufffd", "\ufff9", "\ue000", "\u034f", "\u115f", "\u3164", "\U000e0020", "\U000f0000", "\U0001f600", "\uffff"]


def C04(r, n):
    out = []
    for l in LANGS:
        for w in OTHERS[l] + FOREIGN[l]:
            a = LEX[l].anyword(r)
            out.append(case("C04", "", [("parse", l, r.choice([w, f"{a} {w}", f"{w} {a}", f"{a} {w} {LEX[l].anyword(r)}"]))]))
        for p in PUNCT + SPACES:
            a, b = LEX[l].anyword(r), LEX[l].anyword(r)
            for s in (f"{a}{p}", f"{p}{a}", f"{a} {p}", f"{a}{p}{b}", f"{a} {p} {b}", p, f"cat{p}{a}", f"{a}{p}cat", f"{p}{p}{a}{p}{p}"):
                out.append(case("C04", "", [("parse", l, s)]))
        for p in HIDDEN:
            a, b = LEX[l].anyword(r), r.choice(OTHERS[l])
            for s in (p, f"{a} {p} {b}", f"{b}{p} {a}", f"{p}{b} {b}", f"{b} {p}{p} {b}", f"{a} {b}{p}"):
                out.append(case("C04", "", [("parse", l, s)]))
        for k in ((40, 120) if THOROUGH else (20,)):
            out.append(case("C04", "", [("parse", l, longtext(r, l, k))]))
    for l in langs(r, max(0, n - len(out))):
        s = numberfree(r, l) if r.random() < .25 else vary(r, sentence(r, l)) if r.random() < .9 else sentence(r, l, 40)
        out.append(case("C04", "", [("parse", l, s)]))
    return out


def C05case(s, l):
    rs = runs(s, l)
    return case("C05", "", [("parse", l, s), ("parse", l, {"ref": 0})] + [("num", l, " ".join(x)) for x in rs])


def C05(r, n):
    out = []
    for l in LANGS:
        L = LEX[l]
        for w in L.forms:
            o = r.choice(OTHERS[l])
            for s in (w, f"{o} {w} {r.choice(OTHERS[l])}", f"{w}, {L.phrase(r)} {o} {recase(r, w)}."):
                out.append(C05case(s, l))
        for k in (1, 2, 3, 5, 8, 13, 40, 100) + ((400,) if THOROUGH else ()):
            s = " ".join(L.phrase(r, top=6) + r.choice([",", ".", " " + r.choice(OTHERS[l])]) for _ in range(k))
            out.append(C05case(s, l))
        for k in (50, 120, 300, 450) + ((1100,) if THOROUGH else ()):      # many number words in a row
            out.append(C05case(" ".join(L.wild(r, k)) + r.choice(["", ".", " " + r.choice(OTHERS[l])]), l))
        for k in (5, 20, 90) if L.skip else ():      # one number with very many connectors
            s = "".join(w + " " + f"{r.choice(L.skip)} " * r.randint(0, 2 * k) for w in L.spell(r, L.number(r)) if isword(l, w))
            out.append(C05case(f"{s}{L.anyword(r)} {r.choice(OTHERS[l])}", l))
            out.append(C05case(f"{s}{r.choice(OTHERS[l])}", l))
        for k in (300, 1200):       # a number at the very end of a long text
            s = " ".join(r.choice(OTHERS[l]) for _ in range(k)) + " " + L.phrase(r) + r.choice(["", ".", " " + r.choice(OTHERS[l])])
            out.append(C05case(s, l))
    for l in langs(r, max(0, n - len(out))):
        x = r.random()
        if x < .6:
            s = sentence(r, l, odd=.1)
        elif x < .9:
            ps = [LEX[l].phrase(r, top=r.choice([3, 6, 9, None])) for _ in range(r.randint(1, 5))]
            s = (noise(r, l) + " ") * r.randint(0, 2) + "".join(
                p + r.choice([", ", ". ", " ! ", f" {noise(r, l)} ", f" {conns(r, l) if LEX[l].skip else 'x'} {noise(r, l)} "]) for p in ps)
        else:
            s = LEX[l].join(r, LEX[l].wild(r, r.randint(2, 9)))
        out.append(C05case(vary(r, s), l))
    return out


# ---------------------------------------------------------------- C06
def forced(a, b):
    return (a in "ud" and b in "udt") or (a == "t" and b in "dt") or (a != "p" and b == "h")


def C06case(l, a, g, b):
    return case("C06", "", [("parse", l, a + g + b), ("parse", l, a), ("parse", l, b)], g)


def C06(r, n):
    out = []
    cl = lambda l, w: LEX[l].words[fold(w)]["c"]
    for l in LANGS:                 # every forced pair of classes, every word on either side
        L = LEX[l]
        for a in L.forms:
            for b in r.sample(L.forms, 60 if THOROUGH else 12):
                if forced(cl(l, a), cl(l, b)):
                    out.append(C06case(l, a, " ", b))
        for g in [",", ".", ", ", " , ", ". ", " .", ",,", "...", ".,", " . , ", "!", " ! ", "; ", ":", "\n,\n", ",\xad", " / "]:
            if l == "hi":
                g = " " + g.strip() + " "
            for _ in range(6):
                out.append(C06case(l, L.phrase(r), g, L.phrase(r)))
        for o in OTHERS[l]:
            out.append(C06case(l, L.phrase(r, top=9), f" {o} ", L.phrase(r, top=9)))
    for l in langs(r, max(0, n - len(out))):
        L = LEX[l]
        x = r.random()
        if x < .4:                  # at a forced boundary
            while True:
                a = (L.spell(r, L.number(r)) if r.random() < .6 else L.wild(r, r.randint(1, 5)))
                b = (L.spell(r, L.number(r)) if r.random() < .6 else L.wild(r, r.randint(1, 5)))
                if isword(l, a[-1]) and isword(l, b[0]) and forced(cl(l, a[-1]), cl(l, b[0])):
                    break
            a, b, g = L.join(r, a), L.join(r, b), gap(r)
            if r.random() < .3:
                a = sentence(r, l, 2) + " " + a
            if r.random() < .3:
                b = b + " " + sentence(r, l, 2)
        else:
            side = lambda: (L.phrase(r) if r.random() < .5 else L.join(r, L.wild(r, r.randint(1, 4))) if r.random() < .5
                            else sentence(r, l, r.randint(1, 5)).strip())
            a, b = side(), side()
            y = r.random()
            g = r.choice([", ", ". ", ",", ".", " , ", " . "]) if y < .45 else f"{gap(r)}{noise(r, l)}{gap(r)}" if y < .8 \
                else gap(r) + " ".join(r.choice(PUNCT[:12]) for _ in range(r.randint(1, 3))) + gap(r)
            if l == "hi":
                g = " " + g.strip() + " "
        out.append(C06case(l, a, g, b))
    return out


# ---------------------------------------------------------------- C07
def C07(r, n):
    out = []

    def num(l, ws, dens):
        L = LEX[l]
        plain = [w for w in ws if isword(l, w)]
        s = plain[0]
        for w in plain[1:] + [None]:
            for _ in range(r.choice(dens)):
                k = conn(r, l)
                s += r.choice(["", " "]) + k if k == "-" else " " + k
            if w:
                s += r.choice(["", " "]) + w if s.endswith("-") else " " + w
        out.append(case("C07", "num", [("num", l, s), ("num", l, " ".join(plain))]))
    for l in ("en", "es"):
        L = LEX[l]
        for w in L.forms:
            num(l, [w], [1])
            num(l, [w, L.anyword(r)], [1])
            num(l, [L.anyword(r), w], [1, 2])
            for k in L.skip:
                for a, b in ((w, L.anyword(r)), (L.anyword(r), w)):
                    for s in (f"{a} {k} {b}", f"{a} {k}, {b}", f"{k} {a} {k} {b} {k}", f"{a} {k} {k} {b}", f"{a} {k} cat {k} {b}", f"{a} {k}."):
                        out.append(case("C07", "text", [("parse", l, s)]))
    # connectors of the other languages are ordinary words
    for l in LANGS:
        for k in {"and", "-", "y"} - set(LEX[l].skip):
            for _ in range(30):
                a, b = LEX[l].phrase(r, top=6), LEX[l].phrase(r, top=6)
                out.append(case("C07", "text", [("parse", l, f"{a} {k} {b}")]))
    while len(out) < n:
        l = r.choice(["en", "es"])
        L = LEX[l]
        if r.random() < .45:
            num(l, L.spell(r, L.number(r, top=r.choice([3, 6, None]))) if r.random() < .7 else L.wild(r, r.randint(1, 6)), [0, 0, 1, 1, 2, 3])
        else:
            s = ""
            for _ in range(r.randint(2, 9)):
                x = r.random()
                w = conn(r, l) if x < .3 else conns(r, l) if x < .45 else L.anyword(r) if x < .75 else \
                    L.phrase(r, top=6) if x < .85 else r.choice([".", ",", "!", "?"]) if x < .92 else r.choice(OTHERS[l]) \
                    if l != "en" or x < .97 else r.choice(sorted(ORDS))
                s += w + (r.choice(["", " "]) if w == "-" else gap(r, .1))
            out.append(case("C07", "text", [("parse", l, s)]))
    return out


# ---------------------------------------------------------------- C08
def C08case(f, s):
    return case("C08", "", [(f, None, s)] + [(f, l, s) for l in LANGS])


def C08(r, n):
    out = []
    for f in FN:
        for s in ("", " ", "cat", "5", "0", "?", "-", "and", "y", "five / cinco", "uno over two", "हज़ार", "\n"):
            out.append(C08case(f, s))
    for l in LANGS:
        for w in LEX[l].forms:
            out.append(C08case(r.choice(FN[:3]), w))
            out.append(C08case("parse", f"{w} {r.choice(LEX[r.choice(LANGS)].forms)}"))
    shared = sorted({w for l in LANGS for w in LEX[l].words if sum(w in LEX[m].words for m in LANGS) > 1})
    for w in shared:
        for l in LANGS:
            out.append(C08case(r.choice(FN[:3]), f"{w} {LEX[l].anyword(r)}"))
    for k in (60, 120, 300, 600, 1500) + ((4000,) if THOROUGH else ()):      # the words that decide stand late in a long text
        for _ in range(3):
            l, m = r.sample(LANGS, 2)
            plain = [w for w in OTHERS["en"] if w.isalpha() and w.lower() not in ("y", "and") and not any(isword(x, w) for x in LANGS)]
            ws = [r.choice(plain) for _ in range(k)]
            for i in sorted(r.sample(range(k // 2), 3)):
                ws[i] = LEX[l].anyword(r)
            s = " ".join(ws + [LEX[m].anyword(r) for _ in range(r.choice([3, 4, 5, 9]))])
            out.append(C08case("parse", s))
    for k in [*range(5, 80), 100, 101, 127, 128, 129, 255, 256, 257] + ([500, 1000] if THOROUGH else []):     # many words of two languages, equally many or one more
        for d in (0, 1):
            l, m = r.sample(LANGS, 2)
            ws = [LEX[l].anyword(r) for _ in range(k)] + [LEX[m].anyword(r) for _ in range(k + d)]
            r.shuffle(ws)
            out.append(C08case("parse", " ".join(ws)))
    for o in sorted(ORDS):
        out.append(C08case("parse", f"{o} {LEX[r.choice(LANGS[1:])].anyword(r)}"))
        out.append(C08case("ord", o))
    while len(out) < n:
        x = r.random()
        f = r.choice(["parse", "parse", "num", "ord"])
        if x < .35:          # near ties between two or three languages
            ls = r.sample(LANGS, r.choice([2, 2, 3, 4, 5]))
            k = r.choice([r.randint(1, 5), r.randint(1, 5), r.randint(1, 5), r.randint(1, 5), r.randint(6, 40)])
            ws = [LEX[l].anyword(r) for l in ls for _ in range(max(0, k + r.choice([-1, 0, 0, 0, 1])))]
            if r.random() < .3 and ws:
                ws += [r.choice(ws)] * r.randint(1, 4)       # repetitions count
            if r.random() < .3:
                ws += [r.choice(["-", "and", "y", "And", "first", "twentieth"]) for _ in range(r.randint(1, 3))]
            ws += [r.choice(OTHERS["en"]) for _ in range(r.choice([0, 0, 1, 3]))]
            r.shuffle(ws)
            s = "".join(w + r.choice([" ", " ", ", ", "-", "  "]) for w in ws)
        elif x < .55:
            s = LEX[r.choice(LANGS)].phrase(r)
        elif x < .75:
            s = sentence(r, r.choice(LANGS))
        elif x < .8:
            s = shared and " ".join(r.choice(shared) for _ in range(r.randint(1, 4)))
        elif x < .9:
            l = r.choice(LANGS)
            m = r.choice([l, l, r.choice(LANGS)])
            f, s = "frac", LEX[l].phrase(r, top=6) + r.choice([" / ", "/", " over ", " by ", " divided by "]) + LEX[m].phrase(r, top=6)
        else:
            l = r.choice(LANGS)
            s = sentence(r, l, 2) + " " + sentence(r, r.choice(LANGS), 2)
        if f == "ord" and any(odd_ordinal(t) for t in re.split(r"\W+", s)):
            continue
        out.append(C08case(f, vary(r, s)))
    return out


# ---------------------------------------------------------------- C09
def C09(r, n):
    out = []

    def add(l, f, ws, canon=None):
        L = LEX[l]
        base = [w for w in ws]
        def variant():
            s = r.choice(["", "", gap(r, .8)])
            for i, w in enumerate(base):
                if i:
                    s += "" if (w == "-" or base[i - 1] == "-") and l != "hi" and r.random() < .5 else gap(r, .5)
                v = respell(r, w) if w != "-" else w
                if f == "num" and l != "hi" and r.random() < .1:
                    j = r.randrange(1, len(v) + 1)
                    v = v[:j] + r.choice("'’") + v[j:]
                s += v
            return s + r.choice(["", "", gap(r, .8)])
        a = " ".join(base) if r.random() < .5 else variant()
        b = variant()
        if r.random() < .25 and not set("'’") & set(a + b):      # no language given
            l = None
        out.append(case("C09", "", [(f, l, a), (f, l, b)]))
    for l in LANGS:
        L = LEX[l]
        for w in L.forms:
            add(l, "num", [w])
            add(l, r.choice(["num", "parse", "ord"]), [w, L.anyword(r)])
            for v in {w.upper(), w.capitalize(), w.lower(), unicodedata.normalize("NFD", w), fold(w), w.replace("-", "\xad"), w[:1] + "\xad" + w[1:],
                      unicodedata.normalize("NFC", w), w.title(), w.swapcase()}:
                out.append(case("C09", "", [("num", l, w), ("num", l, v)]))
                out.append(case("C09", "", [("parse", l, w), ("parse", l, v)]))
                out.append(case("C09", "", [("ord", l, w), ("ord", l, v)]))
                f = r.choice(["parse", "num", "ord"])
                out.append(case("C09", "", [(f, None, w), (f, None, v)]))
        for m in range(0x300, 0x370):           # every combining mark
            w = r.choice([w for w in L.forms if fold(w).isalpha() and len(w) > 2])
            i = r.randrange(1, len(w))
            f = r.choice(["num", "parse", "ord"])
            out.append(case("C09", "", [(f, l, w), (f, l, w[:i] + chr(m) + w[i:])]))
        for sp in SPACES + [" ", "  ", "      "]:
            a = [L.anyword(r) for _ in range(3)]
            for f in ("num", "parse", "ord"):
                out.append(case("C09", "", [(f, l, " ".join(a)), (f, l, sp.join(a))]))
                ph = L.spell(r, L.number(r))
                out.append(case("C09", "", [(f, l, " ".join(ph)), (f, l, sp + sp.join(ph) + sp)]))
    for o in sorted(ORDS):
        for v in (o.upper(), o.capitalize(), recase(r, o), respell(r, o)):
            out.append(case("C09", "", [("ord", "en", o), ("ord", "en", v)]))
            out.append(case("C09", "", [("parse", "en", o), ("parse", "en", v)]))
    seps = ["divided by", "over", "by", "/"]
    while len(out) < n:
        l = r.choice(LANGS)
        L = LEX[l]
        x = r.random()
        if x < .12:
            s = L.phrase(r, top=6) + " " + r.choice(seps) + " " + L.phrase(r, top=6)
            v = recase(r, s) if r.random() < .6 else "".join(recase(r, w) for w in re.split(r"(\s+)", s))
            if unclear(v) or unclear(s):
                continue
            out.append(case("C09", "frac", [("frac", l, s), ("frac", l, v)]))
        else:
            ws = L.spell(r, L.number(r, top=r.choice([3, 6, None]))) if r.random() < .75 else L.wild(r, r.randint(2, 5))
            f = r.choice(["num", "num", "parse", "ord"])
            if l == "en" and f != "num" and r.random() < .5 and isword(l, ws[-1]) and fold(ws[-1]) != "zero":
                ws[-1] = ordinal_word(ws[-1])
            add(l, f, ws)
    return out


# ---------------------------------------------------------------- C10
def unclear(s):
    """unspecified: 'divided by' spelled with a dotted capital or a dotless i"""
    s = s.replace("i\u0307", "İ")
    return re.search("d[iıİ]v[iıİ]ded by", s, re.I) is not None and re.search("d[iI]v[iI]ded by", s, re.I | re.A) is None \
        or any("İ" in m or "ı" in m for m in re.findall("d.v.ded by", s, re.I))


def C10(r, n):
    out = []
    seps = ["divided by", "over", "by", "/"]

    def add(l, s):
        s2 = s.lower() if s.isascii() else s
        cs = [("frac", l, s)]
        if s.strip():
            for sep in seps:
                m = re.search(re.escape(sep), s, re.I)
                if m:
                    cs += [("num", l, s[:m.start()]), ("num", l, s[m.end():])]
                    break
        out.append(case("C10", "", cs))
    for l in LANGS:
        for s in ["", " ", "/", "over", "by", "divided by", "//", "1//2", "1/2/3", "1 over 2 over 3", "1 by 2 over 3", "1 over 2 by 3", "1 / 2 over 3",
                  "1 over 2 / 3", "1 divided by 2 by 3", "1 by 2 divided by 3", "divided", "1 divided 2", "1divided by2", "1by2", "1over2", "0/0", "5/0",
                  "1 divided  by 2", "1 divided\nby 2", "1 dividedby 2", "1 divided-by 2", "1 divide by 2", "1 ÷ 2", "1⁄2", "1∕2", "1:2", "1 per 2", "1 out of 2", "1 upon 2", "1 over by 2",
                  "1 divided by by 2", "1 o ver 2", "1 b y 2", "1 \\ 2", "1 ／ 2", "1 over\xad 2", "1 o\xadver 2", "1 divided\xa0by 2", "1 sobre 2", "1 entre 2",
                  "-1/2", "1/-2", "1.5/2", "1 /2", "\n1/2\n", "½", "1/½", "010/020", "overby", "1 overby 2", "4/2", "2/4", "100/10"]:
            add(l, s)
        L = LEX[l]
        for w in L.forms:
            add(l, f"{w} {r.choice(seps)} {L.anyword(r)}")
            add(l, f"{L.anyword(r)}{r.choice([' / ', '/', ' /', '/ '])}{w}")
            add(l, f"{w} {r.choice(['cat', 'and', 'zzz', w])} over {w}")
            add(l, f"{w}{r.choice(['', '', ' '])}{r.choice(seps)}{r.choice(['', '', ' '])}{L.anyword(r)}")        # glued to the words
        for m in PUNCT + ["'", "-", "+", "=", "%", "€", "№", "\u200b", "\xad"]:
            a, b = L.phrase(r, top=3), L.phrase(r, top=3)
            for x, y in (("5", "7"), (a, b)):
                add(l, r.choice([f"{m}{x}", f"{x}{m}", f"{m} {x}", f"{x} {m}", f"{m}{x}{m}"]) + " " + r.choice(seps) + f" {y}")
                add(l, f"{x} {r.choice(seps)} " + r.choice([f"{y}{m}", f"{y} {m}"]))
                add(l, f"{x} {r.choice(seps)} {m}{y}")
    while len(out) < n:
        l = r.choice(LANGS)
        L = LEX[l]
        side = lambda: (L.phrase(r) if r.random() < .6 else str(r.randrange(10 ** r.randint(1, 25))) if r.random() < .5 else
                        r.choice([L.join(r, L.wild(r, r.randint(1, 4))), noise(r, l), "", " ", L.phrase(r) + " " + noise(r, l),
                                  L.phrase(r, top=3) + " " + L.phrase(r, top=3), noise(r, l) + " " + L.phrase(r), r.choice(LEX[r.choice(LANGS)].forms)]))
        s = side()
        for _ in range(r.choice([1, 1, 1, 1, 1, 2, 3])):
            sep = r.choice(seps)
            s += (gap(r, .1) + recase(r, sep) + gap(r, .1) if sep != "/" and r.random() < .9 or r.random() < .5 else sep) + side()
        s = vary(r, s)
        if r.random() < .05:            # letters whose lower case is longer, or that fold to i
            s = s.replace("i", r.choice("İıĭ")).replace("I", "İ")
        if unclear(s):
            continue
        add(l, s)
    return out


# ---------------------------------------------------------------- C11
BADLANGS = ["fr", "de", "EN", "En", "en-US", "en_US", "", " ", "en ", " en", "e", "eng", "english", "English", "ES", "root", "pt", "zh", "hin", "sv", "__init__",
            "en.py", "../data/en", "en\n", "xx", "es-419", "ua", "ru-RU", "None", "none", "number_parser", "ar", "ja", "it", "nl"]


def C11(r, n):
    out = []
    T = lambda f, l, s: out.append(case("C11", "total", [(f, l, s)]))
    odd = [chr(c) for c in range(sys.maxunicode + 1) if unicodedata.category(chr(c)) in ("Nd", "Nl", "No")]
    if not THOROUGH:
        # every numeric character goes through some function in some language, and the first of each block through all
        pass
    for i, c in enumerate(odd):
        l = (LANGS + [None])[i % 6]
        f = FN[(i // 6) % 4]
        for s in (c, f" {c}\n", f"1{c}", f"{c} {c}"):
            T(r.choice(FN) if s != c else f, l, s)
        T("num", l, c)
        T("frac", l, f"{c}/{c}")
    cats = {}
    for c in range(sys.maxunicode + 1):
        cats.setdefault(unicodedata.category(chr(c)), []).append(chr(c))
    for cat in sorted(cats):
        for c in r.sample(cats[cat], min(len(cats[cat]), 60 if THOROUGH else 16)):
            for s in (c, f"one{c}two", f"{c} uno {c}", c * 7):
                T(r.choice(FN), r.choice(LANGS + [None]), s)
    for c in list(map(chr, range(0, 0x180))) + list(map(chr, range(0x300, 0x370))) + list(map(chr, range(0x900, 0x980))) + list(map(chr, range(0x2000, 0x2070))):
        for f in FN:
            T(f, r.choice(LANGS + [None]), r.choice([c, f"{c}{c}", f"five{c}", f"{c}five", f"five {c} six", f"/{c}"]))
    for l in LANGS + [None]:
        L = LEX[l or "en"]
        for f in FN:
            for s in ["", " ", "\x00", "one\x00two", "'" * 50, "-" * 300, "and " * 300, "." * 500, " " * 1000, "\u0301" * 200, "e\u0301" * 200, "9" * 4300, "0" * 4000,
                      "1 " * 300, ("hundred " * 100), (L.forms[0] + " ") * 400, "/" * 100, "over " * 100, "(" * 300 + ")" * 300, "a" * 20000, "\ud800", "one \udfff two",
                      "\U0010ffff", "\ufeffone", "\u202eone", "1\u20e3", "-1", "+1", "1_000", "1e3", "0x10", "infinity", "nan", "-0", "1.0", "True", "None", "%s %d {} {0}", "\\", "$1 \\1",
                      "[", "(?P<x>", "*", "a" * 60 + "!", "five " * 40 + "!", " " * 80 + "x", "1" * 60 + "x", "-" * 60 + "x", "a" * 60 + " " + "5" * 60 + "?", "one, " * 40 + "\xad!", "é" * 60 + ".",
                      ("x" * 30 + "-") * 12 + "/", "1/0", "one/zero", "ten thousand million billion trillion quadrillion quintillion sextillion " * 30]:
                T(f, l, s)
        for e in L.exps[:12]:
            T("num", l, (L.cls["p"][e][0] + " ") * 60)
            T("parse", l, " ".join(reversed([L.cls["p"][x][0] for x in L.exps])) * 3)
            T("num", l, " ".join(reversed([L.cls["p"][x][0] for x in L.exps])))
    for bad in BADLANGS:
        for f in FN:
            for s in ("five", "", " ", "12", "cat", "one/two", "1/2", "first", "five over cat", "!", "5 over two", "no separator", "\xad"):
                out.append(case("C11", "lang", [(f, bad, s)]))
    while len(out) < n:
        l = r.choice(LANGS + [None])
        x = r.random()
        if x < .35:
            s = sentence(r, l or r.choice(LANGS), odd=.4)
        elif x < .5:
            s = "".join(r.choice(r.choice(list(cats.values()))) for _ in range(r.randint(1, 12)))
        elif x < .6:                    # the same few words and marks again and again
            few = [LEX[l or "en"].anyword(r), r.choice(LEX[l or "en"].cls["u"][0]), r.choice(["and", "-", "y", ".", ",", "/", "0", "over"])]
            s = r.choice(["", " ", "."]) + r.choice([" ", " ", "", ","]).join(r.choice(few) for _ in range(r.randint(1, 7)))
        elif x < .8:
            s = " ".join(r.choice(["".join(r.choice(r.choice(list(cats.values()))) for _ in range(r.randint(1, 3))), LEX[r.choice(LANGS)].anyword(r), "/", "over", "-"])
                         for _ in range(r.randint(1, 8)))
        else:
            s = LEX[l or "en"].join(r, LEX[l or "en"].wild(r, r.randint(1, 30)))
        T(r.choice(FN), l, s)
    return out


# ---------------------------------------------------------------- C13
ALPHA = {"en": "abcdefghijklmnopqrstuvwxyz", "es": "abcdefghijlmnopqrstuvxyzáéíóúñ", "hi": "अआइईउऊएऐओऔकखगघचछजझटठडढतथदधनपफबभमयरलवशषसहािीुूेैोौंृ़्",
         "ru": "абвгдежзийклмнопрстуфхцчшщъыьэюя", "uk": "абвгґдеєжзиіїйклмнопрстуфхцчшщьюяʼ"}


def edits(w, al):
    for i in range(len(w) + 1):
        if i < len(w):
            yield w[:i] + w[i + 1:]
            for c in al:
                yield w[:i] + c + w[i + 1:]
            if i + 1 < len(w):
                yield w[:i] + w[i + 1] + w[i] + w[i + 2:]
        for c in al:
            yield w[:i] + c + w[i:]


def C13(r, n):
    out = []
    seen = set()

    def add(f, l, w):
        if (f, l, w) not in seen:
            seen.add((f, l, w))
            out.append(case("C13", "", [(f, l, w)]))
    for l in LANGS:
        for w in LEX[l].forms:
            for f in ("num", "parse"):
                add(f, l, w)
                add(f, l, fold(w))
                add(f, l, w.upper())
            add("num", l, unicodedata.normalize("NFD", w))
        for m in LANGS:
            if m != l:
                for w in LEX[m].forms:
                    if not odd_ordinal(w):
                        add("num", l, w)
                        if not (m == "en" and fold(w) in ORDS):
                            add("parse", l, w)
        for w in OTHERS[l]:
            add("num", l, w)
            add("parse", l, w)
        for a in LEX[l].skip + ["and", "-", "y"]:
            add("num", l, a)
            add("parse", l, a)
        for o in ORDS:
            add("num", l, o)
            add("parse", l, o)
    # every word with one letter more or less at its end or start, and with the endings of other words
    ends = {"en": "s es th ths ty teen ieth st nd rd ty-s 's fold ish er ly e y".split(), "es": "s es a o os as e n avo ava avos ésimo ita ito".split(), "hi": "ों ें वाँ वीं वां ा ी े".split(),
            "ru": "а я и ы у ю е о ом ем ой ей ам ями ах ый ая ое ых ого надцать дцать сот ста ть".split(), "uk": "а я и і у ю е о ом ем ою ей ам ями ах ий а є их ого надцять дцять сот ста ть".split()}
    for l in LANGS:
        for w in LEX[l].forms:
            for e in {w[1:], w[:-1], w[:-2], w[:-1] + "y", *(w + c for c in ALPHA[l]), *(w + x for x in ends[l]), *(c + w for c in ALPHA[l][::5]), *(w[:-1] + x for x in ends[l][:6])}:
                if e.strip() and not odd_ordinal(e):
                    add("num", l, e)
    for w in extra_words():
        for l in LANGS:
            if not odd_ordinal(w):
                add("num", l, w)
                add("parse", l, w)
    # letters that look or count as the same elsewhere
    look = {"а": "a", "о": "o", "е": "e", "с": "c", "р": "p", "і": "i", "х": "x", "у": "y", "a": "а", "o": "о", "e": "е", "c": "с", "p": "р", "i": "і", "s": "ſ", "x": "х", "y": "у", "и": "u", "т": "m"}
    struck = {"l": "ł", "o": "ø", "d": "đ", "h": "ħ", "t": "ŧ", "b": "ƀ", "i": "ı", "n": "ŋ", "a": "ɑ", "e": "ə", "u": "ʉ", "z": "ƶ", "s": "ß", "ae": "æ", "oe": "œ", "c": "ↄ", "y": "ɏ", "v": "ʋ",
              "е": "є", "и": "ы", "э": "е", "і": "ı", "г": "ґ", "ъ": "ь", "ь": "", "к": "қ", "ж": "җ", "щ": "ш", "0": "o"}
    wide = lambda c: chr(ord(c) + 0xFEE0) if "!" <= c <= "~" else c
    bold = lambda c: chr(0x1D41A + ord(c) - 97) if "a" <= c <= "z" else c
    for l in LANGS:
        for w in LEX[l].forms:
            es = {"".join(map(wide, w)), "".join(map(bold, w)), w[:-1] + wide(w[-1]), w.replace("fi", "ﬁ"), w + "²", w + "①", w + "\u200d", "\u200b" + w, w + "_", "_" + w}
            i = r.randrange(len(w))
            es.add(w[:i] + look.get(w[i], w[i]) + w[i + 1:])
            es.add("".join(look.get(c, c) for c in w))
            es.add(w.replace("s", "ſ", 1))
            for a, b in struck.items():
                if a in w:
                    es.add(w.replace(a, b))
                    if w.count(a) > 1:
                        es.add(w.replace(a, b, 1))
            for e in es:
                if fold(e) not in LEX[l].words and not odd_ordinal(e):
                    add("num", l, e)
                    if "²" not in e and fold(e) not in ORDS:
                        add("parse", l, e)
    near = [(l, e) for l in LANGS for w in LEX[l].forms for e in set(edits(w, ALPHA[l])) if not odd_ordinal(e)]
    r.shuffle(near)
    for l, e in near[: n if THOROUGH else max(0, n - len(out))]:
        add("num", l, e)
        if len(seen) % 4 == 0 and e.strip() and fold(e) not in ORDS:
            add("parse", l, e)
    # compounds of two words without white space are not words
    for l in LANGS:
        for _ in range(n // 40):
            add("num", l, LEX[l].anyword(r) + LEX[l].anyword(r))
    return out


def extra_words():
    """number words of the languages that are not supported, from the shipped data"""
    import ast, glob, os
    from common import REPO
    out = set()
    for p in sorted(glob.glob(os.path.join(REPO, "number_parser", "data", "*.py"))):
        try:
            src = open(p, encoding="utf8").read()
            info = ast.literal_eval(src.split("=", 1)[1].strip()) if "=" in src else {}
            ws = [w for k in info if isinstance(info[k], dict) for w in info[k]]
        except Exception:
            continue
        out.update(sorted(ws)[:: max(1, len(ws) // 12)])
    out.update("""zilch milliard billiard trillions nulo bn mn mln млн млрд тыс lac arab kharab mitad decena centena millar millares pico десятки сотни сотнями тысячник миллионный
i ii iii iv vi vii viii ix xi xii xl xc cd cm mm MMXX Ⅳ Ⅻ ⅯⅮ ㉑ ㊿ 〇 壹 贰 拾 佰 仟 萬 億 兆 ½ ⅓ ⅔ ¼ ¾ segundo último first second zeroth oneth twoth fiveth nineth twelveth twentyth
nil nought naught oh nada null dozen dozens score couple pair half quarter gross single double triple quadruple myriad lakh crore googolplex umpteen fourty ninty fourtheen
eightteen hundread thousend milion bilion trillon media medio docena par cuarto doble ambos ambas primero primera segundo tercero veintiun ciento cientos millar millares décimo пара дюжина полтора
полтораста половина сотня десяток первый вторая третий двое трое четверо обе оба тьма нуль десятеро півтора пів десяток дюжина сотня перший другий третій двоє троє четверо обидва आधा डेढ़ ढाई पाव दर्जन
सवा पौना पहला दूसरा तीसरा दोनों जोड़ा शून्यता नील पद्म शंख""".split())
    return sorted(w for w in out if w.strip())


# ---------------------------------------------------------------- C15
def brink(r, l):
    """words whose value lies just below, at or just above a scale, and then that scale: S = total + group with the
    total built down from the scale and the group filled in odd ways ("nine hundred ninety nine thousand ten hundred million")"""
    L = LEX[l]
    ex = [e for e in L.exps if e <= 15]
    e = r.choice(ex)
    lower = [x for x in ex if x < e]
    ws = []
    try:
        if lower:
            b = r.choice(lower)
            c = 10 ** (e - b) + r.choice([-1, -1, -1, -2, -10, -100, 0, 1])
            ws = (L.spell(r, c) if c > 0 else []) + [L.form(r, "p", b)]
    except (KeyError, IndexError):
        ws = [L.anyword(r) for _ in range(r.randint(1, 4))]
    h = r.random()
    small = [L.form(r, c, k) for c, k in [(c, r.choice(sorted(L.cls[c]))) for c in r.choices("udthp", k=r.randint(0, 3)) if L.cls[c]]]
    hund = [L.form(r, "p", 2)] if 2 in L.cls["p"] else [L.form(r, "h", r.choice(sorted(L.cls["h"])))] if L.cls["h"] else []
    thou = [L.form(r, "p", 3)]
    ten = [L.form(r, "d", 10)] if 10 in L.cls["d"] else []
    tail = r.choice([ten + hund, hund + hund, ten + thou, thou, small, small + hund, ten + hund + small, thou + hund, [L.form(r, "u", 1)]])
    ws = [w for w in ws if isword(l, w)] + tail + [L.form(r, "p", r.choice([e, e, e] + ex))]
    if r.random() < .4:
        ws += [L.anyword(r) for _ in range(r.randint(1, 3))]
    return ws


def C15case(r, l, ws):
    s = LEX[l].join(r, ws)
    return case("C15", "", [(r.choice(["parse", "parse", "num"]), l, s)])


def C15(r, n):
    out = []
    for l in LANGS:         # many words in a row
        for k in (40, 100, 200, 450, 700) + ((2000,) if THOROUGH else ()):
            for _ in range(3):
                ws = LEX[l].wild(r, k)
                out.append(case("C15", "", [("parse", l, " ".join(ws))]))
                out.append(case("C15", "", [("num", l, " ".join(ws))]))
    for l in langs(r, n - len(out)):
        L = LEX[l]
        k = r.choice([2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9, 12, 20])
        x = r.random()
        if x < .38:
            ws = L.wild(r, k)
        elif x < .5:
            ws = brink(r, l)
        elif x < .75:       # few scales, so that their order matters
            ex = r.sample(sorted(L.cls["p"]), min(3, len(L.cls["p"])))
            ws = [L.form(r, "p", r.choice(ex)) if r.random() < .45 else L.anyword(r) for _ in range(k)]
        else:
            ws = [w for _ in range(r.randint(1, 3)) for w in L.spell(r, L.number(r, top=r.choice([3, 6, 9, None]))) if isword(l, w)]
            if r.random() < .6 and len(ws) > 1:
                i, j = r.randrange(len(ws)), r.randrange(len(ws))
                ws[i], ws[j] = ws[j], ws[i]
            if r.random() < .3:
                ws.insert(r.randrange(len(ws) + 1), L.anyword(r))
        if L.skip and r.random() < .2 and len(ws) > 1:
            ws.insert(r.randrange(1, len(ws)), r.choice(L.skip))
        out.append(C15case(r, l, ws))
    return out


# ---------------------------------------------------------------- C16
def C16(r, n):
    out = []
    for l in LANGS:
        L = LEX[l]
        sp = ["", " ", "  ", "\n", "\t ", "\xa0", " \n "]
        for a in sp:
            for b in sp:
                w = L.phrase(r, top=6)
                for p in (",", ".", "cat", r.choice(OTHERS[l])):
                    if l == "hi" and (not a or not b):
                        continue
                    if p not in ",." and not a:
                        continue
                    out.append(case("C16", "", [("parse", l, f"{w}{a}{p}{b}{L.phrase(r, top=6)}")]))
                    out.append(case("C16", "", [("parse", l, f"{a}{w} {p} {L.phrase(r, top=6)}{b}")]))
                    out.append(case("C16", "", [("parse", l, f"cat{a or ' '}{w}{b or ' '}dog{a or ' '}{p}{b}{w}")]))
                    out.append(case("C16", "", [("parse", l, f"cat{p if p in ',.' else ' '}{a}{w} {L.anyword(r)}{a or ' '}{L.anyword(r)}{b}.")]))
                    if l == "en":
                        o = r.choice(sorted(ORDS))
                        out.append(case("C16", "", [("parse", l, f"{o}{a or ' '}{p}{b or ' '}{o}{a}.")]))
        for k in (10, 40):
            out.append(case("C16", "", [("parse", l, longtext(r, l, k))]))
        for k in (150, 400, 700):        # long texts without a stop
            for _ in range(2):
                sp1 = r.choice(["  ", " \n", "\t", "\xa0 "])
                out.append(case("C16", "", [("parse", l, "".join((r.choice(OTHERS[l]) if r.random() < .85 else L.phrase(r, top=3)) + r.choice([" ", sp1]) for _ in range(k)) + L.phrase(r))]))
    for l in langs(r, max(0, n - len(out))):
        x = r.random()
        if x < .5:
            s = sentence(r, l, odd=.6)
        else:
            s = gap(r, .8) if r.random() < .2 else ""
            for _ in range(r.randint(1, 8)):
                y = r.random()
                w = LEX[l].phrase(r, top=6) if y < .4 else LEX[l].anyword(r) if y < .55 else r.choice(OTHERS[l]) if y < .75 else \
                    r.choice(sorted(ORDS)) if l == "en" and y < .83 else r.choice([",", "."]) if y < .95 else conns(r, l) if LEX[l].skip else "x"
                s += w + (r.choice(["", " ", gap(r, .8)]) if w in ",." or r.random() < .15 else gap(r, .5))
        out.append(case("C16", "", [("parse", l, s)]))
    return out


# ---------------------------------------------------------------- C17
ND = {}
for _c in range(sys.maxunicode + 1):
    if unicodedata.category(chr(_c)) == "Nd":
        ND.setdefault(_c - unicodedata.decimal(chr(_c)), []).append(chr(_c))
SCRIPTS = [sorted(v, key=unicodedata.decimal) for v in ND.values() if len(v) == 10]


def digits(r, k, script=None):
    sc = script or (SCRIPTS[0] if r.random() < .5 else r.choice(SCRIPTS))
    if r.random() < .05:
        return "".join(r.choice(r.choice(SCRIPTS)) for _ in range(k))
    return "".join(r.choice(sc) for _ in range(k))


def C17(r, n):
    out = []
    N = lambda f, l, s: out.append(case("C17", "num", [(f, l, s)]))
    for sc in SCRIPTS:
        for l in LANGS + [None]:
            s = digits(r, r.randint(1, 12), sc)
            N("num", l, s)
            N("ord", l, s)
        for d in sc:
            N("num", r.choice(LANGS), d)
            N("ord", r.choice(LANGS), d)
    for k in (1, 2, 3, 5, 9, 10, 15, 16, 17, 18, 19, 20, 21, 30, 40, 64, 100, 308, 309, 310, 400, 1000, 2000, 4000, 4299, 4300):
        for s in ("9" * k, "1" + "0" * (k - 1), "0" * k, digits(r, k), "0" * (k - 1) + "7", str(2 ** min(64, 3 * k))):
            N("num", r.choice(LANGS + [None]), s)
            N("ord", r.choice(LANGS + [None]), s)
    for k in (100, 3000, 6000, 20000):
        for sp in (" ", "\n", "\u3000"):
            for f in ("num", "ord"):
                N(f, r.choice(LANGS + [None]), sp * k + digits(r, 5))
                N(f, r.choice(LANGS + [None]), digits(r, 5) + sp * k)
    for b in (31, 32, 53, 63, 64, 127, 128):
        for d in (-1, 0, 1):
            N("num", r.choice(LANGS), str(2 ** b + d))
    for s0 in SPACES:
        for l in LANGS:
            N("num", l, s0 + digits(r, 4) + s0)
            N("ord", l, digits(r, 4) + s0)
    mixes = ["-5", "+5", "5.0", "1,000", "1 000", "1_000", "1e3", "5th", "1st", "#5", "5%", "$5", "(5)", "5!", "5.", ",5", "0x5", "5a", "a5", "5 5", "1/2", "5\u0301", "5'", "'5'", "1'000",
             "5-", "5 -", "- 5", "5 and", "5½", "5²", "½5", "٣٫٥", "5\u20e3", "\u200b5", "5\xad6", "\xad5", "5:30", "5 five", "five 5", "5five", "twenty 5", "5 hundred", "5 y 5", "५ सौ", "2 тысячи"]
    hidden = "\u200b\u200c\u200d\u200e\u200f\u202a\u202c\u2060\u2066\u2069\ufeff\u061c\u180e\ufe0f\u034f\u0000\u007f\u0085x"
    mixes += [x for c in hidden[:-2] for x in (c + "5", "5" + c, "1" + c + "2", c + "12" + c)]
    for l in LANGS:
        for s in mixes:
            out.append(case("C17", "mix", [("num", l, s)]))
    while len(out) < n:
        l = r.choice(LANGS)
        L = LEX[l]
        x = r.random()
        if x < .3:
            s = gap(r, .5) * r.choice([0, 0, 1]) + "0" * r.choice([0, 0, 0, 1, 3]) + digits(r, r.choice([1, 2, 3, 4, 7, 12, 20, 50])) + gap(r, .5) * r.choice([0, 0, 1])
            N(r.choice(["num", "num", "ord"]), r.choice(LANGS + [None]), s)
        elif x < .45:
            d = digits(r, r.randint(1, 6))
            s = r.choice([f"{d} {L.phrase(r)}", f"{L.phrase(r)} {d}", f"{d}{r.choice(PUNCT)}", f"{r.choice(PUNCT)}{d}", f"{d}{r.choice(PUNCT + [' '])}{digits(r, 2)}",
                          f"{d}{L.anyword(r)}", f"{d} {noise(r, l)}", f"{L.anyword(r)} {d} {L.anyword(r)}"])
            out.append(case("C17", "mix", [("num", l, s)]))
        else:
            s = ""
            for _ in range(r.randint(1, 9)):
                y = r.random()
                w = digits(r, r.choice([1, 1, 2, 3, 4, 8, 20])) if y < .4 else L.phrase(r, top=6) if y < .6 else L.anyword(r) if y < .75 else noise(r, l) \
                    if y < .85 else r.choice(PUNCT) if y < .95 else r.choice(L.skip or ["x"])
                s += w + (gap(r, .1) if r.random() < .85 else "" if w in PUNCT else " ")
            out.append(case("C17", "text", [("parse", l, s)]))
    return out


# ---------------------------------------------------------------- full conformance
def FULL(r, n):
    out = []
    for l in langs(r, n):
        f = r.choice(["parse", "parse", "num", "ord"])
        s = sentence(r, l, odd=.3) if r.random() < .7 else vary(r, LEX[l].phrase(r))
        if any(odd_ordinal(t) for t in tokens(s, l)):
            continue
        out.append(case("FULL", "", [(f, l if r.random() < .8 else None, s)]))
    return out


GENS = {k: v for k, v in globals().items() if re.fullmatch(r"C\d\d|FULL", k)}
