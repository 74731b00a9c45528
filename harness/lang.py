"""Input material for the generators: spellings, words, sentences.  Nothing here decides a
verdict; expected values are computed by the specification."""
import json, re, unicodedata
from common import VOCAB_FILE, LANGS, fold

V = json.load(open(VOCAB_FILE))
IRREGULAR = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth",
             "nine": "ninth", "twelve": "twelfth"}
SPACES = ["\t", "\n", "\r", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\xa0", "\u1680", "\u2000",
          "\u2003", "\u2009", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000", "\r\n"]


def val(ent):
    return int("".join(map(str, reversed(ent["d"]))) or "0") * 10 ** ent["e"]


class Lex:
    def __init__(self, l):
        self.l, v = l, V[l]
        self.long = v["long"]
        self.skip = v["skip"]
        self.cls = {c: {} for c in "udthp"}      # class -> value or exponent -> forms
        self.words = v["words"]
        self.forms = []
        for k in sorted(v["words"]):
            e = v["words"][k]
            key = e["e"] if e["c"] == "p" else val(e)
            self.cls[e["c"]].setdefault(key, []).extend(v["forms"][k])
            self.forms += v["forms"][k]
        self.exps = sorted((e for e in self.cls["p"] if e > 2), reverse=True)
        self.turn = {}

    def form(self, r, c, key):
        """a form of the word; the forms take turns so that all of them get used"""
        fs = self.cls[c][key]
        i = self.turn.get((c, key), 0)
        self.turn[c, key] = i + 1 + r.randrange(len(fs))
        return fs[i % len(fs)]

    # ---- standard spellings as lists of words (connectors included)
    def small(self, r, n):
        """1..99"""
        for c in "ud":
            if n in self.cls[c]:
                return [self.form(r, c, n)]
        t = n - n % 10
        if t not in self.cls["t"]:
            raise KeyError(n)
        w = [self.form(r, "t", t)]
        if n % 10:
            if self.l == "en" and r.random() < .6:
                w.append("-")
            if self.l == "es" and r.random() < .8:
                w.append("y")
            w.append(self.form(r, "u", n % 10))
        return w

    def sub1000(self, r, n, bare=.15):
        w = []
        h = n // 100
        if h:
            if h * 100 in self.cls["h"]:
                w.append(self.form(r, "h", h * 100))
            else:
                if h > 1 or r.random() > bare:
                    w.append(self.form(r, "u", h))
                w.append(self.form(r, "p", 2))
        if n % 100:
            if h and self.l == "en" and r.random() < .5:
                w.append(r.choice(["and", "and", "And", "-"]))
            w += self.small(r, n % 100)
        return w

    def spell(self, r, n, bare=.15, exps=None):
        if n == 0:
            return [self.form(r, "u", 0)]
        w = []
        for e in (self.exps if exps is None else exps):
            q = n // 10 ** e
            if not q:
                continue
            if q > 1 or r.random() > bare:
                w += self.spell(r, q, bare, [3]) if self.long and e >= 6 else self.sub1000(r, q, bare)
            w.append(self.form(r, "p", e))
            n %= 10 ** e
        if n:
            if w and self.l == "en" and n < 100 and r.random() < .4:
                w.append("and")
            w += self.sub1000(r, n, bare)
        return w

    def number(self, r, top=None, zero=True):
        """a random nameable number, of any magnitude"""
        if zero and r.random() < .03:
            return 0
        exps = [e for e in self.exps if top is None or e <= top]
        k = r.choice([0, 0, 1, 1, 2, 3, min(8, len(exps))])
        n, bound = 0, None
        for e in sorted(r.sample(exps, min(k, len(exps))), reverse=True) + [0]:
            cap = 10 ** 6 if self.long and e >= 6 else 1000
            if bound is not None:
                cap = min(cap, 10 ** (bound - e))
            if e == 0 and n and r.random() < .3:
                break
            n += r.choice([1, r.randrange(1, cap), r.randrange(1, min(cap, 100)), r.choice([10, 100, 20, 19, 90, 99, 200, 900, 999, 101, 110]) % cap or 1]) * 10 ** e
            bound = e
        return n

    def sayable(self, n):
        """can n be named (coefficients within range)?"""
        for e in self.exps:
            q, n = divmod(n, 10 ** e)
            if q >= (10 ** 6 if self.long and e >= 6 else 1000):
                return False
        return True

    def phrase(self, r, n=None, **k):
        while n is None:
            n = self.number(r, **k)
            if not self.sayable(n):
                n = None
        return self.join(r, self.spell(r, n))

    def join(self, r, words, space=None):
        """words and connectors; a hyphen may be written without white space (not in Hindi)"""
        s = ""
        for i, w in enumerate(words):
            if i:
                sp = " " if space is None else space()
                if (w == "-" or words[i - 1] == "-") and r.random() < .8:
                    sp = ""
                s += sp
            s += w
        return s

    def anyword(self, r):
        c = r.choice([c for c in "uuudttpphh" if self.cls[c]])
        return self.form(r, c, r.choice(sorted(self.cls[c])))

    def wild(self, r, n):
        """any sequence of number words"""
        return [self.anyword(r) for _ in range(n)]


LEX = {l: Lex(l) for l in LANGS}
EN = LEX["en"]


def ordinal_word(w):
    if w in IRREGULAR:
        return IRREGULAR[w]
    return w[:-1] + "ieth" if w.endswith("y") else w + "th"


ORDS = {ordinal_word(w): w for w in EN.words}


def ordinal(r, n):
    ws = EN.spell(r, n)
    ws[-1] = ordinal_word(ws[-1])
    return ws


def odd_ordinal(word):
    """unspecified: not an ordinal word, but reducible to a cardinal by rewriting parts of it"""
    k = fold(word)
    if k in ORDS:
        return False
    for a, b in (("first", "one"), ("second", "two"), ("third", "three"), ("fifth", "five"), ("eighth", "eight"),
                 ("ninth", "nine"), ("twelfth", "twelve")):
        k = k.replace(a, b)
    a, b = re.sub("ieth$", "y", k), re.sub("th$", "", k)
    return any((x in LEX[l].words) for l in LANGS for x in (a, b)) and not any(fold(word) in LEX[l].words for l in LANGS)


# ---- other text
OTHER = """and plus minus et und и cats blue I we it a an the of in to is x yes no house Paris don seconds firstly thirds path goldsmith tooth
someone phone often none weight freight height tenth's anyone attention tent sand hand Andy android y Y yo band threes
fortyish tens hundreds thousands millions once zeros million-dollar ones twos sixes percent dollars kg km €5 p53 B2B x2
first-class son uno-s casa perro gato él año mañana también o e u por que los las con mili milla cien-pies diezmo
дом кот и или но что это слово одна-две рубль год дня тысячник сорока-воробей столица пятка семья десна
кіт хата і й та або рік гривня слово сорочка стодола п'ята м'яч
घर बिल्ली और है में का की के नहीं एकता सौदा दोस्त तीनों लाखों
zéro-sum Straße naïve coöperate Ελλάδα κόσμος 東京 你好 日本語 مرحبا שלום 안녕 ไทย 🙂 👍🏽 ∞ ½ ² Ⅷ ① é ñ ß ŀ ǆ ﬁ İstanbul _ __init__ snake_case
a1 1a 10th 2nd 3rd 1st 5x 007 42 0 00 1000 1,000 3.14 -5 +7 10% 1/2 2020 ٣ ४५ 12:30 1e5 0x1F v2.0 #1 @bob http://x.y/z?q=1&w=2 a@b.co C++ ... --""".split()
PUNCT = [".", ",", "!", "?", ";", ":", "(", ")", "\"", "'", "’", "/", "-", "–", "—", "%", "&", "*", "+", "=", "@", "#", "$",
         "[", "]", "{", "}", "<", ">", "|", "\\", "~", "^", "`", "।", "。", "،", "…", "¿", "¡", "«", "»", "\u200b", "\u200d"]


def isword(l, w):
    k = fold(w)
    return k in LEX[l].words or k in ORDS and ORDS[k] in LEX[l].words


def others(l):
    return [w for w in OTHER if not isword(l, w) and fold(w) not in LEX[l].skip and not odd_ordinal(w)
            and not any(isword(l, p) or p in LEX[l].skip for p in re.split(r"[^\w\u0300-\u036f]", fold(w)) if p)]


OTHERS = {l: others(l) for l in LANGS}
FOREIGN = {l: [w for m in LANGS if m != l for w in LEX[m].forms if not isword(l, w) and not odd_ordinal(w)] for l in LANGS}


def noise(r, l):
    x = r.random()
    if x < .72:
        return r.choice(OTHERS[l])
    if x < .86:
        return r.choice(FOREIGN[l])
    if x < .875:        # very long words
        w = "".join(r.choice("abcdefghijklmnoprstuvwyz0123456789_абвгд") for _ in range(r.choice([25, 40, 64, 65, 100, 130, 260])))
        return "x" + w
    if x < .93:
        while True:
            w = "".join(r.choice("abcdefghijklmnoprstuvwyzабвгдеиійоэñéкшक") for _ in range(r.randint(1, 9)))
            if not isword(l, w) and not odd_ordinal(w) and w not in LEX[l].skip:
                return w
    return str(r.randrange(10 ** r.randint(1, 12)))


def recase(r, w):
    x = r.random()
    v = w.upper() if x < .3 else w.capitalize() if x < .6 else "".join(r.choice([c, c.upper()]) for c in w)
    return v if fold(v) == fold(w) else w


def respell(r, w):
    """another spelling of the same word: case, accents, soft hyphens"""
    if r.random() < .5:
        w = recase(r, w)
    x = r.random()
    k = fold(w)
    if x < .2:
        w2 = unicodedata.normalize("NFD", w)
        w = w2 if all(unicodedata.category(c) != "Mn" or "\u0300" <= c <= "\u036f" for c in w2) else w
    elif x < .35:
        w2 = "".join(c for c in unicodedata.normalize("NFD", w) if unicodedata.category(c) != "Mn")
        w = w2
    elif x < .5 and w.isalpha() and w.isascii() or x < .4 and fold(w).isalpha():
        i = r.randrange(1, len(w) + 1)
        w = unicodedata.normalize("NFC", w[:i] + (r.choice("\u0301\u0300\u0308\u0303\u030a\u0327") if r.random() < .7 else chr(r.randrange(0x300, 0x370))) + w[i:])
    if r.random() < .15:
        i = r.randrange(len(w) + 1)
        w = w[:i] + "\xad" + w[i:]
    return w if fold(w.replace("\xad", "")) == k.replace("\xad", "") else w[:0] + k


def gap(r, odd=.15):
    x = r.random()
    if x < 1 - odd:
        return " "
    return "".join(r.choice([" ", " ", r.choice(SPACES)]) for _ in range(r.choice([1, 1, 2, 3, 5])))


def conn(r, l):
    """a connector of the language, spelled in any way"""
    w = r.choice(LEX[l].skip)
    return w if w == "-" or r.random() < .4 else recase(r, w) if r.random() < .5 else respell(r, w)


def conns(r, l, n=None):
    """several connectors in a row"""
    s = conn(r, l)
    for _ in range((r.choice([1, 1, 1, 2, 3, 4, 6]) if n is None else n) - 1):
        k = conn(r, l)
        s += ("" if (s[-1] == "-" or k == "-") and r.random() < .5 else " ") + k
    return s


# ---- sentences
def piece(r, l, ordinals=True):
    """one word-like piece of a sentence"""
    L = LEX[l]
    x = r.random()
    if x < .38:
        return noise(r, l)
    if x < .62:
        return L.phrase(r)
    if x < .74:
        return L.join(r, L.wild(r, r.choice([1, 1, 2, 2, 3, 4, 6])))
    if x < .84:
        if L.skip:
            return conns(r, l)
        return r.choice(OTHERS[l])
    if x < .92 and l == "en" and ordinals:
        if r.random() < .5:
            return r.choice(sorted(ORDS))
        return L.join(r, ordinal(r, L.number(r, zero=False, top=21)) if r.random() < .5 else ordinal(r, r.randrange(1, 1000)))
    if x < .96:
        return str(r.randrange(10 ** r.randint(1, 7)))
    w = L.anyword(r)
    return respell(r, w)


def sentence(r, l, n=None, ordinals=True, odd=.15):
    n = n or r.choice([1, 2, 3, 3, 4, 5, 6, 8, 10])
    s = gap(r, odd) if r.random() < .1 else ""
    for i in range(n):
        s += piece(r, l, ordinals)
        x = r.random()
        if x < .66:
            s += gap(r, odd)
        elif x < .84:
            p = r.choice(PUNCT[:2]) if r.random() < .7 else r.choice(PUNCT)
            s += (gap(r, odd) if r.random() < .25 else "") + p + (gap(r, odd) if r.random() < .75 else "")
        elif x < .90:
            s += "".join(r.choice(PUNCT[:8] + [" ", " "]) for _ in range(r.choice([2, 2, 3])))
        elif x < .93:
            s += ""
        else:
            s += gap(r, odd)
    if r.random() < .3:
        s = s.rstrip()
    return s


# ---- a reader of texts, used to cut the runs of C05 out of a sentence
def tokens(s, l):
    s = s.replace("\xad", "")
    return re.split(r"(\s+)", s) if l == "hi" else re.split(r"([^\w\u0300-\u036f])", s)


def runs(s, l):
    """the runs of number words (connectors between them included)"""
    out, cur, pend = [], [], []
    for t in tokens(s, l):
        k = fold(t)
        if not k.strip():
            continue
        if isword(l, t):
            cur += pend + [t]
            pend = []
        elif k in LEX[l].skip and cur:
            pend.append(t)
        else:
            if cur:
                out.append(cur)
            cur, pend = [], []
    if cur:
        out.append(cur)
    return out
