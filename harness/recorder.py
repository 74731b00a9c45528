"""Calls the real code and writes down what it did.  Runs in its own process:
recorder.py JOBS TRACE CHARS CALL_LIMIT.  Judges nothing."""
import json, os, re, signal, sys, unicodedata

REPO = os.environ.get("NP_REPO", "/repo")
sys.path.insert(0, REPO)
try:
    sys.set_int_max_str_digits(4300)
except AttributeError:
    pass
import number_parser as np_  # noqa: E402

if os.path.realpath(np_.__file__).split(os.sep + "number_parser" + os.sep)[0] != os.path.realpath(REPO):
    sys.exit("number_parser was not imported from " + REPO)
FUNCS = {"parse": np_.parse, "num": np_.parse_number, "ord": np_.parse_ordinal, "frac": np_.parse_fraction}


class Hang(BaseException):
    pass


def alarm(*_):
    raise Hang()


def digits(n):
    out = []
    while n:
        n, r = divmod(n, 10)
        out.append(r)
    return out


def call(f, lang, text, limit):
    res = {"t": "other", "d": [], "s": [], "n": ""}
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            r = FUNCS[f](text) if lang is None else FUNCS[f](text, lang)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        res["t"] = "timeout"
        return res, None
    except BaseException as e:  # noqa: B902
        res["t"] = "exc"
        # subclasses count as what they are documented to be
        res["n"] = "ValueError" if isinstance(e, ValueError) else type(e).__name__
        return res, None
    if r is None:
        res["t"] = "none"
    elif isinstance(r, int) and not isinstance(r, bool) and r >= 0:
        res["t"], res["d"] = "int", digits(r)
    elif isinstance(r, str):
        res["t"], res["s"] = "str", list(r)
    else:
        res["n"] = type(r).__name__ + " " + repr(r)[:40]
    return res, r


def char(c):
    f = "".join(x for x in unicodedata.normalize("NFD", c.lower()) if unicodedata.category(x) != "Mn")
    return {"w": bool(re.match(r"[\w\u0300-\u036f]", c)), "s": c.isspace(), "z": c == "\xad", "f": f,
            "b": not f.strip(), "q": c in "'\u2019", "v": int(c) if c.isdecimal() else -1, "l": c.lower()}


def main():
    jobs, trace, chars, limit = sys.argv[1:5]
    limit = float(limit)
    signal.signal(signal.SIGALRM, alarm)
    seen = set(" 0123456789/.,")
    hangs = 0
    with open(jobs) as fi, open(trace, "w") as fo:
        for line in fi:
            j = json.loads(line)
            out, raw = [], []
            for f, lang, text in j["c"]:
                if isinstance(text, dict):
                    v = raw[text["ref"]]
                    text = v if isinstance(v, str) else ""
                if hangs > 3:
                    r, v = {"t": "timeout", "d": [], "s": [], "n": "not called"}, None
                else:
                    r, v = call(f, lang, text, limit)
                    hangs += r["t"] == "timeout"
                raw.append(v)
                seen.update(text)
                seen.update(r["s"])
                out.append({"f": f, "l": lang or "auto", "i": list(text), "r": r})
            seen.update(j["g"])
            fo.write(json.dumps({"p": j["p"], "x": j["x"], "c": out, "g": list(j["g"])}) + "\n")
    with open(chars, "w") as fo:
        json.dump({c: char(c) for c in sorted(seen)}, fo)


main()
