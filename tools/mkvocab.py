"""One-off: writes spec/vocab/vocab.json, the committed reference vocabulary of the
specification.  Built from the CLDR + supplementary sources of the pinned commit (via the
data modules of that commit); the DataGen specification re-derives it from the sources."""
import importlib.util, json, sys, unicodedata, os
def fold(w): return "".join(c for c in unicodedata.normalize("NFD", w.lower()) if unicodedata.category(c) != "Mn")
root = sys.argv[1]
out = {}
for l in ["en", "es", "hi", "ru", "uk"]:
    spec = importlib.util.spec_from_file_location("m", f"{root}/number_parser/data/{l}.py")
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    words, forms = {}, {}
    for c, cat in zip("udthp", ["UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN"]):
        for w, v in m.info[cat].items():
            k = fold(w)
            e = len(str(v)) - 1 if c == "p" else 0
            if c == "p": assert v == 10 ** e
            d = [int(x) for x in reversed(str(v))] if v else []
            ent = {"c": c, "d": d if c != "p" else [1], "e": e}
            assert words.get(k, ent) == ent, (l, w)
            words[k] = ent
            forms.setdefault(k, []).append(w)
    out[l] = {"words": words, "forms": forms, "skip": m.info["SKIP_TOKENS"], "long": m.info["USE_LONG_SCALE"]}
os.makedirs("/verif/spec/vocab", exist_ok=True)
json.dump(out, open("/verif/spec/vocab/vocab.json", "w", encoding="utf8"), ensure_ascii=True, separators=(",", ":"), sort_keys=True)
