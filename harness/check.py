"""check.py <property>: decides one property on the current tree of the repository.
Exit 0: held on everything explored; 1 and a VIOLATION line: broken; 2: the check itself failed."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Broken, SEED, TIER, THOROUGH, VERIF, conformance, rng, show

FRACTION = float(os.environ.get("NP_FRACTION", "1"))     # for mutation testing of the checks
EVID = os.path.join(VERIF, "evidence")
# number of generated cases: quick, thorough
BUDGET = {"C01": (40000, 160000), "C02": (40000, 120000), "C03": (60000, 200000), "C04": (50000, 160000), "C05": (30000, 100000),
          "C06": (35000, 100000), "C07": (50000, 160000), "C08": (20000, 60000), "C09": (50000, 160000), "C10": (40000, 120000),
          "C11": (50000, 160000), "C13": (60000, 250000), "C15": (60000, 250000), "C16": (50000, 160000), "C17": (50000, 120000),
          "FULL": (50000, 200000)}


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        out = [k for k in json.load(open(p)) if k.get("status") == "known"]
    return out


def report(prop, cov, viols, t0, level="model_checking", assumptions=()):
    """viols: list of (clause, description, replay data)"""
    kf = [k for k in known() if k["property"] == prop]
    new = []
    for v in viols:
        hit = [k for k in kf if k["identify"] == v[1]]
        if not hit:
            new.append(v)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    os.makedirs(EVID, exist_ok=True)
    json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": list(assumptions),
               "wall_s": round(time.time() - t0, 1), "violations": len(new)},
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if new:
        path = os.path.join(EVID, f"replay-{prop}.json")
        json.dump({"property": prop, "violations": [{"clause": c, "what": d, "data": x} for c, d, x in new[:20]]}, open(path, "w"), indent=1)
        for c, d, _ in new[:5]:
            print(f"  {c}: {d}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held; " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int)))
    return 0


def event_check(prop, t0):
    from gens import GENS
    import mc
    import induct
    proof = induct.Background(prop) if prop in induct.JOBS else None
    r = rng(prop)
    cases = GENS[prop](r, int(BUDGET[prop][THOROUGH] * FRACTION))
    model = mc.run(prop)                      # exhaustive part: behaviours of the specification
    nb = len(model["cases"])
    allcases = model["cases"] + cases
    v = conformance(allcases, tag=prop)
    if v["ok"] == 0 or v["skip"] > 0.5 * v["n"] and not v["nbad"]:
        raise Broken(f"vacuous: {v['ok']} of {v['n']} events were judged")
    viols = [(c, "; ".join(show(e)), {"case": k, "event": e}) for c, k, e in v["events"]]
    cov = {"states": v["distinct"] + model["distinct"], "transitions": v["generated"] + model["generated"],
           "traces_validated_against_impl": v["ok"], "events": v["n"], "events_outside_premise": v["skip"], "events_rejected": v["nbad"],
           "model_states": model["distinct"], "behaviours_replayed": nb, "model": model["what"],
           "samples": [{"case": c} for c in (model["cases"][len(model["cases"]) // 2:][:2] + cases[len(cases) // 3:][:4])]}
    if proof:
        if viols:
            cov["induction"] = "not awaited"
        else:
            x = proof.get()
            cov["induction"] = x
            cov["obligations_proved"] = sum(v == "proved" for v in x.values())
    return report(prop, cov, viols, t0)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            d = json.load(open(sys.argv[3]))
            v = conformance([x["data"]["case"] for x in d["violations"]], shards=1, tag="replay")
            for c, k, e in v["events"]:
                print(c, show(e))
            return 1 if v["nbad"] else 0
        if prop == "C12":
            import sessions
            return sessions.check(prop, t0, report)
        if prop == "C14":
            import datagen
            return datagen.check(prop, t0, report)
        return event_check(prop, t0)
    except Broken as e:
        print("CHECK BROKEN:", e, file=sys.stderr)
        return 2


sys.exit(main())
