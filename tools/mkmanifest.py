"""Writes /verif/MANIFEST.json."""
import json
COMMON = ("TLC decides every event: it evaluates the clause of the property (spec/Props.tla) on each recorded call of the real code, "
          "with expected values computed by the specification; bounded by the generated inputs (counts in the evidence file). "
          "Trusted: TLC, the recorder, the Unicode data of the Python interpreter, the committed vocabulary.")
NOTES = {p: COMMON for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C15 C16 C17".split()}
TECH = {p: "TLA+ specification: TLC model checking, its behaviours replayed in the code, and TLC trace validation of recorded calls" for p in NOTES}
import os
HAVE = set(NOTES)
for p, f in (("C12", "sessions.py"), ("C14", "datagen.py")):
    if os.path.exists("/verif/harness/" + f):
        HAVE.add(p)
NOTES["C12"] = ("TLC enumerates all histories and all schedules of small sets of calls on spec/Sessions.tla; they are replayed in the real code "
                "(threads under a deterministic line-level scheduler, process configurations as subprocesses) and the recorded sessions are validated by TLC against the "
                "specification whose answers come from fresh processes. Bounded by the number of calls, threads and switch points.")
TECH["C12"] = "TLA+ specification of sessions: TLC-generated histories and schedules replayed in the code, recorded sessions validated by TLC"
NOTES["C14"] = ("TLC computes the tables from the CLDR and supplementary sources with spec/DataGen.tla and compares them with the files the script writes in a scratch copy; "
                "complete for the 83 shipped sources, sampled for synthetic rule sets.")
TECH["C14"] = "TLA+ specification of the data generation, TLC comparing its tables with those the script writes (real and synthetic sources)"
for p in ("C01", "C06", "C15"):
    TECH[p] += "; inductive invariant of the specification proved by Apalache for runs of any length"
    NOTES[p] += " The laws of the specification itself are proved without the bound on length (Apalache, BuilderInd; equal to Builder by TLC)."
TECH["C12"] += "; purity of the specified design proved by TLAPS for any number of threads and calls"
for p in ("C04", "C05", "C07", "C16"):
    TECH[p] += "; control of parse explored completely (texts of any length)"
m = {"version": 1, "setup_cmd": "bash harness/setup.sh",
     "hooks": {"guard": "NUMBER_PARSER_VERIF", "enable": "no hooks were needed: every check observes the public functions and the files the script writes", "source_commits": []},
     "checks": [], "not_applicable": []}
for line in open("/verif/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in HAVE:
        m["checks"].append({"property": p, "quick_cmd": f"python3 harness/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 harness/check.py {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "model_checking", "level_note": NOTES[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": "the specification of this part is still being written"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
