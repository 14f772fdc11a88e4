#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {  # technique per property
 "R01": "property-based testing: grammar-derived and mutated byte strings against an independent record parser; exhaustive one-byte edits of samples",
 "R02": "property-based testing: generated line histories, chunkings, gzip members and injected I/O faults against a line model",
 "R03": "stateful property-based testing: generated writer session histories against a file-content model",
 "M01": "property-based testing: generated expressions and records against an independent reference evaluator",
 "M02": "property-based testing: generated patterns against enumerated tags and occurrences",
 "M03": "property-based testing: generated combination histories; text round trip and metamorphic layout",
 "M04": "stateful property-based testing: generated parse histories over threads, compared with fresh-thread parses",
 "P01": "property-based testing against a reference path evaluator",
 "Q01": "property-based testing against a reference query evaluator",
 "F01": "property-based testing against a reference format evaluator",
 "N01": "mutation-based fuzzing of all parsers plus evaluation of whatever was accepted",
}
CLI = "property-based testing of the real `pica` binary: generated inputs and option combinations against a reference model"
NOTE_L = ("No counterexample among the generated cases (counts in the evidence file); exploration, no proof. "
          "Trusts the harness' own models, which were written from the documentation and the grammar, and proptest's generators.")
NOTE_C = ("No counterexample among the generated runs of the freshly built binary; exploration, no proof. "
          "Trusts the harness' models; inputs and option sets are bounded in size (see DESIGN.md).")
done = os.environ.get("DONE", "").split()
checks, na = [], []
for p in props:
    i = p["id"]
    if done and i not in done:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    cli = i.startswith("C")
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i}",
        "thorough_cmd": f"bin/check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": T.get(i, CLI),
        "level": "exploration",
        "level_note": NOTE_C if cli else NOTE_L,
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public library interface and the command line. "
              "known-findings.txt lists findings; bin/check --replay FILE re-runs one case."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
