#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios present in harness/."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(f"{root}/harness/{i.lower()}_*.cpp"):
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough", evidence_file=f"evidence/{i}.json",
            technique="stateless model checking of the real code under a controlled scheduler (preemption-bounded, virtual time)",
            level="model_checking",
            level_note="Every schedule of the scenarios up to the preemption bound in the evidence (unbounded where all_interleavings is true), and every choice of "
                       "inputs/operations listed in the scenario, is executed on the real code; held means no execution broke the oracle. Scenario sizes are small "
                       "(2-4 threads, a few operations) and interleavings are sequentially consistent; weaker orderings are covered only by the race detector."))
    else:
        na.append(dict(property=i, reason="Scenarios for this property are not written yet."))
m = dict(version=1, setup_cmd="g++ --version && python3 --version", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="The checks compile the unmodified sources with compiler instrumentation (-fsanitize=thread without its runtime); no hooks in /repo are needed.", source_commits=[]),
         notes="./check <id> builds everything it needs in a scratch directory. ./check <id> --replay FILE replays a violation. selftest/run tests the model checker itself. Known findings: KNOWN_FINDINGS.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
