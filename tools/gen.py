#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables beside it."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
import props_patch, props_cli
root = os.path.dirname(here)
OBS = {"patch": ["the SVD document that patching produces, parsed again", "success or failure of the patch"],
       "cli": ["files written, standard output and exit status of the command line program"]}
checks = []
with open(f"{root}/properties.jsonl", "w") as f:
    for kind, table in (("patch", props_patch.P), ("cli", props_cli.P)):
        for row in table:
            (i, title, st, over, qt, why, files, mech), extra = row[:8], (row[8] if len(row) > 8 else {})
            assert len(title) <= 80, (i, len(title))
            assert st.count(". ") <= 2, (i, st)
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
                "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": extra.get("observe", OBS[kind]), "hook_needed": None}}, ensure_ascii=False) + "\n")
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": extra.get("technique", "explicit-state model checking: bounded exhaustive exploration of the real code against a reference interpreter"),
                "level": "model_checking",
                "level_note": extra.get("note", "Every input, rule sequence or environment in the stated finite alphabet and depth is executed on the code built from /repo and compared, case by case, with an independently written reference model; nothing outside the alphabet and depth is covered. Trusted: the reference model in /verif/mc, svd-rs, svd-parser, svd-encoder, yaml-rust2.")})
checks.sort(key=lambda c: c["property"])
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
    "not_applicable": props_cli.NA,
    "notes": "All checks are one explorer (mc) with one reference model; see DESIGN.md. Nothing in /repo is instrumented, so there are no hooks."},
    open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
