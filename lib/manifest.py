#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from the table below (python3 lib/manifest.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, na=None):
    PROPS.append(dict(row=dict(
        id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)),
        note=" ".join(note.split()), na=na))


TECH = "symbolic execution of the LLVM IR rustc emits for the crate; path conditions and assertions decided by a byte-domain procedure and Z3, counterexamples replayed natively"
TRUST = " Trusts rustc's IR, the executor (audited against Z3 and against native replays on every run) and the oracle in the harness."

exec(open(os.path.join(ROOT, "lib", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["row"]["title"]) <= 80, p["row"]["title"]
        f.write(json.dumps(p["row"]) + "\n")
checks = [dict(property=p["row"]["id"], quick_cmd="python3 check.py %s quick" % p["row"]["id"], thorough_cmd="python3 check.py %s thorough" % p["row"]["id"],
               evidence_file="evidence/%s.json" % p["row"]["id"], technique=TECH, level="model_checking", level_note=p["note"] + TRUST) for p in PROPS if not p["na"]]
json.dump(dict(version=1, setup_cmd="python3 lib/build.py", checks=checks,
               not_applicable=[dict(property=p["row"]["id"], reason=p["na"]) for p in PROPS if p["na"]],
               notes="No hooks: the checks use the public API only. See DESIGN.md for bounds, oracles, findings and planted bugs."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
