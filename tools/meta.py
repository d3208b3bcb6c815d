#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BG = "src/backgammon/backgammon_logic.rs"
P = []
CHECKS = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
    CHECKS.append({"property": id, "quick_cmd": f"bash check.sh {id}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {id}",
                   "evidence_file": f"evidence/{id}.json",
                   "technique": technique, "level": "exploration", "level_note": note})

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": {"guard": "die_e_verif",
                 "enable": "RUSTFLAGS='--cfg die_e_verif' (set by env.sh) for the harness build that compiles /repo as a path dependency",
                 "source_commits": HOOK_COMMITS},
       "checks": CHECKS, "not_applicable": NOT_APPLICABLE,
       "notes": "One monitor binary per property in harness/src/bin, run by check.sh; see DESIGN.md."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
