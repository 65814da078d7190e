#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json. One P(...) per property; NA(...) for properties this family cannot decide."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, NAS = [], []

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        _t=technique, _n=note))

def NA(id, title, statement, over, text, why, files, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[], state=[], observe_at=[], hook_needed=None), _na=reason))

exec(open(os.path.join(HERE, "props_defs.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in PROPS:
    if "_na" in p: na.append(dict(property=p["id"], reason=p["_na"])); continue
    if not os.path.exists(os.path.join(HERE, "checks", "chk_%s.py" % p["id"].lower())):
        raise SystemExit("no check for " + p["id"])
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        technique=p["_t"], level="other", level_note=p["_n"]))
man = dict(version=1, setup_cmd="python3 -B engine/show.py mjs_next api", checks=checks, not_applicable=na,
    notes="Every check compiles /repo/src to LLVM bitcode (clang 18) in a scratch directory and analyses it; nothing of mjs is run. "
          "Exit 2 means the analysis is broken (an anchor vanished), never a verdict.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
