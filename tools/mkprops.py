#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, level_note, claimed=True, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["return values and exceptions of the public API"]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    PROPS.append((d, level_note, claimed))

PROPS = []
exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in PROPS:
        f.write(json.dumps(d) + "\n")

TECH = "TLA+ specification (TLC): exhaustive model checking of the design, spec-generated behaviours replayed into the code, recorded traces validated against the spec"
man = dict(
    version=1,
    setup_cmd="sh setup.sh",
    checks=[dict(property=d["id"], quick_cmd=f"python3 check.py {d['id']}", thorough_cmd=f"python3 check.py {d['id']}",
                 technique=TECH, level="model_checking", level_note=note) for d, note, c in PROPS if c and os.path.exists(os.path.join(HERE, "tla", f"Trace_{d['id']}.tla"))],
    not_applicable=NOT_APPLICABLE,
    notes="One driver (check.py) builds /repo incrementally, runs TLC on the design spec (which also emits the behaviours to replay), runs the harness against /repo's public API and validates the recorded trace with TLC. No hooks are needed. Findings recorded rather than repaired are in known_findings.json.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed")
