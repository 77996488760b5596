# Source of properties.jsonl and MANIFEST.json: python3 docs/props.py
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (id, title, statement, over, text, why, files, [(mechanism, where)], technique, level, note)
NA = []  # (id, title, statement, over, text, why, files, mech, reason)

def prop(id, title, statement, over, text, why, files, mech, note, technique="contract-based deductive verification (SMT)", level="proof"):
    P.append((id, title, statement, over, text, why, files, mech, technique, level, note))

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((id, title, statement, over, text, why, files, mech, reason))

TRUST = ("Every listed obligation is discharged by z3/cvc5 on verification conditions generated on each run from the go/ssa form of "
         "/repo's current source; trusted: the Go front end, go/ssa, the generator in /verif/tool and the solvers; parameters do not alias; "
         "specification arithmetic is mathematical, code overflow is an obligation. ")

exec(open(os.path.join(here, "docs", "list.py")).read())

out = []
for id, title, st, over, text, why, files, mech, *_ in sorted(P + NA):
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": st,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [], "not_applicable": [],
     "notes": "Contracts live in /verif/contracts, keyed by function; no hooks are needed in /repo. See DESIGN.md."}
for id, title, st, over, text, why, files, mech, tech, level, note in sorted(P):
    m["checks"].append({"property": id, "quick_cmd": f"bash run.sh check {id} quick", "thorough_cmd": f"bash run.sh check {id} thorough",
        "technique": tech, "level": level, "level_note": note})
for x in sorted(NA):
    m["not_applicable"].append({"property": x[0], "reason": x[8]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
