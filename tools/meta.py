"""single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "interprocedural abstract interpretation of the syntax trees (stdlib ast): "
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, (id, len(title))
    PROPS.append(d)
    if na:
        NA.append(dict(property=id, reason=na))
        return
    d["_t"], d["_n"] = technique, note


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in PROPS:
        f.write(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}) + "\n")
m = dict(version=1, setup_cmd="python3 -m compileall -q sa check.py",
         checks=[dict(property=d["id"], quick_cmd=f"python3 check.py --property {d['id']} --tier quick",
                      thorough_cmd=f"python3 check.py --property {d['id']} --tier thorough",
                      evidence_file=f"evidence/{d['id']}.json", technique=d["_t"], level="other",
                      level_note=d["_n"]) for d in PROPS if "_t" in d],
         not_applicable=NA,
         notes="All checks are pure static analysis of /repo's current source by the engine in sa/ (stdlib ast only); "
               "nothing of datafold is imported or executed. known_findings.txt lists genuine defects left in place and those repaired.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(m["checks"]), "checks", len(NA), "not applicable")
