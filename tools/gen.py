"""writes properties.jsonl and MANIFEST.json from the table below (run by hand)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "symbolic execution of the real Python/numba source, assertions decided by z3 (SMT), counterexamples replayed on the real code"
P = []
NA = []

def prop(id, title, statement, qtext, why, files, mech, note, over=("inputs",), technique=T, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe)), _note=note, _t=technique))

def na(id, title, statement, qtext, why, files, mech, reason, over=("inputs",)):
    prop(id, title, statement, qtext, why, files, mech, "", over)
    P[-1]["_na"] = reason

exec(open(os.path.join(V, "tools", "props.py")).read())

GEN = "Within the stated bounds z3 refutes every negated goal on every feasible path of the real code, read as exact real arithmetic; library calls (numpy, scipy, interpolation, quantecon) by contract. "
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest", checks=[
    dict(property=p["id"], quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p["id"], thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
         evidence_file="evidence/%s.json" % p["id"], technique=p["_t"], level="other", level_note=GEN + p["_note"]) for p in P if "_na" not in p],
    not_applicable=[dict(property=p["id"], reason=p["_na"]) for p in P if "_na" in p])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
