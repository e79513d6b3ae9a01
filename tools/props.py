#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "doctor-syn/src/"
PROPS = []
NA = []


def P(id, title, statement, over, quant, tests, files, mech, technique, note, observe=(), claim=True):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=tests,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}))
    PROPS[-1]["_t"] = technique
    PROPS[-1]["_n"] = note
    PROPS[-1]["_c"] = claim


def N(id, title, statement, over, quant, tests, files, mech, reason):
    P(id, title, statement, over, quant, tests, files, mech, "", "", claim=False)
    NA.append({"property": id, "reason": reason})


TRANSFER = "abstract interpretation of MIR: one-step transfer function over syntax-node kinds, compared as value terms with the required table"
NOTE = "Static: every MIR path of the analysed functions is abstracted to a value term under the induction hypothesis for child nodes; obligations the abstraction cannot read are listed as undecided in the evidence and are not alarms. Trusts rustc's MIR, the library models in sa/models.py and "

exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 /verif/sa/extract.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
            "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
            "technique": p["_t"],
            "level": "other",
            "level_note": p["_n"],
        }
        for p in PROPS
        if p["_c"]
    ],
    "not_applicable": NA,
    "notes": "All checks read the MIR that a rustc_private wrapper (driver/) dumps from /repo's current tree; see DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(man["checks"]), "claimed,", len(NA), "not applicable")
