"""DESIGN.md from its template, the planted bugs and the not-applicable list"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
t = open(here + "/DESIGN.tmpl.md").read()
seeds = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["property"]))
t = t.replace("@@SEEDS@@", "| bug | property | manifests with | caught by |\n|---|---|---|---|\n" + "\n".join(seeds))
man = json.load(open(root + "/MANIFEST.json"))
na = man.get("not_applicable") or []
t = t.replace("@@NA@@", "\n".join("* **%s** – %s" % (x.get("property") or x.get("id"), x["reason"]) for x in na) or "No listed property is out of reach.")
t = t.replace("@@SIMD@@\n", open(here + "/DESIGN.simd.md").read() if os.path.exists(here + "/DESIGN.simd.md") else "")
open(root + "/DESIGN.md", "w").write(t)
