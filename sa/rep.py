"""Obligation bookkeeping, known findings, evidence."""
import json, os, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed, rule):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.rule = rule
        self.t0 = time.time()
        self.obs = []  # (key, status, detail, where)
        self.analysed = {}
        self.assumptions = []

    def ok(self, key, detail="", where=""):
        self.obs.append((key, "ok", detail, where))

    def bad(self, key, detail, where=""):
        self.obs.append((key, "bad", detail, where))

    def undecided(self, key, detail, where=""):
        self.obs.append((key, "undecided", detail, where))

    def check(self, key, cond, detail, where="", okdetail=""):
        if cond:
            self.ok(key, okdetail, where)
        else:
            self.bad(key, detail, where)
        return cond

    def anchor(self, name, cond, detail=""):
        """fail closed: something the rule is about is no longer there"""
        if not cond:
            self.bad("anchor:" + name, "the analysed construct was not found: " + name + (" " + detail if detail else ""))
        return cond

    def floor(self, name, n, least):
        self.analysed[name] = n
        if n < least:
            self.bad("floor:" + name, "only %d %s analysed, at least %d expected" % (n, name, least))

    def saw(self, name, n):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {(k["property"], k["key"]): k for k in d.get("findings", [])}


def finish(r):
    kn = known()
    # one entry per key; bad wins
    byk = {}
    for o in r.obs:
        k = o[0]
        if k not in byk or (byk[k][1] != "bad" and o[1] == "bad") or (byk[k][1] == "ok" and o[1] == "undecided"):
            byk[k] = o
    bad = [o for o in byk.values() if o[1] == "bad"]
    und = [o for o in byk.values() if o[1] == "undecided"]
    good = [o for o in byk.values() if o[1] == "ok"]
    listed = [o for o in bad if (r.pid, o[0]) in kn]
    new = [o for o in bad if (r.pid, o[0]) not in kn]
    ev = {
        "property": r.pid,
        "tier": r.tier,
        "seed": r.seed,
        "level": "other",
        "coverage": {
            "explanation": "static analysis of the MIR of /repo's current tree. Rule: " + r.rule,
            "obligations": len(byk),
            "discharged": len(good),
            "undecided": len(und),
            "violated_known": len(listed),
            "analysed": r.analysed,
            "samples": [{"key": o[0], "detail": o[2][:300], "where": o[3]} for o in good[:40]],
            "undecided_list": [{"key": o[0], "detail": o[2][:300]} for o in und[:40]],
            "known_findings": [o[0] for o in listed],
        },
        "assumptions": r.assumptions,
        "wall_s": round(time.time() - r.t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", r.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; analysed %s" % (r.pid, len(byk), len(good), len(und), len(listed), len(new), json.dumps(r.analysed)))
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (r.pid, o[0], kn[(r.pid, o[0])].get("what", o[2])[:300]))
    if new:
        rp = os.path.join(VERIF, "evidence", r.pid + ".violations.txt")
        with open(rp, "w") as f:
            for o in new:
                f.write("property %s\nrule: %s\nobligation: %s\nwhere: %s\n%s\n\n" % (r.pid, r.rule, o[0], o[3], o[2]))
        for o in new[:12]:
            print("  violated %s [%s]: %s" % (o[0], o[3], o[2][:600]))
        print("VIOLATION property=%s replay=%s" % (r.pid, rp))
        return 1
    return 0
