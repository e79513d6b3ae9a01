"""Loads the MIR dumps and offers indexed access + a pretty printer."""
import json, os


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.bodies = {}
        for b in d["bodies"]:
            self.bodies[b["path"]] = b
            b["crate"] = self

    def tystr(self, i):
        return self.types[i]["s"]


def pplace(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*":
            s = "(*%s)" % s
        elif e == "?":
            s += "?"
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "v":
            s += "@%d" % e[1]
        else:
            s += str(e)
    return s


def pfn(c, f):
    s = f["path"]
    if f["args"]:
        s += "::<" + ",".join(c.tystr(a) if isinstance(a, int) else str(a) for a in f["args"]) + ">"
    if f.get("res") and f["res"]["path"] != f["path"]:
        s += " => " + f["res"]["path"]
    if f.get("fwd"):
        s += " ~> " + f["fwd"]["path"]
    return s


def pop(c, o):
    if o[0] in ("copy", "move"):
        return pplace(o[1])
    if o[0] == "const":
        k = o[1]
        if "fn" in k:
            return pfn(c, k["fn"])
        for n in ("str", "int", "bytes", "static", "fbits"):
            if n in k:
                v = k[n]
                if n == "bytes":
                    v = bytes(v)
                return "%r:%s" % (v, c.tystr(k["ty"]))
        if "item" in k:
            return "item " + pfn(c, k["item"])
        return "const:" + c.tystr(k["ty"])
    return str(o)


def prv(c, r):
    k = r[0]
    if k == "use":
        return pop(c, r[1])
    if k == "ref":
        return ("&mut " if r[2] else "&") + pplace(r[1])
    if k == "cast":
        return "%s as %s (%s)" % (pop(c, r[2]), c.tystr(r[3]), r[1])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], pop(c, r[2]), pop(c, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], pop(c, r[2]))
    if k == "discr":
        return "discr(%s)" % pplace(r[1])
    if k == "agg":
        n = r[1]
        if isinstance(n, dict):
            n = n["adt"] + "::" + c.adts[n["adt"]]["variants"][n["v"]]["name"] if "adt" in n else "closure " + n["closure"]
        return "%s(%s)" % (n, ", ".join(pop(c, o) for o in r[2]))
    return str(r)


def show(b):
    c = b["crate"]
    print("fn %s  [%s] argc=%d %s:%d self=%s trait=%s" % (b["path"], b["kind"], b["argc"], b["file"], b["line"], c.tystr(b["self_ty"]) if "self_ty" in b else "", b.get("trait")))
    print("  vars", [(n, pplace(p)) for n, p in b["vars"]])
    for i, bb in enumerate(b["blocks"]):
        if bb["c"]:
            continue
        print(" bb%d:" % i)
        for p, r, l in bb["s"]:
            print("    %s = %s   //%d" % (pplace(p), prv(c, r), l))
        t = bb["t"]
        if t[0] == "call":
            print("    %s = CALL %s(%s) -> bb%d   //%d" % (pplace(t[3]), pop(c, t[1]), ", ".join(pop(c, a) for a in t[2]), t[4], bb["l"]))
        elif t[0] == "switch":
            print("    switch %s %s else bb%d" % (pop(c, t[1]), t[2], t[3]))
        elif t[0] == "drop":
            print("    drop -> bb%d" % t[2])
        else:
            print("    %s" % (t,))


if __name__ == "__main__":
    import sys, glob
    for n in ("doctor_syn.lib", "libmgen.bin"):
        c = Crate(glob.glob("/verif/build/mir/*/%s.json" % n)[0])
        if len(sys.argv) < 2:
            for b in c.bodies.values():
                print(n, b["path"], b["kind"], b["reachable"], sum(len(x["s"]) + 1 for x in b["blocks"] if not x["c"]))
        for b in c.bodies.values():
            if any(a in b["path"] for a in sys.argv[1:]):
                show(b)
