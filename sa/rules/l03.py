from rules.libcommon import *

RULE = ("registry query plus abstract interpretation of the generators: names are unique, each entry with a generator emits exactly one item of its own name (the same at both widths) and no item "
        "that another entry also emits, each entry without a generator only lists other entries")


def sig(i):
    """kind and shape of a top-level item"""
    if i.op == "ifn":
        return ("fn", i.a[0])
    return (i.op[1:], i.a[0])


def run(r):
    g = load(r)
    if g is None:
        return
    seen = {}
    for e in g.entries:
        r.check("unique/" + e["name"], e["name"] not in seen, "two registry entries are called %s; only the first can be selected" % e["name"], FN)
        seen[e["name"]] = e
        if e["gen"] is None:
            r.check("group/" + e["name"], bool(e["deps"]), "the group %s selects nothing" % e["name"], FN)
    owner = {}
    per = {}
    for e, b, it, k in each(r, g, "defines"):
        names = [i.a[0] for i in it if isinstance(i.a[0], str) and i.op in ("ifn", "iconst", "itype", "istatic", "istruct")]
        own = names.count(e["name"])
        r.check("defines/%s" % e["name"], own == 1, "the generator of %s emits %s at %d bits instead of exactly one definition of %s" % (e["name"], names or "nothing", b, e["name"]), where(g, e))
        for n in names:
            if n != e["name"] and n in g.by:
                r.bad("clash/%s/%s" % (e["name"], n), "the generator of %s also emits a definition of %s, which is another entry's" % (e["name"], n), where(g, e))
            if n in owner and owner[n] != e["name"]:
                r.bad("clash/%s/%s" % (e["name"], n), "%s is emitted by the generators of both %s and %s" % (n, owner[n], e["name"]), where(g, e))
            owner[n] = e["name"]
        per.setdefault(e["name"], []).append((b, sorted(map(shape, it), key=str)))
    for n, l in per.items():
        if len(l) == 2:
            r.check("same/" + n, l[0][1] == l[1][1], "%s has a different interface at 32 and 64 bits: %s / %s" % (n, l[0][1], l[1][1]), where(g, g.by[n]))
    tn = {}
    for e, s, t in specs(g):
        x = s["test_name"]
        # the same test under two entries that are generated together is a duplicate definition
        r.check("test/" + x, x not in tn, "two generated tests are called %s (%s, %s)" % (x, tn.get(x), e["name"]), FN)
        tn[x] = e["name"]
        r.check("testname/" + x, x not in g.by, "a generated test is called like the entry %s" % x, FN)


def shape(i):
    if i.op == "ifn":
        f = i
        return ("fn", i.a[0], show(i.a[1])[:300] if isinstance(i.a[1], T) else str(i.a[1])[:300])
    if i.op == "iconst":
        return ("const", i.a[0], str(i.a[1])[:100])
    return (i.op[1:], i.a[0] if isinstance(i.a[0], str) else "")
