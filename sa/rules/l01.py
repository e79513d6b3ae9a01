from rules.libcommon import *

RULE = ("name resolution over the generator's own templates: every generator function is abstractly interpreted to the token tree it emits at each width; every free name of the "
        "emitted definition (and of every generated test, with and without plots) must be declared by the dependency closure of its registry entry, and every listed dependency must exist")


def run(r):
    g = load(r)
    if g is None:
        return
    for e in g.entries:
        for d in e["deps"]:
            r.check("dep/%s/%s" % (e["name"], d), d in g.by, "%s lists the dependency %s, which the registry does not contain: selecting it generates code without it" % (e["name"], d), where(g, e))
    for e, b, it, k in each(r, g, "names"):
        cl, _ = g.closure([e["name"]])
        c, miss = closed(g, cl, b)
        for i in it:
            c.item(i)
        if miss and c.unres:
            r.undecided(k, "unresolved %s, but the output of %s is not known" % (sorted(c.unres), miss), where(g, e))
            continue
        r.check(k, not c.unres, "the generated %s uses %s, which nothing in its dependency closure %s defines" % (e["name"], ", ".join(sorted(c.unres)), sorted(x["name"] for x in cl)), where(g, e), "%d items resolve" % len(it))
    n = 0
    for e, s, t in specs(g):
        for b in BITS:
            for plots in (False, True):
                k = "test/%s/%d/%s" % (s["test_name"], b, "plots" if plots else "noplots")
                try:
                    ts = testgen(g, t, b, generate_plots=T("bool", plots))
                    lb = testlib(g, b, generate_plots=T("bool", plots))
                    its = [parse_items(x) for x, _ in ts]
                    lib = [i for x, _ in lb for i in parse_items(x)]
                except (NoGen, Undecided, ParseError) as x:
                    r.undecided(k, str(x)[:300], FN)
                    continue
                cl, _ = g.closure([e["name"]])
                for it in its:
                    c, miss = closed(g, cl, b)
                    for i in lib + it:
                        c.declare(i)
                    for i in it:
                        c.item(i)
                    n += 1
                    if miss and c.unres:
                        r.undecided(k, "unresolved %s" % sorted(c.unres), FN)
                    else:
                        r.check(k, not c.unres, "the generated test %s uses %s, which nothing generated together with %s defines" % (s["test_name"], ", ".join(sorted(c.unres)), e["name"]), "libmgen/src/test.rs / " + FN)
    for b in BITS:
        for plots in (False, True):
            k = "support/%d/%s" % (b, plots)
            try:
                for x, _ in testlib(g, b, generate_plots=T("bool", plots)):
                    c, miss = closed(g, g.closure(["fty"])[0], b)
                    c.module(parse_items(x))
                    r.check(k, not c.unres, "the test support code uses %s, which nothing defines" % ", ".join(sorted(c.unres)), "libmgen/src/auxfuncs.rs")
            except (NoGen, Undecided, ParseError) as x:
                r.undecided(k, str(x)[:300], FN)
    r.floor("generated tests", n, 40)
    r.assume("proc_macro2/quote assemble the interpolated pieces in order")


def closed(g, cl, b):
    """a checker that has declared the items of the entries; + entries whose output is unknown"""
    c = Checker(hole_type)
    miss = []
    for d in cl:
        if d["gen"]:
            try:
                for i in g.items(d, b):
                    c.declare(i)
            except NoGen:
                miss.append(d["name"])
    return c, miss
