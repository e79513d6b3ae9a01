from rules.libcommon import *
from rules.l01 import closed

RULE = ("type inference over the token trees the generator emits: every generated definition and test, at both widths, is parsed and checked against Rust's typing rules for the numeric "
        "subset (literal types and ranges, method receivers, casts, shifts, branch and argument types); interpolated numbers have the type their number type conversion asks for")


def run(r):
    g = load(r)
    if g is None:
        return
    for e, b, it, k in each(r, g, "type"):
        c, miss = closed(g, g.entries, b)
        for i in it:
            c.item(i)
        report(r, k, c, "the generated " + e["name"], where(g, e), b)
    n = 0
    for e, s, t in specs(g):
        for b in BITS:
            for plots in (False, True):
                k = "test/%s/%d/%s" % (s["test_name"], b, "plots" if plots else "noplots")
                try:
                    its = [parse_items(x) for x, _ in testgen(g, t, b, generate_plots=T("bool", plots))]
                    lib = [i for x, _ in testlib(g, b, generate_plots=T("bool", plots)) for i in parse_items(x)]
                except (NoGen, Undecided, ParseError) as x:
                    r.undecided(k, str(x)[:300], FN)
                    continue
                for it in its:
                    c, miss = closed(g, g.entries, b)
                    for i in lib + it:
                        c.declare(i)
                    for i in it:
                        c.item(i)
                    n += 1
                    report(r, k, c, "the generated test " + s["test_name"], "libmgen/src/test.rs", b)
    for b in BITS:
        for plots in (False, True):
            k = "support/%d/%s" % (b, plots)
            try:
                for x, _ in testlib(g, b, generate_plots=T("bool", plots)):
                    c, miss = closed(g, g.closure(["fty"])[0], b)
                    c.module(parse_items(x))
                    report(r, k, c, "the test support code", "libmgen/src/auxfuncs.rs", b)
            except (NoGen, Undecided, ParseError) as x:
                r.undecided(k, str(x)[:300], FN)
    r.floor("generated tests", n, 40)
    r.assume("Rust's typing rules as modelled for the numeric subset; an unmodelled construct is reported as undecided")


def report(r, k, c, what, w, b):
    if c.errors:
        r.bad(k, "%s does not type-check at %d bits: %s" % (what, b, "; ".join("%s: %s" % x if isinstance(x, tuple) else str(x) for x in c.errors[:4])), w)
    elif c.unknown:
        r.undecided(k, "; ".join("%s: %s" % x if isinstance(x, tuple) else str(x) for x in c.unknown[:4])[:300], w)
    else:
        r.ok(k, "type-checks", w)
