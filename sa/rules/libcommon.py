"""Shared by the rules about the generator crate."""
from tmpl import *
from rtype import *

FN = "libmgen/src/functions.rs"


def load(r):
    """the registry, or None (recorded as undecided when it cannot be evaluated, as violated when it is gone)"""
    try:
        g = gen()
    except NoGen as x:
        if "no static" in str(x):
            r.undecided("registry", "no static FUNCTIONS registry: " + str(x), FN)
        else:
            r.undecided("registry", str(x)[:400], FN)
        return None
    except Undecided as x:
        r.undecided("registry", "the registry is not constant: %s" % x, FN)
        return None
    r.saw("registry entries", len(g.entries))
    return g


def where(g, e):
    p = g.genpath(e)
    b = g.p.bodies.get(p) if p else None
    return "%s:%s %s" % (b["file"], b["line"], p) if b else FN


def each(r, g, key):
    """(entry, bits, items, key) for every entry with a generator whose output is known"""
    n = 0
    for e in g.entries:
        if not e["gen"]:
            continue
        for b in BITS:
            k = "%s/%s/%d" % (key, e["name"], b)
            try:
                it = g.items(e, b)
            except (NoGen, Undecided) as x:
                r.undecided(k, str(x)[:300], where(g, e))
                continue
            n += 1
            yield e, b, it, k
    r.floor("generated definitions", n, 40)


def seqof(ip, st, v):
    v = ip.resolve(st, v)
    while v.op == "ref":
        v = ip.resolve(st, ip.deref(st, v))
    return v


def specs(g):
    """[(entry name, spec dict, spec term)]"""
    ip = g.ip
    out = []
    l = seqof(ip, g.st, g.raw)
    for x, e in zip(l.a[0], g.entries):
        c = seqof(ip, g.st, x)
        d = dict(c.a[2])
        ts = seqof(ip, g.st, d["test_specs"])
        if ts.op not in ("seq", "arr"):
            continue
        for t, s in zip(ts.a[0], e["test_specs"]):
            out.append((e, s, seqof(ip, g.st, t)))
    return out


def testgen(g, t, bits, **opts):
    """[(tokens, leaf)] normal outcomes of the test generator for one spec"""
    p = [f for f in g.p.bin.bodies if f.endswith("::gen_test")]
    if not p:
        raise NoGen("no function gen_test")
    ip = g.p.interp(hooks=[g.hook])
    st = St()
    cfg = g.config(bits, **opts)
    b = g.p.bodies[p[0]]
    ls = ip.run_body(b, [ip.ref_to(st, t), ip.ref_to(st, cfg)][: b["argc"]], st)
    out = []
    for lf in ls:
        if lf.kind == "return":
            v = ip.resolve(lf.st, lf.val)
            if v.op != "ts":
                raise NoGen("gen_test returns " + show(v)[:200])
            out.append((v.a[0], lf))
    return out


def testlib(g, bits, **opts):
    """tokens of the shared test support functions"""
    p = [f for f in g.p.bin.bodies if f.endswith("::gen_test_function")]
    if not p:
        raise NoGen("no function gen_test_function")
    ip = g.p.interp(hooks=[g.hook])
    st = St()
    b = g.p.bodies[p[0]]
    args = [INT(0, "usize"), ip.ref_to(st, g.config(bits, **opts))]
    ls = ip.run_body(b, args[-b["argc"]:], st)
    out = []
    for lf in ls:
        if lf.kind == "return":
            v = ip.resolve(lf.st, lf.val)
            if v.op != "ts":
                raise NoGen("gen_test_function returns " + show(v)[:200])
            out.append((v.a[0], lf))
    return out
