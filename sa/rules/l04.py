from rules.libcommon import *
from denot import *
import nums
import struct

RULE = ("constant evaluation: the value of every generated constant (symbolically, or as the nearest float when written as a decimal) must be the one its name denotes, in the integer, bit-pattern or float "
        "type it is used in, at both widths; evaluated constants must be computed with enough digits")

FLOATC = ["PI", "PI_BY_2", "PI_BY_8", "TAN_PI_BY_8", "LOG2_E", "RECIP_LOG2_E", "RECIP_LOG2_10", "RECIP_PI", "RECIP_2PI", "SQRT_RECIP_2PI", "ONE_THIRD", "TWO_THIRDS", "EXP2_SCALE", "EXP2_ONE",
          "EXP2_MIN", "EXP2_MAX", "MIN_POSITIVE", "NAN", "INFINITY"]
TYPES = {n: "fty" for n in FLOATC}
TYPES.update({"ONE_BITS": "uty", "ONE_MASK": "uty", "LOG2_SHIFT": "ity", "LOG2_OFFSET": "ity"})
ALIAS = {"fty": "f", "uty": "u", "ity": "i"}


def tyname(t):
    t = t if isinstance(t, str) else show(t)
    return t.strip("` ").replace(" ", "")


def literal(e):
    """decimal text of a (negated) float literal, or None"""
    neg = False
    while e.op in ("xparen", "xun"):
        if e.op == "xun":
            if e.a[0] != "-":
                return None
            neg = not neg
            e = e.a[1]
        else:
            e = e.a[0]
    if e.op == "xlit" and e.a[0] not in ("true", "false"):
        try:
            v = num(e.a[0])
        except No:
            return None
        return -v if neg else v
    return None


def nearest(fr, bits):
    """the float nearest to a rational, as a rational"""
    if fr == 0:
        return F(0)
    man, s = (24, fr) if bits == 32 else (53, fr)
    a = abs(fr)
    e = 0
    while a >= 2 ** man:
        a /= 2
        e += 1
    while a < 2 ** (man - 1):
        a *= 2
        e -= 1
    n = a.numerator // a.denominator
    r = a - n
    if r > F(1, 2) or (r == F(1, 2) and n % 2):
        n += 1
    v = F(n) * F(2) ** e
    return v if fr > 0 else -v


def run(r):
    g = load(r)
    if g is None:
        return
    n = 0
    for e, b, it, k in each(r, g, "value"):
        if e["name"] in ALIAS:
            ts = [i for i in it if i.op == "itype" and i.a[0] == e["name"]]
            if len(ts) == 1:
                want = ALIAS[e["name"]] + str(b)
                t = ts[0].a[1]
                got = tyname(t)
                got = got.replace("#", "")
                r.check(k, got == want or got.endswith("::" + want), "%s must be %s at %d bits but is %s" % (e["name"], want, b, got), where(g, e))
            continue
        cs = [i for i in it if i.op == "iconst" and i.a[0] == e["name"]]
        if len(cs) != 1 or e["name"] not in TYPES:
            continue
        n += 1
        c = cs[0]
        ty = tyname(c.a[1])
        wt = TYPES[e["name"]]
        r.check(k + "/type", ty in (wt, ALIAS[wt] + str(b)), "%s must have the type %s but is declared as %s" % (e["name"], wt, ty), where(g, e))
        try:
            value(r, g, e, b, c, k, it)
        except (No, ParseError, OverflowError, ArithmeticError) as x:
            r.undecided(k, "not in the modelled subset: %s" % x, where(g, e))
    r.floor("constants", n, 20)


def value(r, g, e, b, c, k, it):
    n = e["name"]
    want = consts(b)[n]
    init = c.a[2]
    lit = literal(init)
    if lit is not None and isinstance(want, Rat):
        w = want.const()
        if w is not None:
            ok = (lit == w) if TYPES[n] != "fty" else nearest(lit, b) == nearest(w, b)
            r.check(k, ok, "%s must be %s but is %s" % (n, fl(w), fl(lit)), where(g, e), "exact" if lit == w else "nearest float")
            return
        if n == "MIN_POSITIVE":
            w = F(2) ** (-126 if b == 32 else -1022)
            r.check(k, nearest(lit, b) == w, "MIN_POSITIVE must be the smallest normal number %g but is %g" % (float(w), float(lit)), where(g, e))
            return
        v = nums.rat(want)
        err = abs(nums.fr(lit) - v) / abs(v)
        r.check(k, err <= nums.mpf(2) ** (-24 if b == 32 else -53), "%s must be %s but is written as %s (relative error %s)" % (n, nums.mpmath.nstr(v, 20), fl(lit), nums.mpmath.nstr(err, 3)), where(g, e), "literal within half a unit in the last place")
        return
    items = {i.a[0]: i for i in it if isinstance(i.a[0], str) and i.a[0] != n}
    for d in g.entries:
        if d["gen"] and d["name"] != n and d["name"] not in items:
            try:
                for i in g.items(d, b):
                    if isinstance(i.a[0], str):
                        items.setdefault(i.a[0], i)
            except NoGen:
                pass
    h = []
    ev = Eval(b, items)
    ev.c = {kk: v for kk, v in ev.c.items() if kk != n}
    ev.holes = h
    vs = ev.expr(init, {}, Signs())
    if len(vs) != 1:
        raise No("conditional constant")
    v = vs[0][1]
    if isinstance(v, Rat) and isinstance(want, Rat) and not v == want and want.const() is None and n != "MIN_POSITIVE":
        # other spellings of the same number
        a, w = nums.rat(v), nums.rat(want)
        r.check(k, abs(a - w) < abs(w) * nums.mpf(10) ** -40, "%s must be %s but is %s" % (n, nums.mpmath.nstr(w, 20), nums.mpmath.nstr(a, 20)), where(g, e), "numerically equal to 40 digits")
    else:
        r.check(k, same(v, want), "%s must be %s but is %s" % (n, want.show(), v.show()), where(g, e), "symbolically equal")
    x = init
    while x.op == "xparen":
        x = x.a[0]
    path = show(init).replace(" ", "")
    if x.op == "xpath" and n in ("NAN", "INFINITY", "MIN_POSITIVE"):
        ty = x.a[0].replace(" ", "").split("::")
        t = ty[-2] if len(ty) > 1 else None
        r.check(k + "/width", t in (None, "fty", "f%d" % b), "%s takes its %d-bit value from %s" % (n, b, x.a[0]), where(g, e))
    if x.op == "xhole":
        hh = hole(x.a[0])
        if hh[0] == "eval":
            d = hh[2]
            if d.op == "int":
                r.check(k + "/digits", d.a[0] >= (7 if b == 32 else 15), "%s is evaluated with %s digits, too few for %d bits" % (n, d.a[0], b), where(g, e))
            else:
                r.undecided(k + "/digits", "number of digits " + show(d), where(g, e))


def fl(x):
    return str(x.numerator) if x.denominator == 1 else "%.20g" % float(x)
