"""round_ieee, bigdf, bigdf32: conversions between decimals and floats, evaluated exactly on their extracted path terms"""
from rules.k02 import *

PREC = {32: (24, -149, 128), 64: (53, -1074, 1024)}


class Flt:
    """a float of a width; v: exact Fraction or 'inf' / '-inf' / 'nan'"""

    def __init__(self, v, w):
        self.v, self.w = v, w

    def __eq__(self, o):
        return isinstance(o, Flt) and self.v == o.v or isinstance(self.v, Fraction) and self.v == o

    __hash__ = None


class Text:
    """the decimal text of a value"""

    def __init__(self, v, scale=None):
        self.v, self.scale = v, scale


def nearest(v, w):
    p, emin, emax = PREC[w]
    if not isinstance(v, Fraction):
        return Flt(v, w)
    if v == 0:
        return Flt(Fraction(0), w)
    a = abs(v)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a < Fraction(2) ** e:
        e -= 1
    q = Fraction(2) ** max(e - p + 1, emin)
    n, rest = divmod(a, q)
    if rest * 2 > q or rest * 2 == q and n % 2:
        n += 1
    a = n * q
    if a >= Fraction(2) ** emax:
        return Flt("inf" if v > 0 else "-inf", w)
    return Flt(a if v > 0 else -a, w)


def shortest(f):
    """the value of the shortest decimal text that reads back as f"""
    if not isinstance(f.v, Fraction) or f.v == 0:
        return f.v
    a = abs(f.v)
    d = len(str(int(a))) if a >= 1 else -(len(str(int(1 / a))) - 1)
    for n in range(1, 18):
        s = Fraction(10) ** (d - n + 1)
        for k in (-1, 0):
            s2 = s / 10 ** (1 + k)
            q = Fraction(round(a / s2)) * s2
            if nearest(q, f.w).v == a:
                return q if f.v > 0 else -q
    return f.v


def sig(v, n):
    """n significant digits, half away"""
    if v == 0:
        return v
    a, e = abs(v), 0
    while a >= 10**n:
        a /= 10
        e += 1
    while a < 10 ** (n - 1):
        a *= 10
        e -= 1
    q = Fraction(int(a + Fraction(1, 2))) * Fraction(10) ** e
    return q if v > 0 else -q


LOSSY = ("to_f64", "to_f32", "from_f64", "from_f32")


def width(t):
    s = t.a[0] if isT(t, "ty") else str(t)
    return 32 if s == "f32" else 64 if s == "f64" else None


def floats(env, t):
    o, a = t.op, t.a
    if o == "bd" and a[0] in ("bigdf", "bigdf32"):
        v = env.val(a[1][0])
        if isinstance(v, Flt):
            if not isinstance(v.v, Fraction):
                raise Broken("a float that is not finite is made a decimal")
            if a[0] == "bigdf32" and v.w == 64:
                raise Undecided("width")
            return v.v
        raise Undecided("float")
    if o in ("disp", "dbg"):
        v = env.val(a[0])
        if isinstance(v, Flt):
            return Text(shortest(v))
        return Text(Fraction(v), getattr(v, "scale", None)) if isinstance(v, Fraction) else v
    if o == "fmtspec":
        d = dict(a[0])
        v = env.val(a[1].a[0] if a[1].op in ("disp", "dbg") else a[1])
        if isinstance(v, Flt) and "prec" in d and isinstance(d["prec"], int) and isinstance(v.v, Fraction):
            n = d["prec"]
            return Text(Fraction(round(v.v * 10**n), 10**n), n)
        raise Undecided("format")
    if o == "cat":
        if len(a[0]) == 1:
            return env.val(a[0][0])
        raise Undecided("text")
    if o in ("as", "cast"):
        v = env.val(a[0])
        w = width(a[1])
        if isinstance(v, Flt):
            if w:
                return nearest(v.v, w)
            raise Undecided("cast")
        return v
    if o == "conv":
        v = env.val(a[-1])
        return v
    if o == "call":
        n = a[0].split("::")[-1]
        if n == "parse":
            s = env.val(a[1][0])
            ty = a[1][1] if len(a[1]) > 1 else None
            if isinstance(s, str):
                try:
                    s = Text(Fraction(s))
                except ValueError:
                    return E("Err", s)
            if not isinstance(s, Text):
                raise Undecided("parse")
            w = width(ty)
            if w:
                return E("Ok", nearest(s.v, w))
            if "BigDecimal" in show(ty):
                if not isinstance(s.v, Fraction):
                    return E("Err", s.v)
                return E("Ok", Dec(s.v, s.scale) if s.scale is not None else s.v)
            raise Undecided("parse")
        if n in ("is_finite", "is_nan", "is_infinite", "is_normal", "is_subnormal"):
            v = env.val(a[1][0])
            if not isinstance(v, Flt):
                raise Undecided(n)
            f = isinstance(v.v, Fraction)
            m = f and v.v != 0 and abs(v.v) < Fraction(2) ** (PREC[v.w][1] + PREC[v.w][0] - 1)
            return {"is_finite": f, "is_nan": v.v == "nan", "is_infinite": v.v in ("inf", "-inf"), "is_normal": f and v.v != 0 and not m, "is_subnormal": m}[n]
        if n in ("to_i32", "to_i64", "to_u32", "to_u64", "to_usize", "to_u8", "to_i128"):
            v = env.val(a[1][0])
            return E("Some", int(v)) if v >= 0 or n[3] == "i" else E("None")
        if n in LOSSY and ("Primitive" in a[0] or "BigDecimal" in a[0]):
            v = env.val(a[1][0])
            if n.startswith("from") and isinstance(v, Flt) and v.v in (Fraction(1, 2), 0, 1):
                return E("Some", v.v)
            raise Broken("goes through %s, which does not keep every digit" % n)
        if n in ("with_prec", "round") and len(a[1]) == 2 and "BigDecimal" in a[0]:
            v, k = env.num(a[1][0]), env.num(a[1][1])
            return sig(Fraction(v), k) if n == "with_prec" else Fraction(round(v * 10**k), 10**k)
        if n == "normalized":
            return env.val(a[1][0])
        if n in ("ok", "ok_or", "ok_or_else", "map_err"):
            raise Undecided(n)
    if o == "bd" and a[0] == "round":
        v, k = env.num(a[1][0]), env.num(a[1][1])
        q = trunc(abs(Fraction(v)) + Fraction(1, 2 * 10**k), k) if k >= 0 else abs(Fraction(v))
        return q if v >= 0 else -q
    if o in ("eq", "lt", "le", "ne", "gt", "ge"):
        x, y = env.val(a[0]), env.val(a[1])
        c = lambda z: z.v if isinstance(z, Flt) else z
        x, y = c(x), c(y)
        if isinstance(x, str) != isinstance(y, str):
            big = lambda z: {"inf": 1, "-inf": -1}.get(z, 0) if isinstance(z, str) else 0
            x, y = big(x), big(y)
        if isinstance(x, float):
            x = Fraction(x)
        if isinstance(y, float):
            y = Fraction(y)
        return {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[o]()
    if o in ("float", "flt"):
        return Flt(Fraction(a[0]) if isinstance(a[0], (int, float)) else Fraction(str(a[0])), 64)
    if o == "call" and a[0].split("::")[-1] == "abs":
        v = env.val(a[1][0])
        if isinstance(v, Flt):
            return Flt(abs(v.v) if isinstance(v.v, Fraction) else "inf", v.w)
    return decimal_ops(env, t)


H = Fraction(1, 2)
IEEE = [("0", Fraction(0)), ("1", Fraction(1)), ("0.1", Fraction(1, 10)), ("-0.1", Fraction(-1, 10)), ("1/3", Fraction(int("3" * 60), 10**60)), ("pi", Fraction("3.14159265358979323846264338327950288419716939937510582")),
        ("half up 24", 1 + H**24 + H**70), ("half even 24", 1 + H**24), ("half odd 24", 1 + 3 * H**24), ("half down 24", 1 + 3 * H**24 - H**70), ("half up 53", 1 + H**53 + H**120), ("half even 53", 1 + H**53), ("half odd 53", 1 + 3 * H**53),
        ("just below 2", 2 - H**60), ("near 1e22", Fraction("1e22") + Fraction(1, 10**30)), ("1e23", Fraction("1e23")), ("123456789.123456789", Fraction("123456789.123456789")), ("1e38", Fraction("1e38")), ("3.4028235677973366e38", Fraction(2**128 - 2**103)),
        ("just above the largest f32", Fraction(2**128 - 2**103 - 1)), ("3.5e38", Fraction("3.5e38")), ("-3.5e38", Fraction("-3.5e38")), ("1e-38", Fraction("1e-38")), ("1e-40", Fraction("1e-40")), ("-1e-44", Fraction("-1e-44")), ("1e-46", Fraction("1e-46")), ("1e300", Fraction("1e300")),
        ("1.8e308", Fraction("1.8e308")), ("2.3e-308", Fraction("2.3e-308")), ("1e-310", Fraction("1e-310")), ("5e-324", Fraction("5e-324")), ("2e-324", Fraction("2e-324")), ("-7e-320", Fraction("-7e-320"))]


def ieee(r, p):
    n = 0
    f = BD + "round_ieee"
    where = "doctor-syn/src/bdmath.rs round_ieee"
    if r.anchor("bdmath::round_ieee", f in p.bodies):
        try:
            lv = leaves_of(p, f, [kernel_hook(tuple(k for k in KERNEL if k != "round_ieee"))], True)
        except interp_Undecided as x:
            r.undecided("round_ieee", str(x)[:200], where)
            lv = []
        for w in (32, 64, 16, 0, 65) if lv else ():
            for name, v in IEEE if w in (32, 64) else IEEE[:3]:
                n += 1
                key = "round_ieee(%s,%d)" % (name, w)
                want = nearest(v, w) if w in (32, 64) else None
                try:
                    env, l = choose(lv, lambda fo: fenv({"p1": v, "p2": Fraction(w), "p3": 40}, fo))
                    if l[0] == "panic":
                        raise Broken("panics when " + "; ".join(show(y[1])[:80] for y in l[1][-2:]))
                    got = env.val(l[2])
                    if not isinstance(got, E):
                        raise Undecided("result " + show(l[2])[:100])
                    if want is None:
                        r.check(key, got.v == "Err", "a width of %d bits is accepted" % w, where, "refused")
                    elif not isinstance(want.v, Fraction):
                        r.check(key, got.v == "Err", "%s overflows %d bits but is accepted" % (name, w), where, "refused")
                    elif got.v != "Ok":
                        r.bad(key, "is refused, although the nearest float exists: %.17g" % float(want.v), where)
                    else:
                        g = got.p[0].v if isinstance(got.p[0], Flt) else got.p[0]
                        if not isinstance(g, Fraction):
                            raise Undecided("result " + show(l[2])[:100])
                        r.check(key, g == want.v, "%s at %d bits gives %s; the nearest float is %s (off by %s)" % (name, w, flt(g), flt(want.v), flt(g - want.v)), where, "the nearest float")
                except Broken as x:
                    r.bad(key, str(x), where)
                except (Undecided, NoElem) as x:
                    r.undecided(key, str(x)[:200], where)
    for fn, w in (("bigdf", 64), ("bigdf32", 32)):
        f = BD + fn
        where = "doctor-syn/src/bdmath.rs " + fn
        if f not in p.bodies:
            r.undecided(fn, "not found", where)
            continue
        try:
            lv = leaves_of(p, f, [kernel_hook(tuple(k for k in KERNEL if k != fn))], True)
        except interp_Undecided as x:
            r.undecided(fn, str(x)[:200], where)
            continue
        vs = {nearest(v, w).v for _, v in IEEE} | {nearest(Fraction(x), w).v for x in ("0.1", "1e-5", "-2.5", "1e15", "7e-46", "5e-324", "1.1754944e-38")}
        for v in sorted(x for x in vs if isinstance(x, Fraction)):
            n += 1
            key = "%s(%s)" % (fn, flt(v))
            try:
                env, l = choose(lv, lambda fo: fenv({"p1": Flt(v, w)}, fo))
                if l[0] == "panic":
                    raise Broken("panics when " + "; ".join(show(y[1])[:80] for y in l[1][-2:]))
                g = env.val(l[2])
                g = g.v if isinstance(g, Flt) else g
                if not isinstance(g, Fraction):
                    raise Undecided("result " + show(l[2])[:100])
                r.check(key, g == v, "the decimal of the float %s is off by %s" % (flt(v), flt(Fraction(g) - v)), where, "exact")
            except Broken as x:
                r.bad(key, str(x), where)
            except (Undecided, NoElem) as x:
                r.undecided(key, str(x)[:200], where)
    return n


def fenv(params, fo):
    e = NumEnv(params, fo, floats)
    e.unsigned = False
    return e


def flt(f):
    return mpmath.nstr(nums.fr(f), 20)
