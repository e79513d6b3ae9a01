"""Meaning of the values interpolated into the generator's templates."""
from gen import *


def peel_hole(t):
    """strip the library's tree-level wrappers: (core term, [wrappers])"""
    w = []
    while True:
        if t.op == "fld" and t.a[1] in ("Ok", "Some") and t.a[2] == "0":
            t = t.a[0]
            continue
        if t.op == "fld" and t.a[1] is None and t.a[2] == "inner":
            t = t.a[0]
            continue
        if t.op == "conv":
            t = t.a[-1] if isinstance(t.a[-1], T) else t.a[0]
            continue
        if t.op == "lib":
            n = t.a[0].split("::")[-1]
            if n == "into_inner" or n == "clone":
                t = t.a[1][0]
                continue
            if n == "use_number_type":
                w.append(("number_type", t.a[1][1], t.a[1][2]))
                t = t.a[1][0]
                continue
            if n == "paren":
                t = t.a[1][0]
                continue
        if t.op == "ctor" and t.a[0].endswith("Expression") and len(t.a[2]) == 1:
            t = t.a[2][0][1]
            continue
        return t, w


def exprof(t):
    """parsed expression tree of an Expression term, or None"""
    t, _ = peel_hole(t)
    if t.op == "parsed":
        try:
            return parse_expr(t.a[1].a[0])
        except ParseError:
            return None
    return from_syn(t)


def nameof(t):
    t, _ = peel_hole(t)
    if t.op == "ctor" and t.a[0].endswith("Name") and len(t.a[2]) == 1:
        t = t.a[2][0][1]
    if t.op == "parsed":
        ts = t.a[1].a[0]
        if len(ts) == 1 and ts[0].op == "id":
            return ts[0].a[0]
    if t.op == "lib" and t.a[1]:
        for x in t.a[1]:
            if x.op == "str":
                return x.a[0]
    return None


class Approx:
    """an interpolated polynomial approximation"""

    def __init__(self, args, wraps):
        self.term = args
        self.expr = exprof(args[0])
        self.terms = args[1].a[0] if args[1].op == "int" else args[1]
        self.xmin, self.xmax = args[2], args[3]
        self.var = nameof(args[4])
        self.parity = args[5].a[1] if args[5].op == "ctor" else None
        self.digits = args[6]
        self.wraps = wraps


def hole(t):
    """('approx', Approx) | ('eval', expr, digits, wraps) | ('tokens', t) | ('other', t)"""
    c, w = peel_hole(t)
    if c.op == "lib":
        n = c.a[0].split("::")[-1]
        if n == "approx" and len(c.a[1]) == 7:
            return ("approx", Approx(c.a[1], w))
        if n == "eval" and len(c.a[1]) == 2:
            return ("eval", exprof(c.a[1][0]), c.a[1][1], w)
    return ("other", c)


def hole_type(t):
    h = hole(t)
    if h[0] == "approx":
        for k, nt, bits in h[1].wraps:
            if bits.op == "int":
                return "f%d" % bits.a[0]
            return None
        return "ambiguous"
    if h[0] == "eval":
        for k, nt, bits in h[3]:
            return "f%d" % bits.a[0] if bits.op == "int" else None
        e = h[1]
        return "{float}"
    if t.op == "litof" and len(t.a) > 1 and t.a[1] in LITTY:
        return t.a[1]
    return None


LITTY = {"f32", "f64"} | {s + w for s in "iu" for w in ("8", "16", "32", "64", "128", "size")}
