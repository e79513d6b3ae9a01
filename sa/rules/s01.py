from rules.scommon import *
from rules.ccommon import *
from rules.g01 import kinds, slots
from rules.scommon import load as L
from simd import expr, Undecided, Broken, E, S
from rules import ccommon as cc

RULE = ("the visitor methods of the SIMD back end as rewriting templates, composed for every pair (and, for operators, chain of three) of expression kinds that Rust's grammar "
        "allows without parentheses; the converted expression, printed and parsed again, must do to each lane what the expression does to its number, using only what SIMD types have")


def run(r):
    sg = L(r)
    if sg is None:
        return
    n = [0]
    used = set()
    for bits in (32, 64):
        tr = Conv(sg, bits)
        src, dst = Den(bits, False), Den(bits, True)

        def one(key, e, what):
            n[0] += 1
            key = "%s/%d" % (key, bits)
            try:
                want = src.e(e, {})
                txt = exprt(tr.convert(e))
                got = dst.e(reparse(lex(txt)), {})
            except Undecided as x:
                r.undecided(key, str(x), RFILE)
            except Broken as x:
                r.bad(key, "%s at %d bits: %s" % (what, bits, x), RFILE)
            except NoLane as x:
                r.bad(key, "%s becomes `%s` at %d bits: %s" % (what, txt[:200], bits, x), RFILE)
            else:
                r.check(key, got == want, "%s at %d bits becomes `%s`, which means %s instead of %s" % (what, bits, txt[:200], sh(got), sh(want)), RFILE)

        K = kinds("")
        b = str(bits)
        for nm, f, d in (("Float", FLOAT, "1.5"), ("Int", INTL, "7")):
            for sfx in ("u" + b, "i" + b, "f" + b, ""):
                if nm == "Float" and sfx and sfx[0] != "f":
                    continue
                K["%s_%s" % (nm, sfx)] = f(d, sfx)
        for t in ("uty", "ity", "u" + b, "i" + b, "f" + b, "u8", "i16", "usize"):
            K["Cast_" + t] = CAST(P("a"), t)
        for c in ("NAN", "INFINITY", "MIN_POSITIVE"):
            K[c] = P("f" + b, c)
        for m, k in (("wrapping_add", 1), ("wrapping_mul", 1), ("to_bits", 0), ("floor", 0), ("abs", 0), ("min", 1)):
            K[m] = MC(P("a"), m, *[P("b")][:k])
        K["Call1"] = CALL("g", P("a"))
        K["Call3"] = CALL("g", P("a"), P("b"), P("c"))
        K["Tuple"] = E("Tuple", S("ExprTuple", attrs=[], elems=[BIN("Add", P("a"), P("b")), P("c")]))
        K["If_lets"] = IF(BIN("Ge", P("a"), P("b")), BLK(LET("v", "fty", BIN("Sub", P("a"), P("b"))), TAIL(BIN("Mul", P("v"), P("v")))), BLOCK(BLK(LET("v", "uty", P("a")), TAIL(P("v")))))
        K["If_else_if"] = IF(BIN("Eq", P("a"), P("b")), BLK(TAIL(P("c"))), IF(BIN("Ne", P("a"), P("c")), BLK(TAIL(BIN("Sub", P("a"), P("b")))), BLOCK(BLK(TAIL(BIN("Add", P("a"), P("b")))))))
        for k, e in K.items():
            one("kind/" + k, e, k)
        sl = {k: v for k, v in slots().items() if not k.startswith("Assign") and k not in [x + ".right" for x in AOPS]}
        for t in ("uty", "ity"):
            sl["Cast_" + t] = (lambda x, t=t: CAST(x, t), 18)
        for s, (f, p) in sl.items():
            for k, c in K.items():
                if rprec(c) < p:
                    continue
                one("nest/%s/%s" % (s, k), f(c), "%s inside %s" % (k, s))
        used |= tr.used
        if bits == 64 and r.tier == "quick":
            continue
        reps = ("Add", "Mul", "BitAnd", "Lt", "Neg", "Cast", "If", "wrapping_mul", "And")
        keep = {k: v for k, v in sl.items() if k.split(".")[0] in ("Add", "Div", "Shr", "BitAnd", "BitXor", "BitOr", "Eq", "Lt", "And", "Or", "Neg", "Not", "Cast", "wrapping_sub", "mul_add", "If", "Block", "Call")}
        for s1, (f1, p1) in keep.items():
            for s2, (f2, p2) in keep.items():
                x = f2(K["Path"])
                if rprec(x) < p1:
                    continue
                for k in reps:
                    if rprec(K[k]) < p2:
                        continue
                    one("chain/%s/%s" % (s1, s2), f1(f2(K[k])), "%s inside %s inside %s" % (k, s2, s1))
        used |= tr.used
    r.floor("expression schemas", n[0], 500)
    r.saw("visitor methods", len(used))
    r.assume("syn's default visitors visit every part once; lane-wise operators, select, cast and splat mean what core::simd documents; parts are evaluated without side effects")
