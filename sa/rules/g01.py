from rules.ccommon import *

RULE = ("the visitor methods of the C back end as text templates, composed for every pair (and, for operators, chain of three) of expression kinds "
        "that Rust's grammar allows without parentheses; the composed C text is parsed with C's precedences and must group, order and combine its "
        "operands as the Rust expression does")


def kinds(t):
    """expression kinds with fresh leaves (suffix t)"""
    a, b, c = P("a" + t), P("b" + t), P("c" + t)
    out = {}
    for o in OPS:
        out[o] = BIN(o, a, b)
    out["Neg"] = UN("Neg", a)
    out["Not"] = UN("Not", a)
    out["Cast"] = CAST(a, "fty")
    out["Paren"] = PAREN(BIN("Sub", a, b))
    out["Call"] = CALL("g", a, b)
    out["from_bits"] = CALL(P("fty", "from_bits"), a)
    out["sqrt"] = MC(a, "sqrt")
    out["to_bits"] = MC(a, "to_bits")
    out["recip"] = MC(a, "recip")
    out["wrapping_sub"] = MC(a, "wrapping_sub", b)
    out["mul_add"] = MC(a, "mul_add", b, c)
    out["If"] = IF(BIN("Lt", a, b), BLK(TAIL(a)), BLOCK(BLK(TAIL(b))))
    out["Block"] = BLOCK(BLK(LET("v" + t, "fty", BIN("Sub", a, b)), TAIL(P("v" + t))))
    out["Float"] = FLOAT("1.5")
    out["Int"] = INTL("7")
    out["Path"] = a
    return out


def slots():
    """name -> (function child -> expression, minimal precedence of an unparenthesised child)"""
    a, b, c = P("p"), P("q"), P("r")
    out = {}
    for o, s in OPS.items():
        p = RPREC[s]
        out[o + ".left"] = (lambda x, o=o: BIN(o, x, b), p + 1 if p == 11 else p)
        out[o + ".right"] = (lambda x, o=o: BIN(o, a, x), p + 1)
    out["Neg"] = (lambda x: UN("Neg", x), 19)
    out["Not"] = (lambda x: UN("Not", x), 19)
    out["Cast"] = (lambda x: CAST(x, "fty"), 18)
    out["Paren"] = (lambda x: PAREN(x), 0)
    out["Call.0"] = (lambda x: CALL("f", x, b), 0)
    out["Call.1"] = (lambda x: CALL("f", a, x), 0)
    out["from_bits"] = (lambda x: CALL(P("fty", "from_bits"), x), 0)
    for m, n in (("sqrt", 0), ("to_bits", 0), ("recip", 0), ("min", 1), ("wrapping_add", 1), ("wrapping_sub", 1), ("wrapping_mul", 1), ("mul_add", 2)):
        rest = (b, c)[:n]
        out[m + ".self"] = (lambda x, m=m, rest=rest: MC(x, m, *rest), 20)
        for i in range(n):
            out["%s.%d" % (m, i)] = (lambda x, m=m, n=n, i=i: MC(a, m, *[x if j == i else (b, c)[j] for j in range(n)]), 0)
    out["If.cond"] = (lambda x: IF(x, BLK(TAIL(a)), BLOCK(BLK(TAIL(b)))), 0)
    out["If.then"] = (lambda x: IF(c, BLK(TAIL(x)), BLOCK(BLK(TAIL(b)))), 0)
    out["If.else"] = (lambda x: IF(c, BLK(TAIL(a)), BLOCK(BLK(TAIL(x)))), 0)
    out["If.elseif"] = (lambda x: IF(c, BLK(TAIL(a)), IF(x, BLK(TAIL(a)), BLOCK(BLK(TAIL(b))))), 0)
    out["Block.tail"] = (lambda x: BLOCK(BLK(LET("w", "fty", a), TAIL(x))), 0)
    out["Block.let"] = (lambda x: BLOCK(BLK(LET("w", "fty", x), TAIL(b))), 0)
    out["Block.do"] = (lambda x: BLOCK(BLK(SEMI(x), TAIL(b))), 0)
    out["Assign.right"] = (lambda x: ASSIGN(a, x), 2)
    for o in AOPS:
        out[o + ".right"] = (lambda x, o=o: ASSIGNOP(o, a, x), 2)
    return out


def run(r):
    cg = load(r)
    if cg is None:
        return
    tr = Trans(cg)
    n = [0]

    def one(key, e, what):
        n[0] += 1
        try:
            got, txt = expr_of(tr, e)
        except Undecided as x:
            r.undecided(key, str(x), FILE)
            return
        except Broken as x:
            r.bad(key, "%s: %s" % (what, x), FILE)
            return
        except CError as x:
            r.bad(key, "%s is not translated to a C expression: %s: %s" % (what, x, tr.call("visit_expr", e)[:200]), FILE)
            return
        want = alpha(rust(e))
        r.check(key, got == want, "%s becomes `%s`, which means %s instead of %s" % (what, " ".join(txt.split())[:200], d(got), d(want)), FILE)

    K = kinds("")
    for k, e in K.items():
        one("kind/" + k, e, k)
    sl = slots()
    for s, (f, p) in sl.items():
        for k, c in K.items():
            if rprec(c) < p:
                continue
            # an assignment inside other expressions has no value in Rust
            one("nest/%s/%s" % (s, k), f(c), "%s inside %s" % (k, s))
    # assignments only stand as statements or alone in parentheses
    one("kind/Assign", ASSIGN(P("a"), P("b")), "assignment")
    for o in AOPS:
        one("kind/" + o, ASSIGNOP(o, P("a"), P("b")), o)
        one("do/" + o, BLOCK(BLK(SEMI(ASSIGNOP(o, P("a"), P("b"))), TAIL(P("a")))), o + " as a statement")
    one("do/Assign", BLOCK(BLK(SEMI(ASSIGN(P("a"), P("b"))), TAIL(P("a")))), "assignment statement")
    # chains of three
    reps = ("Add", "Mul", "BitAnd", "Lt", "Neg", "Cast", "If")
    keep = {k: v for k, v in sl.items() if k.split(".")[0] in ("Add", "Div", "Shr", "BitAnd", "BitXor", "BitOr", "Eq", "Lt", "And", "Or", "Neg", "Not", "Cast", "recip", "mul_add", "If", "Block")}
    for s1, (f1, p1) in keep.items():
        for s2, (f2, p2) in keep.items():
            x = f2(K["Path"])
            if rprec(x) < p1:
                continue
            for k in reps:
                if rprec(K[k]) < p2:
                    continue
                one("chain/%s/%s" % (s1, s2), f1(f2(K[k])), "%s inside %s inside %s" % (k, s2, s1))
    # `!` of an integer
    try:
        got, txt = expr_of(tr, UN("Not", P("a")))
        r.check("not/integer", got == ("un", "~", ("id", "a")), "the complement of an integer becomes the logical negation `%s`" % txt, FILE)
    except (Undecided, CError, Broken) as x:
        r.undecided("not/integer", str(x), FILE)
    r.floor("expression schemas", n[0], 500)
    r.saw("visitor methods", len(tr.used))
    r.assume("syn's default visitors dispatch on the variant; C operators have the precedences of the C standard")
