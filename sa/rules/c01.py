from sem import *
from load import prog

RULE = ("value-flow summary of the four arithmetic operator impls of Expression; on every path the returned term must be "
        "the literal of the BigDecimal operation on both operands' values (both numeric literals) or the same operator on the parenthesised operands")

OPS = {"Add": ("add", "+"), "Sub": ("sub", "-"), "Mul": ("mul", "*"), "Div": ("div", "/")}


def run(r):
    p = prog()
    n = 0
    for tr, (m, sym) in OPS.items():
        path = "<doctor_syn::expression::Expression as core::ops::arith::%s>::%s" % (tr, m)
        if not r.anchor(path, path in p.bodies):
            continue
        ip = p.interp(hooks=[conv_hook])
        a, b = FLD(SYM("p1"), None, "inner"), FLD(SYM("p2"), None, "inner")
        leaves = ip.run(path)
        where = "doctor-syn/src/expression.rs %s::%s" % (tr, m)
        seen = {"numeric": 0, "symbolic": 0}
        for lf in leaves:
            if lf.kind != "return":
                continue
            n += 1
            v = unwrap_inner(sem(ip.resolve(lf.st, lf.val)))
            na, nb = converts(lf.st, a), converts(lf.st, b)
            both = True if (na and nb) else (False if (na is False or nb is False) else None)
            key = "%s/%s" % (m, {True: "numeric", False: "symbolic", None: "unclassified"}[both])
            if both is not False:
                want = [T("numexpr", T("op", tr, T("num", a), T("num", b)))]
                if tr in ("Add", "Mul"):
                    want.append(T("numexpr", T("op", tr, T("num", b), T("num", a))))
                good = v in want
                if good and tr == "Div" and zero(lf.st, b) is None and not tests(lf.st, b):
                    r.bad(key + "/zero", "a quotient of literals is computed without a look at the divisor: `1 / 0` aborts instead of staying a quotient", where)
                    continue
                if good:
                    # the operands' values exist on this path: both were read as numbers
                    seen["numeric"] += 1
                    r.ok(key, show(v), where)
                    continue
                z = zero(lf.st, b) if both is True and tr == "Div" else False
                if z:
                    both = False  # an undefined quotient stays an expression
                elif both is True and z is False and symbolic(v):
                    r.bad(key, "numeric operands%s: `a %s b` must be the literal of the value; the path builds `%s`  [path: %s]"
                          % (" with a nonzero divisor" if tr == "Div" else "", sym, symbolic(v), factstr(lf.st)), where)
                    continue
                elif opaque(v) or z is None:
                    r.undecided(key, show(v), where)
                    continue
                elif both is True or v.op == "numexpr":
                    r.bad(key, "numeric operands: `a %s b` must be the literal of the BigDecimal %s of the operand values in order; the path returns %s  [path: %s]" % (sym, tr, show(v), factstr(lf.st)), where)
                    continue
            if both is not True:
                try:
                    tr_ = from_syn(v)
                except ParseError as e:
                    r.undecided(key, str(e), where)
                    continue
                if tr_ is None:
                    if v.op in ("sym", "fld", "numexpr"):
                        r.bad(key, "non-numeric operands: expected (a) %s (b), the path returns %s" % (sym, show(v)), where)
                    else:
                        r.undecided(key, "unrecognised value " + show(v), where)
                    continue
                ok = tr_.op == "xbin" and tr_.a[0] == sym and hole_is(tr_.a[1], a) and hole_is(tr_.a[2], b) and isT(tr_.a[1], "xparen") and isT(tr_.a[2], "xparen")
                seen["symbolic"] += ok
                r.check(key, ok, "non-numeric operands: expected `(a) %s (b)`, the path builds `%s`  [path: %s]" % (sym, etext(tr_), factstr(lf.st)), where, etext(tr_))
        for k in seen:
            r.check("%s/%s/present" % (m, k), seen[k] > 0, "no path of `%s` returns the %s form" % (m, k), where)
    r.floor("operator paths", n, 12)
    r.assume("BigDecimal arithmetic and syn's literal parser/printer are trusted")


def zero(st, b):
    """True / False / None: the path knows the divisor is / is not zero / has not tested it in a recognised way"""
    r = None
    for t, val in facts_true(st):
        if T("num", b) not in subterms(t):
            continue
        if t.op == "call" and t.a[0].split("::")[-1] == "is_zero" and t.a[1] == (T("num", b),):
            return val
        if "zero" in show(t).lower() or "sign" in show(t).lower() or INT(0) in subterms(t):
            return val if t.op == "eq" else None
        r = None
    return r


def tests(st, b):
    """does the path ask anything about the divisor's value"""
    return any(T("num", b) in subterms(t) or T("numexpr", T("num", b)) in subterms(t) for t, val in facts_true(st))


def converts(st, e):
    """is the operand a numeric literal on this path (its conversion to a number succeeded)"""
    n = numericness(st, e)
    if n is None:
        v = st.v.get(T("tonum", "BigDecimal", e))
        n = {"Ok": True, "Err": False}.get(v)
    return n


def symbolic(v):
    try:
        e = from_syn(v)
    except ParseError:
        return None
    return etext(e) if e is not None and e.op == "xbin" else None


def unwrap_inner(v):
    if isT(v, "ctor") and v.a[0] == "doctor_syn::expression::Expression":
        return v.a[2][0][1]
    return v


def hole_is(e, t):
    e = strip_paren(e)
    if not isT(e, "xhole"):
        return False
    x = e.a[0]
    return x is t or FLD(x, None, "inner") is t
