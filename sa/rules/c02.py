import re
from rules.evalcommon import *

EDIT = re.compile(r"(^|::)(to_(ascii_)?(upper|lower)case|trim\w*|strip_\w+|replacen?|starts_with|ends_with|split\w*|eq_ignore_ascii_case|contains|chars)$")
RULE = ("one-step transfer function of Eval::visit_expr on Binary/Unary/Paren/Lit/Path nodes (children replaced by the induction "
        "hypothesis visit(child)): each supported operator must yield the matching BigDecimal operation of the two visited operands in order, "
        "unsupported operators / non-numeric operands / unknown names must yield Err, and Err must not be produced for supported ones")

ARITH = {"Add": False, "Sub": False, "Mul": True, "Div": True}
CMP = {"Lt": ("lt", 0, True), "Gt": ("lt", 1, True), "Le": ("lt", 1, False), "Ge": ("lt", 0, False), "Eq": ("eq", 0, True), "Ne": ("eq", 0, False)}


def run(r):
    ip, leaves = eval_leaves(r)
    if not leaves:
        return
    where = "doctor-syn/src/transformation/eval.rs impl Visitor for Eval"
    seen = {}
    for lf in leaves:
        if lf.kind != "return":
            continue
        k = node_kind(lf, NODE)
        v = sem(ip.resolve(lf.st, lf.val))
        if k == "Binary":
            binary(r, lf, v, where, seen)
        elif k == "Unary":
            unary(r, lf, v, where, seen)
        elif k == "Paren":
            c = child(NODE, "Paren", "expr")
            ok = v is T("visit", c) or okval(v) is vres(c) or is_child_err(lf, v, [c])
            soft(r, "paren", ok, v, "a parenthesised expression must evaluate to what its content evaluates to; got " + show(v), where, show(v))
            seen["paren"] = 1
        elif k == "Lit":
            x = okval(v)
            t = from_syn(x) if x is not None else None
            ok = x is not None and (x is NODE or (isT(t, "xhole") and t.a[0] is NODE))
            soft(r, "literal", ok, v, "a literal must evaluate to itself; got " + show(v), where, show(v))
            seen["literal"] = 1
        elif k == "Path":
            path(r, lf, v, where, seen)
        elif isinstance(k, tuple):
            soft(r, "unsupported node", errval(v) is not None, v, "nodes outside the supported set must evaluate to Err; got " + show(v), where, show(v), definite=okval(v) is not None)
            seen["unsupported node"] = 1
    for k in list(ARITH) + list(CMP):
        r.check("present/" + k, seen.get(k, 0) > 0, "no evaluation path returns a value for BinOp::" + k, where)
    for k in ("Neg", "PI", "paren", "literal", "unsupported node", "other binary operator", "other unary operator", "unknown name"):
        r.check("present/" + k, seen.get(k, 0) > 0, "no evaluation path handles: " + k, where)
    r.floor("evaluation paths", len(leaves), 30)
    r.assume("the numeric kernels of doctor_syn::bdmath and the bigdecimal crate are uninterpreted here")


def binary(r, lf, v, where, seen):
    L, R = child(NODE, "Binary", "left"), child(NODE, "Binary", "right")
    op = child(NODE, "Binary", "op")
    a, b = vres(L), vres(R)
    o = lf.st.v.get(op)
    nops = lf.st.nv.get(op, frozenset())
    x = okval(v)
    if x is None:
        e = errval(v)
        if e is None:
            r.undecided("binary/result", show(v), where)
            return
        if is_child_err(lf, v, [L, R]):
            r.ok("binary/child error", show(v), where)
            return
        if o in ARITH or o in CMP:
            # supported operator: Err only when an operand is not a number (or a guarded domain failure)
            na, nb = num_fact(lf, a), num_fact(lf, b)
            if na is False or nb is False:
                r.ok("binary/non-numeric operand", show(v), where)
            elif o == "Div" and guarded(lf, b):
                r.ok("Div/by zero", show(v), where)
            else:
                r.check("%s/err" % o, opaque(v), "operator %s with two numeric operands must produce a value, but a path returns %s  [path: %s]" % (o, show(v), factstr(lf.st)), where)
        else:
            seen["other binary operator"] = 1
            r.ok("binary/err", show(v), where)
        return
    if o is None:
        r.check("binary/other operator", opaque(v), "an operator outside + - * / < > <= >= == != must be Err, but a path returns %s  [path: %s]" % (show(v), factstr(lf.st)), where)
        return
    if o not in ARITH and o not in CMP:
        # an additional operator: must at least denote its own operation
        r.check("binary/other operator", opaque(v), "operator %s is not evaluable but a path returns %s" % (o, show(v)), where)
        return
    na, nb = T("num", a), T("num", b)
    if o in ARITH:
        core = [T("op", o, na, nb)]
        if o in ("Add", "Mul"):
            core.append(T("op", o, nb, na))
        want = [T("numexpr", T("bd", "round", (c, ND)) if ARITH[o] else c) for c in core]
        good = x in want
        if not good and opaque(x):
            r.undecided(o, show(x), where)
            return
        seen[o] = seen.get(o, 0) + good
        r.check(o, good, "`l %s r` must evaluate to %s; the path returns %s  [path: %s]" % (o, show(want[0]), show(x), factstr(lf.st)), where, show(x))
        return
    kind, sw, pol = CMP[o]
    t = boolval(x)
    if t is None:
        if opaque(x):
            r.undecided(o, show(x), where)
        else:
            r.bad(o, "comparison %s must evaluate to a truth value; got %s" % (o, show(x)), where)
        return
    args = (na, nb) if not sw else (nb, na)
    cond = EQ(*args) if kind == "eq" else T("lt", *args)
    if isinstance(t, T):
        tt, pv = normbool(t, True)
        good = tt is cond and pv == pol
    else:
        f = dict(facts_true(lf.st)).get(cond)
        if f is None:
            r.undecided(o, "truth value under " + factstr(lf.st), where) if opaque(x) else r.bad(o, "comparison %s returns %s without testing its operands accordingly  [path: %s]" % (o, t, factstr(lf.st)), where)
            return
        good = t == (f == pol)
    seen[o] = seen.get(o, 0) + good
    r.check(o, good, "comparison %s returns %s on the path [%s]" % (o, show(x), factstr(lf.st)), where, show(x))


def boolval(x):
    """True/False or a boolean term, for an Expr term that is a bool literal"""
    if x.op == "parsed" and len(x.a[1].a[0]) == 1:
        k = x.a[1].a[0][0]
        if k.op == "id" and k.a[0] in ("true", "false"):
            return k.a[0] == "true"
        if k.op == "interp":
            y = k.a[0]
            return y.a[0] if y.op == "litof" else y
    return None


def num_fact(lf, e):
    n = numericness(lf.st, e)
    if n is None:
        c = lf.st.v.get(T("tonum", "BigDecimal", e))
        if c == "Err":
            return False
        if c == "Ok":
            return True
    c = lf.st.v.get(T("tonum", "BigDecimal", e))
    if c == "Err":
        return False
    return n


def guarded(lf, b):
    """a fact about the divisor's value being zero"""
    nb = T("num", b)
    for t, val in facts_true(lf.st):
        if nb in subterms(t) and val:
            if t.op == "eq" or (t.op == "call" and "is_zero" in t.a[0]):
                return True
    for f in lf.st.order:
        if f[0] == "is" and f[2] in ("None", "Err") and nb in subterms(sem(f[1])):
            return True
    return False


def unary(r, lf, v, where, seen):
    C = child(NODE, "Unary", "expr")
    op = child(NODE, "Unary", "op")
    a = vres(C)
    o = lf.st.v.get(op)
    x = okval(v)
    if x is None:
        if errval(v) is None:
            r.undecided("unary/result", show(v), where)
            return
        if is_child_err(lf, v, [C]) or num_fact(lf, a) is False:
            r.ok("unary/err", show(v), where)
        elif o == "Neg":
            r.check("Neg/err", opaque(v), "negating a numeric operand must produce a value, a path returns " + show(v), where)
        else:
            seen["other unary operator"] = 1
            r.ok("unary/other operator", show(v), where)
        return
    if o != "Neg":
        r.check("unary/other operator", opaque(x), "only unary minus is evaluable; for %s a path returns %s" % (o or "another operator", show(x)), where)
        return
    good = x in (T("numexpr", T("op", "Neg", T("num", a))), T("numexpr", T("op", "Sub", T("bd", "zero", ()), T("num", a))))
    if not good and opaque(x):
        r.undecided("Neg", show(x), where)
        return
    seen["Neg"] = seen.get("Neg", 0) + good
    r.check("Neg", good, "`-x` must evaluate to the negated operand; got " + show(x), where, show(x))


def path(r, lf, v, where, seen):
    x = okval(v)
    name = None
    pos = False
    for t, val in facts_true(lf.st):
        if t.op == "eq" and val:
            for y in t.a:
                if y.op == "str":
                    name = y.a[0]
                    via = [z for z in subterms(t) if z.op == "call" and isinstance(z.a[0], str) and EDIT.search(z.a[0])]
                    if via and okval(v) is not None:
                        r.bad("name/" + name, "a name is compared with %s only after it was changed by %s: other names evaluate like it" % (name, via[0].a[0]), where)
                        return
    if x is None:
        if errval(v) is None:
            r.undecided("name/result", show(v), where)
        elif name == "PI":
            r.bad("PI", "the constant PI must evaluate to pi(num_digits), a path returns " + show(v), where)
        else:
            seen["unknown name"] = 1
            r.ok("unknown name", show(v), where)
        return
    if name != "PI":
        if name is None or not x.op == "numexpr":
            soft(r, "unknown name", False, v, "an unbound name must be Err; a path returns %s [%s]" % (show(x), factstr(lf.st)), where, "")
        else:
            r.bad("name/" + name, "the name %s is not defined by the library's language, but evaluates to %s" % (name, show(x)), where)
        return
    good = x is T("numexpr", T("bd", "pi", (ND,)))
    seen["PI"] = seen.get("PI", 0) + good
    soft(r, "PI", good, x, "PI must evaluate to pi(num_digits); got " + show(x), where, show(x))
