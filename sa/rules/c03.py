from rules.evalcommon import *

RULE = ("one-step transfer function of Eval on method calls: for every (method name, argument count) that yields a value, the value must be the kernel of that name "
        "applied to receiver, then the arguments in order, then the digit count; a kernel's domain failure and every other (name, arity) must be Err")


# functions of BigDecimal that drop digits of (or cannot represent) their receiver

def bd(n, *a):
    return T("bd", n, tuple(a))


def table(x, a0, a1):
    nd = ND
    un = {n: (0, [bd(n, x, nd)], False) for n in ("sin", "cos", "tan", "atan", "erf", "erfc", "exp")}
    t = dict(un)
    for n in ("asin", "acos"):
        t[n] = (0, [bd(n, x, nd)], True)
    t["ln"] = (0, [bd("ln", x, nd)], True)
    t["round"] = (0, [bd("round", x, INT(0))], False)
    t["abs"] = (0, [T("call", "bigdecimal::BigDecimal::abs", (x,)), T("call", "<bigdecimal::BigDecimal as num_traits::sign::Signed>::abs", (x,))], False)
    t["signum"] = (0, [T("call", "<bigdecimal::BigDecimal as num_traits::sign::Signed>::signum", (x,))], False)
    t["recip"] = (0, [T("call", "bigdecimal::BigDecimal::inverse", (x,)), T("op", "Div", bd("one"), x)], True)
    t["powi"] = (1, [bd("pow", x, a0, nd)], True)
    t["powf"] = (1, [bd("pow", x, a0, nd)], True)
    t["sqrt"] = (0, [T("call", "bigdecimal::BigDecimal::sqrt", (x,)), bd("sqrt", x, nd)], True)
    t["exp2"] = (0, [bd("pow", bd("two"), x, nd)], True)
    t["log"] = (1, [bd("log", x, a0, nd)], True)
    t["log2"] = (0, [bd("log", x, bd("two"), nd)], True)
    t["log10"] = (0, [bd("log", x, bd("bigd", INT(10)), nd), bd("log", x, bd("ten"), nd)], True)
    t["dnorm"] = (2, [bd("dnorm", x, a0, a1, nd)], True)
    t["pnorm"] = (2, [bd("pnorm", x, a0, a1, nd)], True)
    t["qnorm"] = (2, [bd("qnorm", x, a0, a1, nd)], True)
    t["round_ieee"] = (1, [bd("round_ieee", x, a0, nd)], True)
    return t


def run(r):
    ip, leaves = eval_leaves(r)
    if not leaves:
        return
    where = "doctor-syn/src/transformation/eval.rs Eval::visit_method_call"
    call = FLD(NODE, "MethodCall", "0")
    rec = FLD(call, None, "receiver")
    args = FLD(call, None, "args")
    meth = FLD(call, None, "method")
    elem = None
    x = T("num", vres(rec))
    a0 = T("num", vres(T("index", args, INT(0))))
    a1 = T("num", vres(T("index", args, INT(1))))
    tab = table(x, a0, a1)
    ok = {}
    n = 0
    for lf in leaves:
        if lf.kind != "return" or node_kind(lf, NODE) != "MethodCall":
            continue
        n += 1
        v = sem(ip.resolve(lf.st, lf.val))
        name, arity, wrong = None, None, False
        for t, val in facts_true(lf.st):
            if t.op == "eq" and val:
                for y, z in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if y.op == "str" and meth in subterms(z):
                        name = y.a[0]
                    if y.op == "int" and z is T("len", args):
                        arity = y.a[0]
        y = okval(v)
        if y is None:
            e = errval(v)
            if e is None:
                r.undecided("result", show(v), where)
                continue
            ent = tab.get(name)
            if ent is None or (arity is not None and arity != ent[0]) or ent[0] in notlen(lf, args):
                r.ok("err/other", show(v)[:200], where)
                continue
            if failed_sub(lf):
                # a child or conversion failed, or the kernel reported a domain failure
                r.ok("err/%s" % name, show(v)[:200], where)
                continue
            if opaque(v, allow=("abs",)) or dom_guard(lf, x, a0, a1):
                r.undecided("err/%s" % name, factstr(lf.st)[-300:], where)
                continue
            r.bad("err/%s" % name, "%s with %d argument(s) must be evaluable; a path with numeric operands returns %s" % (name, ent[0], show(v)), where)
            continue
        if name is None:
            r.check("unknown method", opaque(y), "a method that is not evaluable must be Err; a path returns %s" % show(y), where)
            continue
        ent = tab.get(name)
        if ent is None:
            r.undecided("extra/" + name, show(y), where)
            continue
        if arity is None:
            # which argument counts reach here?
            reach = set(range(9)) - notlen(lf, args)
            if reach != {ent[0]}:
                r.bad("%s/arity" % name, "%s is evaluated without checking that it has %d argument(s): value %s" % (name, ent[0], show(y)), where)
                continue
        elif arity != ent[0]:
            r.check("%s/arity" % name, opaque(y, allow=("abs", "signum", "inverse", "sqrt")), "%s with %d argument(s) must be Err but a path returns %s" % (name, arity, show(y)), where)
            continue
        want = []
        for w in ent[1]:
            want += [T("numexpr", w), T("numexpr", FLD(w, "Some", "0")), T("numexpr", FLD(w, "Ok", "0"))]
        good = y in want
        loses = [z for z in subterms(y) if z.op == "call" and z.a[0].split("::")[-1] in LOSES and z.a[1][0] in (x, a0, a1)]
        if not good and loses:
            r.bad(name, "`%s` uses only part of an operand: %s" % (name, show(loses[0])), where)
            ok.setdefault(name, 0)
            continue
        if not good and opaque(y, allow=("abs", "signum", "inverse", "sqrt")):
            r.undecided(name, show(y), where)
            ok.setdefault(name, 0)
            continue
        ok[name] = ok.get(name, 0) + good
        r.check(name, good, "`x.%s(%s)` must evaluate to %s; the path returns %s" % (name, ", ".join(["a", "b"][: ent[0]]), show(ent[1][0]), show(y)), where, show(y))
    for name in tab:
        r.check("present/" + name, name in ok, "`%s` with %d argument(s) is no longer evaluated" % (name, tab[name][0]), where)
    r.floor("method-call paths", n, 30)
    r.assume("what each bdmath kernel computes is outside this rule")


def notlen(lf, args):
    """argument counts excluded on the path"""
    out = set()
    for t, val in facts_true(lf.st):
        if t.op == "eq" and not val and T("len", args) in t.a:
            out |= {y.a[0] for y in t.a if y.op == "int"}
        if t.op == "lt" and t.a[0] is T("len", args) and isT(t.a[1], "int"):
            out |= set(range(t.a[1].a[0])) if not val else set(range(t.a[1].a[0], 9))
        if t.op == "lt" and t.a[1] is T("len", args) and isT(t.a[0], "int"):
            out |= set(range(t.a[0].a[0] + 1)) if val else set(range(t.a[0].a[0] + 1, 9))
    return out


def failed_sub(lf):
    for f in lf.st.order:
        if f[0] == "is" and f[2] in ("Err", "None"):
            return True
    return False


def dom_guard(lf, x, a0, a1):
    for t, val in facts_true(lf.st):
        s = subterms(t)
        if (x in s or a0 in s or a1 in s) and t.op in ("eq", "lt", "call"):
            return True
    return False
