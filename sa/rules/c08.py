from rules.travcommon import *

RULE = ("one-step transfer function of Paren on Binary and Unary nodes: the same operator over each transformed operand in place, an operand wrapped in exactly one pair of "
        "parentheses when (and only when) it is itself a Binary or Unary node; everything else rebuilt homomorphically")


def operand(r, lf, key, got, child, where):
    """got must be paren(visit(child)) or visit(child) as its kind requires"""
    w = FLD(T("visit", child), "Ok", "0")
    if got is None:
        r.bad(key, "operand missing", where)
        return
    wrapped = got.op == "ctor" and got.a[1] == "Paren" and got.a[0] == EXPR
    body = got
    if wrapped:
        x = got.a[2][0][1]
        body = get(x, "expr") if isT(x, "ctor") else None
    k = lf.st.v.get(w)
    nv = lf.st.nv.get(w, frozenset())
    if body is not w:
        if body is None or opaque(got, allow=("span",)) or got.op in ("case", "parsed"):
            r.undecided(key, show(got), where)
        else:
            r.bad(key, "operand becomes %s instead of the transformed operand" % show(got), where)
        return
    if k in ("Binary", "Unary"):
        r.check(key + "/op", wrapped, "an operand that is itself a %s operation must be put in parentheses [%s]" % (k, factstr(lf.st)), where, show(got))
    elif k is not None or {"Binary", "Unary"} <= set(nv):
        r.check(key + "/atom", not wrapped, "an operand that is not an operation (%s) must not be wrapped [%s]" % (k or "neither binary nor unary", factstr(lf.st)), where, show(got))
    else:
        # the operand's kind was not distinguished on this path
        left = sorted({"Binary", "Unary"} - set(nv))
        if opaque(T("tuple", tuple(x for f in lf.st.order for x in f[1:] if isinstance(x, T))), allow=("span", "base10_digits")):
            r.undecided(key, factstr(lf.st), where)
        elif wrapped:
            r.bad(key + "/atom", "an operand of unknown kind is wrapped unconditionally [%s]" % factstr(lf.st), where)
        else:
            r.bad(key + "/op", "an operand that may be a %s operation is left without parentheses [%s]" % (" or ".join(left), factstr(lf.st)), where)


def run(r):
    ip, sp = walk(r, "doctor_syn::transformation::paren::Paren", {"Unary", "Binary"})
    where = "doctor-syn/src/transformation/paren.rs Paren::visit_expr"
    n = {}
    for kind in ("Binary", "Unary"):
        kids = NODES[kind][0]
        for lf in sp.get(kind, []):
            if lf.kind != "return":
                r.undecided(kind + "/panic", factstr(lf.st), where)
                continue
            v = lf.val
            x = okval(v)
            if x is None:
                e = errval(v)
                bad = True
                for k in kids:
                    t = T("visit", fld(kind, k))
                    if e is FLD(t, "Err", "0") and lf.st.v.get(t) == "Err":
                        bad = False
                if opaque(v, allow=("span",)):
                    r.undecided(kind + "/err", show(v), where)
                else:
                    r.check(kind + "/err", not bad, "paren() must accept a %s node whose operands it accepts; a path returns %s [%s]" % (kind, show(v), factstr(lf.st)), where, show(v))
                continue
            # one outer pair of parentheses around the whole node would also be value preserving but is not what is promised
            st = struct_of(x, kind)
            if st is None:
                (r.undecided if opaque(x, allow=("span",)) or x.op in ("case", "parsed") else r.bad)(kind, "a %s node must stay a %s node; got %s" % (kind, kind, show(x)), where)
                continue
            n[kind] = n.get(kind, 0) + 1
            o = get(st, "op")
            r.check(kind + "/operator", o is fld(kind, "op") or (o is not None and same_variant(lf, o, fld(kind, "op"))), "the operator must be kept; got " + show(o), where, show(o))
            for k in kids:
                operand(r, lf, "%s/%s" % (kind, k), get(st, k), fld(kind, k), where)
    for k in ("Binary", "Unary"):
        r.check("present/" + k, n.get(k, 0) > 0, "no path handles %s nodes" % k, where)
    api(r, "paren", selfctor("Paren"))
    r.floor("paths", r.analysed.get("paths", 0), 8)


def same_variant(lf, o, f):
    return o.op == "ctor" and lf.st.v.get(f) == o.a[1]
