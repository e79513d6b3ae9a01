from rules.travcommon import *

RULE = ("one-step transfer function of UseNumberType on literals, by (number type, width) class: decimal/hex at 32/64 bits must rebuild the literal from the float of that width "
        "that correctly rounds the literal's digits (no lossy or wrong-width conversion on the value path); every other class and every non-numeric literal is kept")

P1 = SYM("p1")
NT, NB = FLD(P1, None, "number_type"), FLD(P1, None, "num_bits")


def classes(lf):
    nts, nbs = {"decimal", "hex", "*"}, {32, 64, 0}
    for t, val in facts_true(lf.st):
        if t.op != "eq":
            continue
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if x is NT and y.op == "str":
                if val:
                    nts &= {y.a[0] if y.a[0] in nts else "*"}
                elif y.a[0] != "*":
                    nts -= {y.a[0]}
            if x is NB and y.op == "int":
                if val:
                    nbs &= {y.a[0] if y.a[0] in nbs else 0}
                else:
                    nbs -= {y.a[0]}
    return nts, nbs


def run(r):
    ip, sp = walk(r, "doctor_syn::transformation::use_number_type::UseNumberType", {"Lit"})
    where = "doctor-syn/src/transformation/use_number_type.rs UseNumberType::visit_lit"
    seen = set()
    lit = fld("Lit", "lit")
    for lf in sp.get("Lit", []):
        if lf.kind != "return":
            # the digits of a numeric literal always parse; only conversions of the value may not panic
            r.undecided("literal/panic", factstr(lf.st), where)
            continue
        k = lf.st.v.get(lit)
        x = okval(lf.val)
        if k not in ("Int", "Float"):
            if {"Int", "Float"} <= set(lf.st.nv.get(lit, ())) or k is not None:
                seen.add("other literal")
                if x is not None and not is_same(x, "Lit") and opaque(lf.val) and x.op != "parsed":
                    r.undecided("other literal", show(x), where)
                    continue
                r.check("other literal", x is not None and is_same(x, "Lit"), "a literal that is not a number must be kept; got " + show(lf.val), where, show(lf.val))
                seen.add("other literal")
            elif x is not None and is_same(x, "Lit"):
                for a in classes(lf)[0]:
                    for b in classes(lf)[1]:
                        seen.update([("Int", a, b), ("Float", a, b)])
                        if a != "*" and b:
                            r.bad("Int/%s%d" % (a, b), "a numeric literal is kept unchanged for %s/%d" % (a, b), where)
            else:
                r.undecided("literal", show(lf.val), where)
            continue
        nts, nbs = classes(lf)
        for a in sorted(nts):
            for b in sorted(nbs):
                key = "%s/%s%s" % (k, a, b or "*")
                one(r, lf, key, k, a, b, lf.val, where, seen)
    for k in ("Int", "Float"):
        for a in ("decimal", "hex", "*"):
            for b in (32, 64, 0):
                r.check("present/%s/%s%s" % (k, a, b or "*"), (k, a, b) in seen, "no path rebuilds %s literals for %s/%s" % (k, a, b or "other widths"), where)
    api(r, "use_number_type", selfctor("UseNumberType", number_type=SYM("p2"), num_bits=SYM("p3")))
    r.floor("literal paths", len(sp.get("Lit", [])), 5)
    r.assume("str::parse / LitFloat::base10_parse / LitInt::base10_parse to f32 and f64 are correctly rounded and never fail on the digits of a numeric literal")


def parse_failed(lf):
    for f in lf.st.order:
        if f[0] == "is" and f[2] == "Err" and isT(f[1], "call") and f[1].a[0].split("::")[-1] in ("base10_parse", "parse"):
            return True
    return False


def out_of_range(lf):
    for t, val in facts_true(lf.st):
        if t.op == "call" and t.a[0].split("::")[-1] in ("is_infinite", "is_finite"):
            if val == t.a[0].endswith("is_infinite"):
                return True
    return False


LOSSY = ("to_f32", "to_f64", "from_f32", "from_f64")


def one(r, lf, key, k, a, b, v, where, seen):
    x = okval(v)
    if x is None:
        if errval(v) is None:
            r.undecided(key, show(v), where)
        elif parse_failed(lf) or out_of_range(lf):
            r.ok(key + "/err", show(v)[:200] + " [" + factstr(lf.st)[-200:] + "]", where)
        elif opaque(T("tuple", tuple(t for t, _ in facts_true(lf.st)))):
            r.undecided(key + "/err", factstr(lf.st)[-300:], where)
        else:
            r.bad(key + "/err", "a numeric literal in range must be accepted; got %s [%s]" % (show(v), factstr(lf.st)), where)
        return
    if a == "*" or not b:
        seen.add((k, a, b))
        if not is_same(x, "Lit") and opaque(v) and x.op != "parsed":
            return r.undecided(key, show(x), where)
        r.check(key, is_same(x, "Lit"), "for this number type and width a literal must be kept unchanged; got " + show(x), where, show(x))
        return
    if is_same(x, "Lit"):
        r.bad(key, "the literal is kept unchanged although %s at %d bits is requested" % (a, b), where)
        seen.add((k, a, b))
        return
    f = "f%d" % b
    n = T("num" + f, NODE)
    toks = None
    if x.op == "parsed":
        toks = x.a[1].a[0]
    elif x.op == "ctor" and x.a[0] == EXPR:
        toks = None
    if toks is None:
        (r.undecided)(key, show(x), where)
        return
    bad_lossy = [y for y in subterms(x) if y.op == "call" and y.a[0].split("::")[-1] in LOSSY]
    casts = [y for y in subterms(x) if y.op == "as"]
    seen.add((k, a, b))
    if a == "decimal":
        good = len(toks) == 1 and toks[0] is T("interp", T("litof", n, f))
    else:
        ids = [t.a[0] for t in toks if t.op == "id"]
        lits = [t for t in subterms(x) if t.op == "litof"]
        good = ids[:2] == [f, "from_bits"] and len(ids) == 2 and len(lits) == 1 and lits[0].a[1] == "u%d" % b and bits_of(lits[0].a[0], n, f)
    if good:
        r.ok(key, show(x), where)
    elif bad_lossy:
        r.bad(key, "the value goes through the lossy conversion %s; `%s` is not the nearest %s of the literal" % (bad_lossy[0].a[0], show(x), f), where)
    elif casts:
        r.bad(key, "the value goes through a float cast: %s" % show(x), where)
    elif opaque(x, allow=("to_bits",)):
        r.undecided(key, show(x), where)
    else:
        r.bad(key, "expected %s of width %d, got %s" % (a, b, show(x)), where)


def bits_of(t, n, f):
    return t.op == "call" and t.a[0] == "core::%s::<impl %s>::to_bits" % (f, f) and t.a[1][0] is n
