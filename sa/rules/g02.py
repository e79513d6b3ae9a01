from decimal import Decimal

from rules.ccommon import *

RULE = ("the visitor methods of the C back end as guarded text templates, composed for every literal form, primitive type, floating-point constant and "
        "mathematical method; the C token, type or library function that results must denote the same value, type or function at the same precision")


def lits():
    for sfx in ("", "f"):
        dflt = "f32" if sfx == "f" else "f64"
        for s, ty in (("", dflt), ("f32", "f32"), ("f64", "f64")):
            for dg in ("1.5", "2.", "1e5", "0.0", "16777217.0", "12345678901234567890.5", "1e-300", "2.5E+10", "0.1591549430918953357688837633725143620345", "3.0e-7"):
                yield "float/%s/%s/%s" % (sfx or "none", s or "none", dg[:8]), sfx, FLOAT(dg, s), dg, (ty,)
        for s, ty in (("", ("int", "i64")), ("i32", ("int",)), ("u32", ("u32",)), ("i64", ("i64",)), ("u64", ("u64",)), ("f32", ("f32",)), ("f64", ("f64",)),
                      ("i8", ("int",)), ("u8", ("int", "u32")), ("i16", ("int",)), ("u16", ("int", "u32"))):
            for dg in ("7", "0", "12345678", "123456789", "2147483647") + (("16777216000", "123456789012345678") if s in ("i64", "u64", "f32", "f64") else ()):
                yield "int/%s/%s/%s" % (sfx or "none", s or "none", dg), sfx, INTL(dg, s), dg, ty
        yield "int/%s/u64/large" % (sfx or "none"), sfx, INTL("9223372036854775809", "u64"), "9223372036854775809", ("u64",)
    for v in (True, False):
        yield "bool/%s" % v, "", BOOL(v), "1" if v else "0", ("int",)


def numval(t):
    m = cparse.re.match(r"^(0[xX][0-9a-fA-F]+|[0-9]*\.?[0-9]*(?:[eE][+-]?[0-9]+)?)", t)
    s = m.group(1)
    return Decimal(int(s, 16)) if s[:2].lower() == "0x" else Decimal(s if s[0] != "." else "0" + s)


def guard(r, key, what, f):
    try:
        return f()
    except Undecided as x:
        r.undecided(key, str(x), FILE)
    except Broken as x:
        r.bad(key, "%s: %s" % (what, x), FILE)
    except CError as x:
        r.bad(key, "%s is not translated to C: %s" % (what, x), FILE)
    return None


def run(r):
    cg = load(r)
    if cg is None:
        return
    trs = {s: Trans(cg, "", s) for s in ("", "f")}
    n = 0
    for key, sfx, e, dg, tys in lits():
        n += 1

        def f():
            txt = trs[sfx].call("visit_expr", e)
            t = cparse.norm(cparse.parse_expr(txt, TYPES))
            ty = None
            while t[0] == "cast":
                ty = t[1]
                t = cparse.norm(t[2])
            if t[0] == "id" and t[1] in ("true", "false"):
                t = ("num", "1" if t[1] == "true" else "0")
            if t[0] != "num" or num(t[1]) is None:
                raise CError(txt)
            return txt, numval(t[1]), {"i32": "int"}.get(ty, ty) or num(t[1])[1]

        x = guard(r, "lit/" + key, "the literal %s" % key, f)
        if x:
            txt, v, ty = x
            r.check("lit/" + key, v == Decimal(dg if dg[-1] != "." else dg + "0"), "the literal %s becomes %s" % (dg, txt), FILE)
            r.check("littype/" + key, ty in tys, "the literal %s (%s) becomes `%s` of type %s" % (dg, key, txt, ty), FILE)
    tr = trs[""]
    for t, want in CTYPES.items():
        n += 1

        def f():
            c = cparse.C(tr.call("visit_type", TY(t)), TYPES)
            ty, _ = c.type_()
            if c.pk()[0] != "eof":
                raise CError("trailing text")
            return ty

        x = guard(r, "type/" + t, "the type %s" % t, f)
        if x:
            r.check("type/" + t, x in want, "the type %s becomes the C type %s" % (t, x), FILE)
    x = guard(r, "type/alias", "a type alias", lambda: tr.call("visit_type", TY("fty")))
    if x:
        r.check("type/alias", x.strip() == "fty", "the alias fty is called %s in C" % x, FILE)
    for c in ("NAN", "INFINITY", "MIN_POSITIVE"):
        for t in ("f32", "f64"):
            n += 1
            x = guard(r, "const/%s/%s" % (t, c), "the constant %s::%s" % (t, c), lambda: expr_of(tr, P(t, c)))
            if x:
                ok = x[0] == ("id", "%s_%s" % (t, c))
                # an undefined name is rejected by the C compiler, but it is no translation
                r.check("const/%s/%s" % (t, c), ok and x[1].strip() != "%s_%s" % (t, c), "%s::%s becomes `%s`" % (t, c, x[1]), FILE)
    x = guard(r, "const/name", "a constant's name", lambda: expr_of(tr, P("RECIP_2PI")))
    if x:
        r.check("const/name", x[0] == ("id", "RECIP_2PI"), "a reference to RECIP_2PI becomes %s" % x[1], FILE)
    for m in METHODS:
        for sfx in ("", "f"):
            n += 1
            k = "method/%s/%s" % (m, sfx or "none")
            e = MC(P("a"), m, *[P("b")] * ARITY.get(m, 0))
            x = guard(r, k, "the method " + m, lambda: expr_of(trs[sfx], e))
            if not x:
                continue
            got, txt = x
            want = alpha(rust(e))
            if got[0] == "call":
                r.bad(k, "the method %s becomes a call of %s, which C's library does not have: `%s`" % (m, got[1], txt), FILE)
                continue
            if not r.check(k, got == want, "the method %s becomes `%s`, which means %s instead of %s" % (m, " ".join(txt.split())[:120], d(got), d(want)), FILE):
                continue
            if sfx == "":
                t = cparse.norm(cparse.parse_expr(txt, TYPES))
                if t[0] == "call" and t[1][0] == "id":
                    nm = t[1][1]
                    r.check("prec/" + m, not (nm.endswith("f") and nm[:-1] in CLIB), "the method %s of a double becomes the single-precision %s" % (m, nm), FILE)
    r.floor("literals, types, constants and methods", n, 100)
    r.assume("C library functions are named by the C standard; gcc's __builtin names and predefined macros have their documented values")
