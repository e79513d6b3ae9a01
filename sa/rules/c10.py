from cg import *
from sem import *

RULE = ("value-flow of every number<->expression conversion: the value reaches the literal (or the number) through exact or correctly rounded conversions only; non-numeric "
        "expressions are Err; plus a lossy-conversion lint: BigDecimal::{to_f32,to_f64,from_f32,from_f64} may be applied to exactly representable constants only")

P1 = SYM("p1")
INNER = FLD(P1, None, "inner")
EX = "doctor_syn::expression::Expression"
W = "doctor-syn/src/expression.rs"


def leaves(r, path):
    p = prog()
    if not r.anchor(path, path in p.bodies):
        return
    ip = p.interp()
    for lf in ip.run(path):
        lf.val = sem(ip.resolve(lf.st, lf.val)) if lf.kind == "return" else lf.val
        yield lf


def tryfrom(r, ty, by):
    path = "doctor_syn::expression::<impl core::convert::TryFrom<%s%s> for %s>::try_from" % (by, EX, ty)
    key = "tryfrom/%s%s" % (by, ty.split("::")[-1])
    n = 0
    for lf in leaves(r, path):
        if lf.kind != "return":
            r.bad(key + "/panic", "converting an expression to a number panics [%s]" % factstr(lf.st), W)
            continue
        num = numericness(lf.st, INNER)
        v = lf.val
        x = okval(v)
        if x is not None:
            if num is not True:
                (r.undecided if opaque(v) else r.bad)(key + "/non-numeric", "an expression that is not a numeric literal converts to %s [%s]" % (show(x), factstr(lf.st)), W)
                continue
            n += 1
            good = x is T("num" if ty.startswith("big") else "num" + ty, INNER)
            lossy = [y for y in subterms(x) if y.op == "as" or (y.op == "call" and y.a[0].split("::")[-1] in LOSSY)]
            if good:
                r.ok(key, show(x), W)
            elif textloss(x):
                r.bad(key, "the number must be the literal's own value; %s [%s]" % (textloss(x), factstr(lf.st)), W)
            elif lossy or not opaque(x):
                r.bad(key, "the number must be the literal's own value; got %s [%s]" % (show(x), factstr(lf.st)), W)
            else:
                r.undecided(key, show(x), W)
        elif errval(v) is not None:
            failed = any(f[0] == "is" and f[2] == "Err" for f in lf.st.order)
            if num is False or failed:
                r.ok(key + "/err", show(v), W)
            else:
                (r.undecided if opaque(v, allow=("span",)) and num is None else r.bad)(key + "/err", "a numeric literal must convert; a path returns %s [%s]" % (show(v), factstr(lf.st)), W)
        else:
            r.undecided(key, show(v), W)
    r.check(key + "/present", n > 0 or any(o[0] == key for o in r.obs), "no path converts a numeric literal to " + ty, W)


CHANGES = ("trim_matches", "trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches", "strip_prefix", "strip_suffix", "replace", "replacen", "split", "rsplit",
           "split_once", "rsplit_once", "splitn", "rsplitn", "split_at", "split_terminator", "truncate", "drain", "retain")
NARROW = re.compile(r"num[iu](8|16|32|64|128|size)$|numf32$|numf64$")


def textloss(x):
    """why the text a number is parsed from does not have the literal's value, or None: the text must be the digits
    of the literal (or the printed number) itself; cutting, replacing or re-encoding it loses value for some literal"""
    for y in subterms(x):
        if y.op == "fld" and isT(y.a[0], "call") and y.a[0].a[0].endswith("::parse"):
            for z in subterms(y.a[0].a[1][0]):
                n = z.a[0].split("::")[-1] if z.op == "call" else ""
                if n in CHANGES and not (n.startswith("replace") and z.a[1][1:3] in ((STR("_"), STR("")), (T("char", "_"), STR("")), (T("char", 95), STR("")))):
                    return "the text is changed by %s" % show(z)
                if z.op in ("take", "skip", "stepby", "rev", "slice", "init", "tail", "rest") and "chars" in show(z):
                    return "only part of the text is used: %s" % show(z)
                if z.op == "disp" and litbase(z.a[0]) is not None:
                    return "the text includes underscores and the type suffix: %s" % show(z)
                if NARROW.match(z.op):
                    return "the value passes through %s: %s" % (z.op[3:], show(z))
    return None


LOSSY = ("to_f32", "to_f64", "from_f32", "from_f64")


def single(r, path, key, ok, what, where=W):
    got = False
    for lf in leaves(r, path):
        if lf.kind != "return":
            r.undecided(key + "/panic", factstr(lf.st), where)
            continue
        got = True
        c = ok(lf.val, lf)
        if isinstance(c, str):
            r.bad(key, "%s; %s in %s" % (what, c, show(lf.val)), where)
        elif c is None or (not c and opaque(lf.val, allow=("parse", "span"))):
            r.undecided(key, show(lf.val), where)
        else:
            r.check(key, c, "%s; got %s" % (what, show(lf.val)), where, show(lf.val))
    if path in prog().bodies:
        r.check(key + "/present", got, "no normal path", where)


def litdigits(v):
    """the number whose digits the literal expression shows"""
    return v.a[0] if v.op == "numexpr" else None


def from_float(v, lf, f):
    n = litdigits(v)
    if n is None:
        return False
    bad = [y for y in subterms(n) if y.op == "as" or (y.op == "call" and y.a[0].split("::")[-1] in LOSSY + ("try_from",))]
    if bad:
        return False
    if textloss(n):
        return textloss(n)
    s = subterms(n)
    for y in s:
        if y.op == "fmtspec":
            prec = dict((k, v) for k, v in y.a[0] if isinstance(k, str)).get("prec")
            exp = isT(y.a[1], "fmtas")
            need = 8 if f == "f32" else 16
            if isinstance(prec, int) and (prec < need if exp else prec < 1074):
                return "%s digits are not enough" % prec
    # shortest round-trip digits, the exact value, or a direct print
    if n is P1:
        return True
    for y in s:
        if y.op in ("dbg", "disp") and y.a[0] is P1:
            return all(z.op in ("dbg", "disp", "sym", "cat", "fld", "call", "ty") and (z.op != "call" or z.a[0] in ("core::str::<impl str>::parse", "bigdecimal::BigDecimal::normalized")) for z in s)
        if isT(y, "bd") and y.a[0] in ("bigdf", "bigdf32") and y.a[1] == (P1,):
            return True
    return None


def boolean(v, lf):
    t = dict(facts_true(lf.st)).get(P1)
    w = T("id", "true" if t else "false")
    if v.op == "parsed" and len(v.a[1].a[0]) == 1:
        k = v.a[1].a[0][0]
        if k.op == "id" and t is not None:
            return k is w
        if k.op == "interp":
            y = k.a[0]
            return y is P1 or (y.op == "litof" and y.a[0] is P1)
    return False


def run(r):
    for ty in ("f64", "f32", "bigdecimal::BigDecimal"):
        for by in ("", "&"):
            tryfrom(r, ty, by)
    c = "<%s as core::convert::From<" % EX
    single(r, c + "syn::expr::Expr>>::from", "from/Expr", lambda v, lf: v is P1, "an Expression made from a syntax tree must be that tree")
    single(r, c + "bool>>::from", "from/bool", boolean, "an Expression made from a bool must be that boolean literal")
    single(r, c + "bigdecimal::BigDecimal>>::from", "from/BigDecimal", lambda v, lf: litdigits(v) is P1, "an Expression made from a BigDecimal must be a literal showing all its digits")
    for f in ("f64", "f32"):
        single(r, c + f + ">>::from", "from/" + f, lambda v, lf, f=f: from_float(v, lf, f), "an Expression made from an %s must keep its value (shortest or exact digits)" % f)
    single(r, EX + "::into_inner", "into_inner", lambda v, lf: v is INNER, "into_inner must return the wrapped tree")
    single(r, "<%s as core::convert::AsRef<syn::expr::Expr>>::as_ref" % EX, "as_ref", lambda v, lf: v is INNER, "as_ref must return the wrapped tree")
    single(r, "<syn::expr::Expr as core::convert::From<%s>>::from" % EX, "into Expr", lambda v, lf: v is INNER, "the tree must be returned unchanged") if ("<syn::expr::Expr as core::convert::From<%s>>::from" % EX) in prog().bodies else None

    def parse(v, lf):
        x = okval(v)
        if x is None:
            return errval(v) is not None
        for y in subterms(x):
            if y.op == "call" and y.a[0].split("::")[-1] in CHANGES + ("lines",) or y.op in ("take", "skip", "slice"):
                return "the text is changed before it is parsed: %s" % show(y)
        return isT(x, "fld") and x.a[1] == "Ok" and "parse_str(" in show(x) and P1 in subterms(x)

    single(r, "<%s as core::str::traits::FromStr>::from_str" % EX, "parse", parse, "parsing text must return the tree syn parses from that text, or Err")

    def pred(want):
        def f(v, lf):
            w = want(lf)
            if v.op != "bool" or w is None:
                return None
            return v.a[0] == w

        return f

    def islit(lf):
        k = lf.st.v.get(INNER)
        return k == "Lit" if k is not None else (False if "Lit" in lf.st.nv.get(INNER, ()) else None)

    single(r, EX + "::is_lit", "is_lit", pred(islit), "is_lit must be true exactly for literals")
    single(r, EX + "::is_numeric", "is_numeric", pred(lambda lf: numericness(lf.st, INNER)), "is_numeric must be true exactly for integer and float literals")
    round_ieee(r)
    lint(r)
    r.assume("f32/f64 parsing is correctly rounded, `{:?}` prints round-trip digits, `{:.1074}` of an f64 is exact, BigDecimal parsing and printing are exact")


def round_ieee(r):
    """round_ieee(x, 32|64) is the exact value of the nearest float; other widths are Err"""
    w = "doctor-syn/src/bdmath.rs round_ieee"
    bits = None
    n = {}
    for lf in leaves(r, "doctor_syn::bdmath::round_ieee"):
        if lf.kind != "return":
            continue
        b = None
        for f in lf.st.order:
            if f[0] == "b" and f[2] and f[1].op == "eq":
                for y in f[1].a:
                    if y.op == "int":
                        b = y.a[0]
        x = okval(lf.val)
        if x is None:
            failed = any(f[0] == "is" and f[2] in ("Err", "None") for f in lf.st.order) or any(not v for t, v in facts_true(lf.st) if "finite" in show(t) or "infinite" in show(t))
            if b in (32, 64) and not failed:
                (r.undecided if opaque(lf.val, allow=("parse",)) else r.bad)("round_ieee/%d/err" % b, "a value in range must be rounded; got %s [%s]" % (show(lf.val), factstr(lf.st)), w)
            else:
                r.ok("round_ieee/err", factstr(lf.st)[:200], w)
            continue
        s = show(x)
        if b not in (32, 64):
            (r.undecided if b is None and "to_i32" not in factstr(lf.st) else r.bad)("round_ieee/width", "widths other than 32 and 64 must be Err; a path returns %s [%s]" % (s, factstr(lf.st)), w)
            continue
        n[b] = 1
        lossy = [y for y in subterms(x) if y.op == "call" and y.a[0].split("::")[-1] in LOSSY]
        ptys = {y.a[0].split("::")[-1] for y in subterms(x) if y.op == "ty"} & {"f32", "f64"}
        if ptys and ptys != {"f%d" % b}:
            r.bad("round_ieee/%d/type" % b, "rounding to %d bits parses %s: %s" % (b, sorted(ptys), s), w)
        r.check("round_ieee/%d" % b, not lossy, "the rounded value goes through the inexact %s: %s" % (lossy[0].a[0] if lossy else "", s), w, s)
    for b in (32, 64):
        r.check("round_ieee/%d/present" % b, b in n, "no path rounds to %d bits" % b, w)


def lint(r):
    p = prog()
    g = CallGraph(p)
    sites = 0
    for f, body in p.lib.bodies.items():
        for ref in g.refs[f]:
            if ref[0] not in ("call", "fnval"):
                continue
            fn = ref[1]
            tgt = (fn.get("res") or fn)["path"]
            m = tgt.split("::")[-1]
            isbd = "bigdecimal::BigDecimal" in tgt or any(isinstance(a, int) and body["crate"].tystr(a) == "bigdecimal::BigDecimal" for a in fn["args"])
            istf = m == "try_from" and re.search(r"TryFrom<f(32|64)> for bigdecimal|BigDecimal as .*TryFrom<f(32|64)>", tgt)
            if not (isbd and m in LOSSY) and not istf:
                continue
            sites += 1
            where = "%s:%s" % (body["file"], ref[2])
            c = None
            if ref[0] == "call":
                a = ref[3][0]
                if a[0] == "const" and "fbits" in a[1]:
                    import struct

                    bits = int(a[1]["fbits"])
                    c = struct.unpack("<f", struct.pack("<I", bits))[0] if m.endswith("32") else struct.unpack("<d", struct.pack("<Q", bits))[0]
            if c is not None:
                r.check("lossy@" + f, float("%.6e" % c) == c, "constant %r is not kept exactly by %s" % (c, tgt), where, "constant %r" % c)
            else:
                r.bad("lossy@" + f.split("::{closure")[0], "%s is not exact (BigDecimal 0.2 multiplies by a power of ten computed in floating point / prints a fixed number of digits) and is applied to a value that is not a constant" % tgt, where)
    r.saw("lossy conversion sites", sites)
    r.saw("functions scanned", len(p.lib.bodies))
