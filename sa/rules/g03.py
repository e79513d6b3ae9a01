from rules.g02 import guard
from rules.ccommon import *

RULE = ("the visitor methods of the C back end as guarded templates over text and variable scope, composed for schematic files: every typedef, constant, "
        "function, parameter and local declaration keeps its name (prefixed where requested), type, initialiser and order, every function is declared "
        "before it is called, and every variable reference denotes the binding Rust's scoping gives it, shadowing included")
PROBE = ("fty", "uty", "ity")


def fnval(ps, body, c):
    """body of a function as a meaning, parameters bound"""
    env = {n: "param%d" % i for i, n in enumerate(ps)}
    v = body
    if v[0] != "block":
        v = ("block", (("tail", v),))
    return alpha(v, env, c, scope=set(ps) if c else None)


def rust_fn(it, prefix):
    s = it.p[0]
    sig = s.f["sig"]
    ps = [(rty(x.p[0].f["ty"].p[0].f["path"].f["segs"][0]), str(x.p[0].f["pat"].p[0].f["ident"])) for x in sig.f["inputs"]]
    ret = "void" if sig.f["output"].v == "Default" else rty(sig.f["output"].p[1].p[0].f["path"].f["segs"][0])
    return prefix + str(sig.f["ident"]), ret, ps, fnval([n for _, n in ps], tails(rblock(s.f["block"], prefix)), False)


def c_fn(x):
    _, ty, n, ps, body = x
    v = block(cstmts(body, True))
    return n, ty, list(ps), fnval([n for _, n in ps], tails(v), True)


def schemas():
    a, b, x, y, z = P("a"), P("b"), P("x"), P("y"), P("z")
    f = "fty"
    yield "plain", FN("f", [("a", f), ("b", "f64")], f, BLK(TAIL(BIN("Sub", a, b))))
    yield "noargs", FN("f", [], f, BLK(TAIL(FLOAT("1.5"))))
    yield "unit", FN("f", [("a", "i32")], None, BLK(SEMI(CALL("g", a))))
    yield "typed", FN("f", [("a", f)], f, BLK(LET("x", f, BIN("Mul", a, a)), LET("y", "uty", MC(x, "to_bits")), TAIL(BIN("Sub", x, y))))
    yield "untyped", FN("f", [("a", f)], f, BLK(LET("x", None, BIN("Mul", a, a)), TAIL(x)))
    yield "later", FN("f", [("a", f)], f, BLK(LET("x", f, None), SEMI(ASSIGN(x, a)), TAIL(x)))
    yield "statements", FN("f", [("a", f)], f, BLK(LET("x", f, a), SEMI(ASSIGNOP("AddEq", x, FLOAT("1.5"))), SEMI(ASSIGN(x, BIN("Mul", x, a))), SEMI(CALL("g", x)), TAIL(x)))
    yield "shadow", FN("f", [("a", f)], f, BLK(LET("x", f, a), LET("x", f, BIN("Mul", x, x)), LET("y", f, x), LET("x", None, BIN("Sub", x, y)), TAIL(BIN("Div", x, y))))
    yield "shadowparam", FN("f", [("a", f), ("b", f)], f, BLK(LET("a", f, BIN("Sub", a, b)), LET("b", f, BIN("Div", a, b)), TAIL(BIN("Sub", a, b))))
    inner = BLOCK(BLK(LET("x", f, BIN("Mul", x, a)), LET("z", f, x), TAIL(BIN("Sub", x, z))))
    yield "inner", FN("f", [("a", f)], f, BLK(LET("x", f, a), LET("y", f, inner), TAIL(BIN("Div", x, y))))
    yield "innerif", FN("f", [("a", f)], f, BLK(LET("x", f, a), LET("y", f, IF(BIN("Lt", x, a), BLK(LET("x", f, BIN("Sub", a, x)), TAIL(x)), BLOCK(BLK(LET("x", f, BIN("Div", x, a)), TAIL(x))))), TAIL(BIN("Sub", x, y))))
    yield "selfinner", FN("f", [("x", f)], f, BLK(LET("x", f, BLOCK(BLK(LET("x", f, BIN("Sub", x, FLOAT("1.5"))), TAIL(BIN("Mul", x, x))))), TAIL(x)))
    yield "aftershadow", FN("f", [("a", f)], f, BLK(LET("x", f, a), LET("y", f, inner), LET("z", f, x), LET("z", f, BIN("Sub", z, y)), TAIL(BIN("Div", z, x))))
    yield "tailblock", FN("f", [("a", f)], f, BLK(LET("x", f, a), TAIL(BLOCK(BLK(LET("x", f, BIN("Sub", x, a)), TAIL(x))))))
    yield "args", FN("f", [("a", f), ("b", f)], f, BLK(TAIL(CALL("g", b, a))))


def run(r):
    cg = load(r)
    if cg is None:
        return
    nfn = 0
    g = FN("g", [("x", "fty"), ("y", "fty")], "fty", BLK(TAIL(BIN("Div", P("x"), P("y")))))
    h = FN("h", [("x", "fty")], "fty", BLK(LET("x", "fty", CALL("f", P("x"), P("x"))), TAIL(P("x"))))
    for prefix in ("", "vm_"):
        tr = Trans(cg, prefix, "")
        for name, fn in schemas():
            key = "fn/%s/%s" % (name, prefix or "none")
            nfn += 1
            items = [TYPEDEF("fty", "f64"), TYPEDEF("uty", "u64"), fn, g, h]

            def go():
                txt = tr.call("visit_file", FILEN(*items))
                ast, c = cparse.parse_file(txt, ())
                return txt, ast, c

            x = guard(r, key, "the function of schema " + name, go)
            if not x:
                continue
            txt, ast, c = x
            defs = [i for i in ast if i[0] == "fn"]
            want = [rust_fn(i, prefix) for i in (fn, g, h)]
            try:
                got = [c_fn(i) for i in defs]
            except CError as e:
                r.bad(key, "%s: in `%s`" % (e, " ".join(txt.split())[:500]), FILE)
                continue
            r.check(key, got == want, "the C functions are %s instead of %s" % (d2(got, want), d2(want, got)), FILE)
            # declared before use, with the type of the definition
            seen = {}
            for i in ast:
                if i[0] == "proto":
                    seen.setdefault(i[2], (i[1], tuple(t for t, _ in i[3])))
                    for o in defs:
                        if o[2] == i[2]:
                            r.check("proto/" + key, (o[1], tuple(t for t, _ in o[3])) == (i[1], tuple(t for t, _ in i[3])), "the prototype of %s is not that of its definition" % i[2], FILE)
                elif i[0] == "fn":
                    seen.setdefault(i[2], None)
                    for f in calls(i[4]):
                        if f in [o[2] for o in defs]:
                            r.check("declared/%s" % key, f in seen, "%s calls %s before its declaration" % (i[2], f), FILE)
    # files: typedefs and constants, in order
    tr = Trans(cg, "vm_", "f")
    items = [TYPEDEF("fty", "f32"), CONST("K", "fty", BIN("Sub", FLOAT("1.5", "f32"), INTL("2", "f32"))), CONST("NAN", "fty", P("f32", "NAN")), CONST("INFINITY", "fty", P("f32", "INFINITY")),
             CONST("N", "u64", INTL("9", "u64")), TYPEDEF("ity", "i32"), FN("f", [("a", "fty")], "fty", BLK(TAIL(BIN("Mul", MC(P("a"), "sqrt"), P("K")))))]

    def go():
        txt = tr.call("visit_file", FILEN(*items))
        return (txt,) + cparse.parse_file(txt, ())

    x = guard(r, "file", "a file of typedefs and constants", go)
    if x:
        txt, ast, c = x
        got = []
        for i in ast:
            if i[0] == "typedef":
                got.append(("typedef", i[1], i[2]))
            elif i[0] == "var":
                got.append(("const", i[1], i[2], alpha(cval(i[3]), c=True) if i[3] is not None else None))
                r.check("const/" + i[2], "const" in i[4], "the constant %s becomes a variable that can be assigned" % i[2], FILE)
            elif i[0] == "fn":
                got.append(("fn", i[2]))
        want = []
        for i in items:
            s = i.p[0]
            if i.v == "Type":
                want.append(("typedef", rty(s.f["ty"].p[0].f["path"].f["segs"][0]), str(s.f["ident"])))
            elif i.v == "Const":
                want.append(("const", rty(s.f["ty"].p[0].f["path"].f["segs"][0]), str(s.f["ident"]), alpha(rust(s.f["expr"]))))
            else:
                want.append(("fn", "vm_" + str(s.f["sig"].f["ident"])))
        for k in ("typedef", "const"):
            gk, wk = [i for i in got if i[0] == k], [i for i in want if i[0] == k]
            r.check("items/" + k, gk == wk, "the %s items are %s instead of %s" % (k, d2(gk, wk), d2(wk, gk)), FILE)
        r.check("items/order", [i[0] + str(i[2] if i[0] != "fn" else i[1]) for i in got] == [i[0] + str(i[2] if i[0] != "fn" else i[1]) for i in want],
                "the items are not in the order of the file: %s" % d([i[:3] for i in got]), FILE)
        heads = [p for p in c.pp if p.replace(" ", "").startswith("#include<math.h>")]
        r.check("math.h", bool(heads), "functions of math.h are called without including it", FILE)
        for n in ("NAN", "INFINITY"):
            r.check("undef/" + n, not heads or any(p.split() == ["#undef", n] for p in c.pp) and txt.index("#undef " + n) < txt.index(" %s =" % n) and txt.index("math.h") < txt.index("#undef " + n),
                    "math.h's macro %s replaces the declared name of the constant" % n, FILE)
    # the public entry point
    ent = prog().bodies.get("doctor_syn::codegen::c::to_c")
    if r.anchor("to_c", ent is not None):
        ip = prog().interp(hooks=[entry_hook(cg)], want_panics=True)
        st = St()
        try:
            ls = ip.run_body(ent, [ip.ref_to(st, SYM("file")), SYM("opts")], st)
            for l in ls:
                if l.kind != "return":
                    r.bad("to_c", "the translation of a file can panic", FILE + ":to_c")
                    continue
                v = ip.resolve(l.st, l.val)
                ok = isT(v, "c") and v.a[0] == "visit_file" and v.a[1] == SYM("file")
                if ok:
                    self0 = v.a[2].a[0]
                    r.check("to_c", True, "", FILE)
                    o = dict(self0).get("options")
                    r.check("to_c/options", o is not None and show(o) in ("$opts",) or (o is not None and opts_same(o)), "the options given are not the ones used: %s" % show(o)[:120], FILE)
                    for k, val in self0:
                        if k not in ("options", cg.stack):
                            r.check("to_c/" + k, isT(val, "seq") and not val.a[0], "the translation starts with %s = %s" % (k, show(val)[:80]), FILE)
                else:
                    r.undecided("to_c", show(v)[:200], FILE)
        except Exception as x:
            r.undecided("to_c", repr(x)[:200], FILE)
    r.floor("functions", nfn, 20)


def opts_same(o):
    return isT(o, "ctor") and all(show(v) == "$opts." + n for n, v in o.a[2])


def entry_hook(cg):
    def hook(ip, st, info, args, ctx):
        m, tr = info.method(), info.trait()
        if tr == VT and m == "visit_file":
            rf = models.innermost(ip, st, args[0])
            v = models.val(ip, st, rf)
            if v.op != "ctor":
                return None
            dd = dict(v.a[2])
            stt = T("state", tuple((k, ip.resolve(st, x)) for k, x in v.a[2]))
            dd[cg.stack] = T("seq", models.as_seq(dd[cg.stack]) + (T("c", m, ip.resolve(st, args[1]), stt),))
            ip.write(st, rf.a[0], rf.a[1], T("ctor", v.a[0], v.a[1], tuple((k, dd[k]) for k, _ in v.a[2])))
            return [Leaf(st, "return", UNIT)]
        return None

    return hook


def calls(t):
    out = []
    if isinstance(t, tuple):
        if t and t[0] == "call" and t[1][0] == "id":
            out.append(t[1][1])
        for x in t:
            out += calls(x)
    return out


def d2(a, b):
    """the first difference of two lists"""
    for x, y in zip(a, b):
        if x != y:
            return repr(x).replace("'", "")[:260]
    return "%d items" % len(a)
