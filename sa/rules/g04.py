import re
from rules.g02 import guard
from rules.ccommon import *

RULE = ("typestate of the C back end's fragment stack (every visitor method, on every path, leaves exactly one more fragment and does not panic) and, for every kind of "
        "expression, literal, pattern, type, statement and item, either all parts appear in the translation or the text is not valid C, so an untranslatable "
        "program is never silently turned into a different valid one")

SUPPORTED = {"visit_expr": {"Array", "Assign", "AssignOp", "Binary", "Block", "Call", "Cast", "If", "Lit", "MethodCall", "Paren", "Path", "Unary"},
             "visit_lit": {"Int", "Float", "Bool"}, "visit_pat": {"Ident", "Type"}, "visit_type": {"Path"}, "visit_item": {"Fn", "Const", "Type"},
             "visit_stmt": {"Local", "Expr", "Semi", "Item"}, "visit_fn_arg": {"Typed"}}
# only meaningful inside a construct that is not translated
INSIDE = {"Break", "Continue", "Yield", "Await", "Rest"}


class Any(S):
    """a payload whose parts are not looked at"""


def blk1(n):
    return BLK(TAIL(P(n)))


# the parts of the kinds that are not translated: (payload, the part that alone would be a different program, or None when it would be the same)
PARTS = {
    "visit_expr": {
        "Try": (dict(expr=P("qa")), P("qa")), "Reference": (dict(mutability=NONE, expr=P("qa"), raw=0), P("qa")), "Await": (dict(base=P("qa")), P("qa")),
        "Box": (dict(expr=P("qa")), P("qa")), "Group": (dict(expr=P("qa")), None), "Unsafe": (dict(block=blk1("qa")), None),
        "Return": (dict(expr=SOME(P("qa"))), P("qa")), "Range": (dict(**{"from": SOME(P("qa")), "limits": E("HalfOpen", 0), "to": SOME(P("qb"))}), P("qa")),
        "Index": (dict(expr=P("qa"), index=P("qb")), P("qa")), "Field": (dict(base=P("qa"), member=E("Named", Ident("qb"))), P("qa")),
        "Repeat": (dict(expr=P("qa"), len=P("qb")), P("qa")), "Tuple": (dict(elems=[P("qa"), P("qb")]), P("qa")),
        "Match": (dict(expr=P("qa"), arms=[S("Arm", attrs=[], pat=E("Wild", Any("PatWild")), guard=NONE, body=P("qb"))]), P("qb")),
        "Loop": (dict(label=NONE, body=blk1("qa")), P("qa")), "While": (dict(label=NONE, cond=P("qa"), body=blk1("qb")), P("qb")),
        "ForLoop": (dict(label=NONE, pat=PIDENT("qc"), expr=P("qa"), body=blk1("qb")), P("qb")),
        "Closure": (dict(asyncness=NONE, movability=NONE, capture=NONE, inputs=[PIDENT("qb")], output=E("Default"), body=P("qa")), P("qa")),
        "Let": (dict(pat=PIDENT("qb"), expr=P("qa")), P("qa")), "Async": (dict(capture=NONE, block=blk1("qa")), BLOCK(blk1("qa"))),
        "TryBlock": (dict(block=blk1("qa")), BLOCK(blk1("qa"))), "Type": (dict(expr=P("qa"), ty=TY("f32")), P("qa")),
        "Struct": (dict(path=S("Path", segs=["qb"], leading_colon=NONE), fields=[S("FieldValue", attrs=[], member=E("Named", Ident("qc")), colon_token=SOME(0), expr=P("qa"))],
                        dot2_token=NONE, rest=NONE), P("qa"))},
    "visit_type": {
        "Reference": (dict(lifetime=NONE, mutability=NONE, elem=TY("f32")), TY("f32")), "Ptr": (dict(const_token=SOME(0), mutability=NONE, elem=TY("f32")), TY("f32")),
        "Slice": (dict(elem=TY("f32")), TY("f32")), "Array": (dict(elem=TY("f32"), len=INTL("3")), TY("f32")), "Tuple": (dict(elems=[TY("f32"), TY("f64")]), TY("f32")),
        "Paren": (dict(elem=TY("f32")), None), "Group": (dict(elem=TY("f32")), None)},
    "visit_pat": {
        "Wild": (dict(), None),
        "Reference": (dict(mutability=NONE, pat=PIDENT("qa")), PIDENT("qa")), "Box": (dict(pat=PIDENT("qa")), PIDENT("qa")),
        "Tuple": (dict(elems=[PIDENT("qa"), PIDENT("qb")]), PIDENT("qa")), "Or": (dict(leading_vert=NONE, cases=[PIDENT("qa"), PIDENT("qb")]), PIDENT("qa")),
        "Slice": (dict(elems=[PIDENT("qa"), PIDENT("qb")]), PIDENT("qa"))},
}


def pnames(x, out=None):
    out = set() if out is None else out
    if isinstance(x, (E,)):
        for y in x.p:
            pnames(y, out)
    elif isinstance(x, S):
        for y in x.f.values():
            pnames(y, out)
    elif isinstance(x, Ident):
        out.add(str(getattr(x, "s", x)))
    elif isinstance(x, (list, tuple)):
        for y in x:
            pnames(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            pnames(y, out)
    elif isinstance(x, str):
        out.add(x)
    return {y for y in out if y.startswith("q") and len(y) == 2}


def context(m, n):
    """(method, node, parser) embedding the node in a smallest program"""
    if m == "visit_expr":
        return "visit_expr", n, lambda t: cparse.parse_expr(t, TYPES)
    if m == "visit_lit":
        return "visit_expr", E("Lit", S("ExprLit", attrs=[], lit=n)), lambda t: cparse.parse_expr(t, TYPES)
    if m == "visit_pat":
        return "visit_stmt", E("Local", S("Local", attrs=[], pat=n, init=SOME((0, P("qi"))))), lambda t: cparse.parse_stmts(t, TYPES)
    if m == "visit_type":
        return "visit_stmt", E("Local", S("Local", attrs=[], pat=E("Type", S("PatType", attrs=[], pat=PIDENT("v"), ty=n)), init=SOME((0, P("qi"))))), lambda t: cparse.parse_stmts(t, TYPES)
    if m == "visit_item":
        return "visit_file", FILEN(n), lambda t: cparse.parse_file(t, TYPES)
    if m == "visit_fn_arg":
        f = FN("f", [], "f64", BLK(TAIL(P("a"))))
        f.p[0].f["sig"].f["inputs"].append(n)
        return "visit_file", FILEN(f), lambda t: cparse.parse_file(t, TYPES)
    return None


def run(r):
    cg = load(r)
    if cg is None:
        return
    n = 0
    for m in sorted(cg.items):
        ts = cg.one(m)
        if ts is None:
            r.undecided("one/" + m, "not analysed", cg.where(m))
            continue
        for kind, facts, nv, frag, others, s in ts:
            n += 1
            if kind == "panic":
                # arithmetic on counters and positions in a list the caller filled
                if any(f[0] == "b" and isT(f[1], "ovf") for f in facts):
                    continue
                if any(f[0] == "b" and isinstance(f[1], T) and hasop(f[1], ("len", "index")) for f in facts[-2:]):
                    continue
                r.bad("one/" + m, "a path of this method panics: %s" % "; ".join(show(f[1])[:80] for f in facts[-3:] if isinstance(f[1], T)), cg.where(m))
                continue
            if s is None:
                r.undecided("one/" + m, "the stack is not known at the end", cg.where(m))
                continue
            if frag is None and not isT(s, "seq"):
                r.undecided("one/" + m, show(s)[:200], cg.where(m))
                continue
            if frag is None and any(x.op in ("each", "join", "spread") for x in s.a[0][1:]):
                r.bad("one/" + m, "the method leaves %s: as many fragments as the node has parts" % show(s)[:200], cg.where(m))
                continue
            r.check("one/" + m, frag is not None, "the method leaves %s instead of one more fragment" % show(s)[:200], cg.where(m))
    r.floor("visitor paths", n, 150)
    tr = Trans(cg)
    k = 0
    for m, variants in DISPATCH.items():
        for v in list(variants) + (["Verbatim"] if m in VERBATIM else []):
            if v in SUPPORTED[m] or v in INSIDE:
                continue
            cx = context(m, E(v, Any(v), 0))
            if cx is None:
                continue
            k += 1
            key = "marked/%s/%s" % (m[6:], v)
            pay = PARTS.get(m, {}).get(v)
            whole = None
            try:
                if pay is not None:
                    cx = context(m, E(v, S("x", attrs=[], **pay[0])))
                    try:
                        txt = tr.call(cx[0], cx[1])
                        whole = pay
                    except Undecided:
                        cx = context(m, E(v, Any(v), 0))
                if whole is None:
                    txt = tr.call(cx[0], cx[1])
            except Undecided as x:
                r.undecided(key, str(x), FILE)
                continue
            except Broken as x:
                r.bad(key, "%s: %s" % (v, x), FILE)
                continue
            if whole is not None:
                try:
                    cx[2](txt)
                except CError:
                    r.ok(key, " ".join(txt.split())[:100], FILE)
                    continue
                lost = sorted(x for x in pnames(whole[0]) | ({"qi"} if m in ("visit_pat", "visit_type") else set()) if not re.search(r"\b%s\b" % x, txt))
                if lost:
                    r.bad(key, "%s of kind %s becomes the valid C `%s`, which has lost %s" % (m[6:], v, " ".join(txt.split())[:160], ", ".join(lost)), FILE)
                elif v == "Tuple" and "{" not in txt:
                    r.bad(key, "%s of kind Tuple becomes the valid C `%s`, which is not a pair of values" % (m[6:], " ".join(txt.split())[:160]), FILE)
                elif whole[1] is None:
                    r.ok(key, "transparent", FILE)
                else:
                    cy = context(m, whole[1])
                    if tr.call(cy[0], cy[1]).split() == txt.split():
                        r.bad(key, "%s of kind %s becomes `%s`, the same C as its operand alone" % (m[6:], v, " ".join(txt.split())[:160]), FILE)
                    else:
                        r.undecided(key, "translated: `%s`" % " ".join(txt.split())[:120], FILE)
                continue
            try:
                cx[2](txt)
                r.bad(key, "%s of kind %s, none of whose parts are used, becomes the valid C `%s`" % (m[6:], v, " ".join(txt.split())[:160]), FILE)
            except CError:
                r.ok(key, " ".join(txt.split())[:100], FILE)
    r.floor("untranslated kinds", k, 40)

    def marked(key, what, e):
        def f():
            txt = tr.call("visit_expr", e)
            try:
                cparse.parse_expr(txt, TYPES)
                return txt, False
            except CError:
                return txt, True

        x = guard(r, key, what, f)
        if x:
            r.check(key, x[1], "%s becomes the valid C `%s`" % (what, " ".join(x[0].split())[:160]), FILE)

    marked("marked/if-without-else", "an if without else", IF(P("c"), BLK(TAIL(P("a"))), None))
    marked("marked/nested", "an untranslated expression inside a call", CALL("f", P("a"), E("Closure", Any("ExprClosure"))))
    q = P("x")
    q.p[0].f["qself"] = SOME(Any("QSelf"))
    marked("marked/qself", "a path with a qualified self", q)
    # unknown methods keep their name and all arguments
    x = guard(r, "method/other", "an unknown method", lambda: expr_of(tr, MC(P("a"), "zzz", P("b"), P("c"))))
    if x:
        r.check("method/other", x[0] == ("call", "zzz", (("id", "a"), ("id", "b"), ("id", "c"))), "a.zzz(b, c) becomes `%s`" % x[1], FILE)
    # arrays: an array initialiser keeps its elements in order
    x = guard(r, "array", "an array", lambda: cparse.parse_stmts("int v[] = " + tr.call("visit_expr", ARR(P("a"), P("b"), P("c"))) + ";", TYPES))
    if x:
        r.check("array", cval(x[0][3]) == ("brace", (("id", "a"), ("id", "b"), ("id", "c"))), "the array [a, b, c] becomes %s" % d(x), FILE)
