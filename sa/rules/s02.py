from rules.scommon import *
from rules import ccommon as cc
from simd import Undecided, Broken, E, S

RULE = ("the conversion of a whole file as a template over its items (loop-carried state: constants and names used), instantiated for files that cover every order and kind of item; "
        "the emitted implementation is parsed and every method must denote the function of its name with its parameters, types and constants")

T_ = "type fty = f%(b)s; type uty = u%(b)s; type ity = i%(b)s; "
FILES = {
    "one function": "fn f(x: fty) -> fty { x * x }",
    "two functions": "fn f(x: fty) -> fty { g(x) + 1.0 } fn g(y: fty) -> fty { y - 1.0 }",
    "two parameters": "fn f(y: fty, x: fty) -> fty { y - x }",
    "three parameters": "fn f(y: fty, n: ity, u: uty) -> fty { if n < 0 { y } else { g(y, u) } } fn g(x: fty, u: uty) -> fty { x }",
    "integer results": "fn f(x: fty) -> uty { x.to_bits() >> 3u%(b)s } fn g(x: fty) -> ity { x as ity }",
    "pair": "fn f(x: fty) -> (fty, fty) { (x + 1.0, x - 1.0) }",
    "pair of integers": "fn f(x: fty) -> (ity, uty) { (x as ity, x.to_bits()) }",
    "no result": "fn f(x: fty) { g(x) } fn g(x: fty) -> fty { x }",
    "constant": "const A: fty = 2.5; fn f(x: fty) -> fty { x * A }",
    "constants in order": "const A: fty = 2.5; const B: fty = 3.5; fn f(x: fty) -> fty { x * B + A }",
    "constant after use": "fn f(x: fty) -> fty { x * A } const A: fty = 2.5;",
    "constant of a constant": "const A: fty = 2.5; const B: fty = A * 2.0; fn f(x: fty) -> fty { x * B }",
    "chain of constants": "const A: fty = 2.5; const B: fty = A * 2.0; const C: fty = B + A; fn f(x: fty) -> fty { C - x }",
    "constant in one function only": "const A: fty = 2.5; fn f(x: fty) -> fty { x } fn g(x: fty) -> fty { A - x } fn h(x: fty) -> fty { x }",
    "constant in a branch": "const A: fty = 2.5; fn f(x: fty) -> fty { if x < A { let y: fty = x + 1.0; y * y } else { x } }",
    "constant in a method argument": "const A: fty = 2.5; const B: fty = 0.5; fn f(x: fty) -> fty { x.mul_add(A, B) }",
    "constant in a call": "const A: fty = 2.5; fn f(x: fty) -> fty { g(A, x) } fn g(x: fty, y: fty) -> fty { x }",
    "integer constants": "const M: uty = 255; const S: uty = 23u%(b)s; fn f(x: fty) -> uty { (x.to_bits() >> S) & M }",
    "shadowed constant": "const A: fty = 2.5; fn f(x: fty) -> fty { let A: fty = x; A * 2.0 }",
    "parameter named as another's constant": "const A: fty = 2.5; fn f(x: fty, B: fty) -> fty { A * B }",
    "locals": "fn f(x: fty) -> fty { let y: fty = x * x; let z = y + x; let y: fty = z - y; y * z }",
    "destructuring": "fn f(x: fty) -> fty { let (a, b) = g(x); a * b } fn g(x: fty) -> (fty, fty) { (x, x + 1.0) }",
    "typed locals": "fn f(x: fty) -> fty { let i: ity = x as ity; let u: uty = i as uty; (i as fty) + (u as fty) }",
    "nested branches": "fn f(x: fty) -> fty { if x < 0.0 { if x < -1.0 { -1.0 } else { x } } else { if x > 1.0 { 1.0 } else { x } } }",
    "zero-argument call": "fn f(x: fty) -> fty { x * g() } fn g() -> f%(b)s { 1.5 }",
    "inner constants": "fn f(x: fty) -> fty { const A: fty = 2.5; const B: fty = 1.0 - A; x * B + A }",
    "inner constant shadows": "const A: fty = 0.5; fn f(x: fty) -> fty { const A: fty = 2.5; x * A }",
    "inner constant in a branch": "fn f(x: fty) -> fty { if x < 0.0 { const A: fty = 2.5; x * A } else { x } }",
    "long function": "const A: fty = 2.5; const B: fty = 3.5; fn f(x: fty) -> fty { let y0: fty = x * A; " + " ".join("let y%d: fty = y%d * x + %d.0;" % (i + 1, i, i) for i in range(150)) + " y150 * B }",
    "many constants": " ".join("const A%d: fty = %d.5;" % (i, i) for i in range(40)) + " fn f(x: fty) -> fty { x " + " ".join("+ A%d" % i for i in range(40)) + " }",
    "many functions": " ".join("fn f%d(x: fty) -> fty { x * %d.0 }" % (i, i) for i in range(40)),
    "same parameter names": "fn f(x: fty, y: fty) -> fty { x - y } fn g(y: fty, x: fty) -> fty { x - y }",
    "three functions and constants between": "const A: fty = 0.25; fn f(x: fty) -> fty { h(x) * A } const B: fty = 0.75; fn g(x: fty) -> fty { f(x) * B } fn h(x: fty) -> fty { x - B }",
}


def source(text):
    return [simd.item(i) for i in rast.parse_items(lex(text))]


def consts(items, den):
    """denotations of the file's constants, whatever their order"""
    cs = {str(i.p[0].f["ident"]): i.p[0].f["expr"] for i in items if i.v == "Const"}
    out, busy = {}, set()

    class Env(dict):
        def __contains__(self, k):
            return k in cs

        def __getitem__(self, k):
            if k not in out:
                if k in busy:
                    raise Undecided("circular constants")
                busy.add(k)
                out[k] = den.e(cs[k], self)
            return out[k]

    e = Env()
    for k in cs:
        e[k]
    return out


def leading(fn):
    ins = fn.p[0].f["sig"].f["inputs"]
    return ins[0] if ins and ins[0].v == "Typed" else None


def pname(p):
    if p.v == "Type":
        p = p.p[0].f["pat"]
    if p.v != "Ident":
        raise Undecided("parameter pattern")
    return str(p.p[0].f["ident"])


def output(o, den):
    return den.sig_ty(o.p[1]) if o.v == "Type" else ("unit",)


def free(d, out=None):
    out = set() if out is None else out
    if isinstance(d, tuple):
        if len(d) == 2 and d[0] == "var":
            out.add(d[1])
        for x in d:
            free(x, out)
    return out


def compare(r, key, what, items, toks, bits):
    src, dst = Den(bits, False), Den(bits, True)
    o = Out(toks)
    b = str(bits)
    ok = o.header is not None and "forSimd<f%s," % b in o.header
    r.check(key + "/impl", ok, "%s at %s bits: the methods are implemented `%s` instead of for Simd<f%s, N>" % (what, b, o.header, b), RFILE)
    r.check(key + "/types", o.types.get("IntType") == "Simd<i%s,N>" % b and o.types.get("UintType") == "Simd<u%s,N>" % b,
            "%s at %s bits: the integer types are %s" % (what, b, o.types), RFILE)
    env0 = consts(items, src)
    got = {}
    for m in o.methods:
        n = str(m.p[0].f["sig"].f["ident"])
        if n in got:
            r.bad("%s/%s/once" % (key, n), "%s at %s bits: two methods %s" % (what, b, n), RFILE)
        got[n] = m
    for i in items:
        if i.v in ("Const", "Type"):
            continue
        if i.v != "Fn" or leading(i) is None:
            n = "".join(itemt(i).split())
            name = str(i.p[0].f["sig"].f["ident"]) if i.v == "Fn" else ""
            n2 = n[3:] if n.startswith("pub") else n
            r.check("%s/%s/kept" % (key, name or "item"), any(x == n or x == n2 or x == "pub" + n for x in o.others) or name in got, "%s at %s bits: `%s` is lost" % (what, b, itemt(i)[:80]), RFILE)
            continue
        sig = i.p[0].f["sig"].f
        n = str(sig["ident"])
        k = "%s/%s" % (key, n)
        m = got.get(n)
        if m is None:
            r.bad(k, "%s at %s bits: the function %s has no method" % (what, b, n), RFILE)
            continue
        msig = m.p[0].f["sig"].f
        mi = msig["inputs"]
        r.check(k + "/self", bool(mi) and mi[0].v == "Receiver", "%s at %s bits: the method %s does not take its lanes as self" % (what, b, n), RFILE)
        try:
            want = [(pname(x.p[0].f["pat"]), src.sig_ty(x.p[0].f["ty"])) for x in sig["inputs"][1:]]
            have = [(pname(x.p[0].f["pat"]), dst.sig_ty(x.p[0].f["ty"])) for x in mi[1:] if x.v == "Typed"]
            r.check(k + "/parameters", [x[1] for x in want] == [x[1] for x in have], "%s at %s bits: the parameters %s of %s become %s" % (what, b, want, n, have), RFILE)
            w, h = output(sig["output"], src), output(msig["output"], dst)
            r.check(k + "/result", w == h, "%s at %s bits: the result of %s is %s instead of %s" % (what, b, n, h, w), RFILE)
            if len(want) != len(have):
                continue
            e1 = dict(env0)
            e1[pname(sig["inputs"][0].p[0].f["pat"])] = ("self",)
            e2 = {"self": ("self",)}
            for j, ((a, _), (c, _)) in enumerate(zip(want, have)):
                e1[a] = e2[c] = ("parameter", j)
            d1 = src.block(i.p[0].f["block"], e1)
            d2 = dst.block(m.p[0].f["block"], e2)
        except Undecided as x:
            r.undecided(k, str(x), RFILE)
            continue
        except NoLane as x:
            r.bad(k + "/body", "%s at %s bits: in the method %s, %s" % (what, b, n, x), RFILE)
            continue
        fv = sorted(free(d2) - free(d1))
        r.check(k + "/names", not fv, "%s at %s bits: the method %s uses %s without a definition" % (what, b, n, ", ".join(fv)), RFILE)
        if not fv:
            r.check(k + "/body", d1 == d2, "%s at %s bits: the method %s computes %s instead of %s" % (what, b, n, sh(d2), sh(d1)), RFILE)
    extra = [n for n in got if not any(i.v == "Fn" and str(i.p[0].f["sig"].f["ident"]) == n for i in items)]
    r.check(key + "/extra", not extra, "%s at %s bits: methods %s stand for no function" % (what, b, extra), RFILE)


def run(r):
    sg = load(r)
    if sg is None:
        return
    n = 0
    for bits in (32, 64):
        for what, body in FILES.items():
            key = "file/%s/%d" % (what.replace(" ", "-"), bits)
            items = source((T_ + body) % {"b": bits})
            try:
                toks = Conv(sg, bits).file(cc.FILEN(*items))
                compare(r, key, what, items, toks, bits)
                n += 1
            except Undecided as x:
                r.undecided(key, str(x), RFILE)
            except Broken as x:
                r.bad(key, "%s at %d bits: %s" % (what, bits, x), RFILE)
    r.saw("files", n)
    r.saw("file templates", len(sg.templates("file")) if not isinstance(sg.templates("file"), Exception) else 0)
    r.assume("methods of std's SIMD types and of other crates keep their documented meaning")
