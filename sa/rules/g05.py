import os, subprocess, tempfile

from rules.libcommon import *
from rules import ccommon as cc
from rules.ccommon import E, S, NONE, SOME, Ident, Trans, Broken, CError
from rules.g04 import Any
import cgen, cparse

RULE = ("the definitions the generators emit (parsed from their token templates), translated with the templates of the C back end: every selection of a function with what it "
        "needs is free of untranslatable constructs and is accepted by the C compiler's type checker (gcc -fsyntax-only) at both widths")

INV = {v: k for k, v in cc.OPS.items()}
AINV = {v: k for k, v in cc.AOPS.items()}


def name(x):
    return x if isinstance(x, str) else "hole"


def ty(t):
    s = t if isinstance(t, str) else show(t)
    s = s.replace(" ", "")
    if s and all(c.isalnum() or c in "_:" for c in s):
        return cc.TY(*s.split("::"))
    return E("Tuple" if s.startswith("(") else "Reference" if s.startswith("&") else "Array", Any(s))


def expr(e):
    o, a = e.op, e.a
    if o == "xhole":
        return cc.FLOAT("1.5", "f64")
    if o == "xlit":
        return lit(a[0])
    if o == "xpath":
        s = a[0].replace(" ", "") if isinstance(a[0], str) else "hole"
        return cc.P(*s.split("::"))
    if o == "xparen":
        return cc.PAREN(expr(a[0]))
    if o == "xun":
        if a[0] in "-!":
            return cc.UN("Neg" if a[0] == "-" else "Not", expr(a[1]))
    if o == "xbin":
        return cc.BIN(INV[a[0]], expr(a[1]), expr(a[2]))
    if o == "xcast":
        x = cc.CAST(expr(a[0]), "fty")
        x.p[0].f["ty"] = ty(a[1])
        return x
    if o == "xcall":
        return cc.CALL(expr(a[0]), *[expr(x) for x in a[1]])
    if o == "xmcall":
        return cc.MC(expr(a[0]), name(a[1]), *[expr(x) for x in a[2]])
    if o == "xif":
        els = None
        if a[2] is not None and a[2].op != "none":
            els = expr(a[2])
        return cc.IF(expr(a[0]), blk(a[1]), els)
    if o == "xblock":
        return cc.BLOCK(blk(e))
    if o == "xarr":
        return cc.ARR(*[expr(x) for x in a[0]])
    if o == "xassign":
        return cc.ASSIGN(expr(a[0]), expr(a[1]))
    if o == "xopassign":
        return cc.ASSIGNOP(AINV[a[0]], expr(a[1]), expr(a[2]))
    k = {"xtup": "Tuple", "xfield": "Field", "xindex": "Index", "xrep": "Repeat", "xclosure": "Closure", "xret": "Return", "xmac": "Macro", "xref": "Reference", "xrange": "Range",
         "xloop": "Loop", "xwhile": "While", "xfor": "ForLoop", "xmatch": "Match", "xbreak": "Break", "xcont": "Continue", "xun": "Reference"}.get(o)
    if k is None:
        raise cgen.Undecided("expression " + o)
    return E(k, Any(k))


def lit(t):
    import re

    if t in ("true", "false"):
        return cc.BOOL(t == "true")
    m = re.match(r"^(0x[0-9a-fA-F_]+?|[0-9][0-9_]*\.?[0-9_]*(?:[eE][+-]?[0-9]+)?)_?([fiu](?:8|16|32|64|size))?$", t)
    if not m:
        return E("Lit", S("ExprLit", attrs=[], lit=E("Str", Any("LitStr"))))
    dg, sf = m.group(1).replace("_", ""), m.group(2) or ""
    if dg.startswith("0x"):
        return cc.INTL(str(int(dg, 16)), sf)
    if "." in dg or "e" in dg.lower():
        return cc.FLOAT(dg, sf)
    return cc.INTL(dg, sf)


def pat(p, t):
    o = p.op
    if o in ("pid", "pident", "xpath"):
        x = cc.PIDENT(p.a[0] if isinstance(p.a[0], str) else "hole")
    else:
        x = E({"pwild": "Wild", "ptup": "Tuple"}.get(o, "Tuple"), Any(o))
    if isinstance(t, str):
        x = E("Type", S("PatType", attrs=[], pat=x, ty=ty(t)))
    return x


def blk(b):
    out = []
    stmts, tail = b.a[0], b.a[1]
    for s in stmts:
        if s.op == "xlet":
            i = s.a[2]
            out.append(E("Local", S("Local", attrs=[], pat=pat(s.a[0], s.a[1]), init=SOME((0, expr(i))) if i is not None and i.op != "none" else NONE)))
        elif s.op == "xsemi":
            out.append(cc.SEMI(expr(s.a[0])))
        elif s.op == "xexpr":
            out.append(cc.TAIL(expr(s.a[0])))
        elif s.op == "xitem":
            out.append(E("Item", item(s.a[0])))
        else:
            raise cgen.Undecided("statement " + s.op)
    if tail is not None and tail.op != "none":
        out.append(cc.TAIL(expr(tail)))
    return cc.BLK(*out)


def item(i):
    if i.op == "ifn":
        ins = []
        for p in i.a[1]:
            x = pat(p.a[0], p.a[1])
            ins.append(E("Typed", x.p[0]) if x.v == "Type" else E("Receiver", Any("Receiver")))
        f = cc.FN(name(i.a[0]), [], None, blk(i.a[3]))
        f.p[0].f["sig"].f["inputs"] = ins
        if isinstance(i.a[2], str):
            f.p[0].f["sig"].f["output"] = E("Type", 0, ty(i.a[2]))
        return f
    if i.op == "iconst":
        c = cc.CONST(name(i.a[0]), "fty", expr(i.a[2]))
        c.p[0].f["ty"] = ty(i.a[1])
        return c
    if i.op == "itype":
        t = cc.TYPEDEF(name(i.a[0]), "fty")
        t.p[0].f["ty"] = ty(i.a[1])
        return t
    return E("Use" if i.op == "iuse" else "Static" if i.op == "istatic" else "Mod", Any(i.op))


def run(r):
    g = load(r)
    cg = cc.load(r)
    if g is None or cg is None:
        return
    order = {id(e): k for k, e in enumerate(g.entries)}
    defs = {}
    for e, b, it, k in each(r, g, "c"):
        try:
            defs[(e["name"], b)] = [item(i) for i in it]
        except cgen.Undecided as x:
            r.undecided(k, str(x), where(g, e))
        except Exception as x:
            r.undecided(k, repr(x)[:200], where(g, e))
    n = 0
    bad = set()
    files = {}
    for b in BITS:
        tr = Trans(cg, "vm_", "f" if b == 32 else "")
        # what each definition becomes on its own
        for e in g.entries:
            d = defs.get((e["name"], b))
            if not d:
                continue
            k = "c/%s/%d" % (e["name"], b)
            try:
                txt = tr.call("visit_file", cc.FILEN(*d))
                n += 1
                cparse.parse_file(txt, cc.TYPES)
            except cgen.Undecided as x:
                r.undecided(k, str(x), where(g, e))
                bad.add((e["name"], b))
                continue
            except (Broken, CError) as x:
                r.bad(k, "%s cannot be written in C at %d bits: %s" % (e["name"], b, x), where(g, e))
                bad.add((e["name"], b))
                continue
            r.ok(k, "", where(g, e))
        for e in g.entries:
            if not e["gen"] or (e["name"], b) not in defs:
                continue
            cl, unk = g.closure([e["name"]])
            cl = [x for x in cl if x["gen"]]
            if any((x["name"], b) in bad or (x["name"], b) not in defs for x in cl) or (e["name"], b) in bad:
                continue
            cl.sort(key=lambda x: order[id(x)])
            ds = [i for x in cl for i in defs[(x["name"], b)]]
            try:
                files[(e["name"], b)] = tr.call("visit_file", cc.FILEN(*ds))
            except (cgen.Undecided, Broken) as x:
                r.undecided("gcc/%s/%d" % (e["name"], b), str(x), where(g, e))
    r.floor("definitions translated", n, 80)
    tmp = tempfile.mkdtemp(prefix="verif-c-")
    try:
        from concurrent.futures import ThreadPoolExecutor

        def one(x):
            (nm, b), txt = x
            p = os.path.join(tmp, "%s_%d.c" % (nm, b))
            open(p, "w").write(txt)
            o = subprocess.run(["gcc", "-fsyntax-only", "-w", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=int-conversion", p], capture_output=True, text=True)
            return nm, b, o.returncode, o.stderr

        ents = {e["name"]: e for e in g.entries}
        with ThreadPoolExecutor(8) as ex:
            for nm, b, rc, err in ex.map(one, files.items()):
                r.check("gcc/%s/%d" % (nm, b), rc == 0, "the C of %s with what it needs is rejected at %d bits: %s" % (nm, b, err[:300].replace(tmp, "")), where(g, ents[nm]))
        r.floor("C selections type-checked", len(files), 60)
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
