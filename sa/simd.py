"""The portable-SIMD back end as a rewriting of syntax trees.

Every overridden visitor method, and the conversion of a whole file, is analysed
once with each visit of a part replaced by the term visited(method, part, state)
(the inductive hypothesis). That gives guarded templates; `Conv` composes them
over syntax schemas. What they yield is printed as tokens and parsed again, so
that a template that loses the grouping of its operands is seen."""
import re
from load import *
import models, cgen
from cgen import E, S, Ident, NONE, SOME, Undecided, Broken, NoElem, UNKNOWN, freeze, snake
from gen import lex
import rast
from rules import ccommon as cc

VT = "syn::gen::visit_mut::VisitMut"
MODP = "doctor_syn::codegen::portable_simd::"
FILE = "doctor-syn/src/codegen/portable_simd.rs"


class SGen:
    def __init__(self, p):
        self.p = p
        ip = p.interp()
        self.impl = None
        for c, im in ip.impl_tab.get(VT, []):
            t = c.types[im["self"]]
            if t.get("path", "").startswith(MODP):
                self.impl = (c, im, t["path"])
        self.entry = MODP + "to_simd"
        if self.impl is None or self.entry not in p.bodies:
            self.impl = None
            return
        c, im, self.adt = self.impl
        self.items = im["items"]
        self.fields = [f if isinstance(f, str) else f[0] for f in c.adts[self.adt]["variants"][0]["fields"]]
        self.cache = {}

    def _hook(self):
        def hook(ip, st, info, args, ctx):
            m, tr, n = info.method(), info.trait(), info.name()
            if "visit_mut::visit_" in n and not tr:
                m2 = "default:" + n.split("::")[-1]
            elif tr == VT and m.startswith("visit_"):
                m2 = m if m in self.items else "default:" + m
            else:
                return None
            r = models.innermost(ip, st, args[1])
            v = ip.resolve(st, models.val(ip, st, r))
            sr = models.innermost(ip, st, args[0])
            s = ip.resolve(st, models.val(ip, st, sr))
            if s.op != "ctor" or r.op != "ref":
                raise interp.Undecided("the visitor's state in " + n)
            # the visit sees, and may change, the visitor's state
            state = T("state", tuple(s.a[2]))
            ip.write(st, sr.a[0], sr.a[1], T("ctor", s.a[0], s.a[1], tuple((k, T("aftervisit", m2, v, state, k) if k != "options" else x) for k, x in s.a[2])))
            ip.write(st, r.a[0], r.a[1], T("visited", m2, v, state))
            return [Leaf(st, "return", UNIT)]

        return hook

    def mkself(self):
        return T("ctor", self.adt, self.adt.split("::")[-1], tuple((n, T("sym", "self." + n)) for n in self.fields))

    @staticmethod
    def facts(l):
        return [f for f in l.st.order if f[0] in ("b", "is", "isnot")]

    def templates(self, m):
        """[(kind, facts, node after, {field: term}, folds)]"""
        if m in self.cache:
            return self.cache[m]
        ip = self.p.interp(hooks=[self._hook()], want_panics=True)
        st = St()
        out = []
        try:
            if m == "file":
                b = self.p.bodies[self.entry]
                ls = ip.run_body(b, [ip.ref_to(st, SYM("n")), T("sym", "self.options")], st)
                for l in ls:
                    v = ip.resolve(l.st, l.val) if l.kind == "return" else None
                    out.append((l.kind, self.facts(l), v, {}, dict(l.st.folds)))
            else:
                sr = ip.ref_to(st, self.mkself())
                nr = ip.ref_to(st, SYM("n"))
                for l in ip.run_body(self.p.bodies[self.items[m]], [sr, nr], st):
                    s = ip.resolve(l.st, models.val(ip, l.st, sr))
                    v = ip.resolve(l.st, models.val(ip, l.st, nr))
                    d = dict(s.a[2]) if s.op == "ctor" else None
                    out.append((l.kind, self.facts(l), v, d, dict(l.st.folds)))
        except interp.Undecided as x:
            out = Undecided("%s: %s" % (m, x))
        self.cache[m] = out
        return out


# ---------------------------------------------------------------- printing schemas
OPS, AOPS = cc.OPS, cc.AOPS


def typ(t):
    if t.v == "Path":
        return "::".join(t.p[0].f["path"].f["segs"])
    if t.v == "Tuple" and isinstance(t.p[0], S):
        return "(" + ", ".join(typ(x) for x in t.p[0].f["elems"]) + ")"
    if t.v == "Text":
        return t.p[0]
    raise Undecided("type " + t.v)


def blockt(b):
    return "{ " + " ".join(stmtt(s) for s in b.f["stmts"]) + " }"


def patt(p):
    if p.v == "Ident":
        f = p.p[0].f
        return ("mut " if f["mutability"].v == "Some" else "") + str(f["ident"])
    if p.v == "Type":
        return patt(p.p[0].f["pat"]) + ": " + typ(p.p[0].f["ty"])
    if p.v == "Tuple" and isinstance(p.p[0], S):
        return "(" + ", ".join(patt(x) for x in p.p[0].f["elems"]) + ")"
    if p.v == "Wild":
        return "_"
    raise Undecided("pattern " + p.v)


def stmtt(s):
    if s.v == "Local":
        l = s.p[0].f
        i = l["init"]
        return "let %s%s;" % (patt(l["pat"]), " = " + exprt(i.p[0][1]) if i.v == "Some" else "")
    if s.v == "Expr":
        return exprt(s.p[0])
    if s.v == "Semi":
        return exprt(s.p[0]) + ";"
    if s.v == "Item":
        return itemt(s.p[0])
    raise Undecided("statement " + s.v)


def pathx(f):
    return "::".join(f["path"].f["segs"])


def exprt(e):
    v = e.v
    if not e.p or not isinstance(e.p[0], S):
        if v == "Text":
            return e.p[0]
        raise Undecided("expression " + v)
    f = e.p[0].f
    if v == "Path":
        return pathx(f)
    if v == "Lit":
        l = f["lit"]
        if l.v in ("Int", "Float"):
            return l.p[0].f["base10_digits"] + l.p[0].f["suffix"]
        if l.v == "Bool":
            return "true" if l.p[0].f["value"] else "false"
        raise Undecided("literal " + l.v)
    if v == "Binary":
        return "%s %s %s" % (exprt(f["left"]), OPS[f["op"].v], exprt(f["right"]))
    if v == "Unary":
        return {"Neg": "-", "Not": "!", "Deref": "*"}[f["op"].v] + " " + exprt(f["expr"])
    if v == "Cast":
        return exprt(f["expr"]) + " as " + typ(f["ty"])
    if v == "Paren":
        return "(" + exprt(f["expr"]) + ")"
    if v == "Call":
        return exprt(f["func"]) + "(" + ", ".join(map(exprt, f["args"])) + ")"
    if v == "MethodCall":
        tf = f["turbofish"]
        return "%s.%s%s(%s)" % (exprt(f["receiver"]), f["method"], "::" + tf.p[0] if tf.v == "Some" else "", ", ".join(map(exprt, f["args"])))
    if v == "If":
        s = "if %s %s" % (exprt(f["cond"]), blockt(f["then_branch"]))
        if f["else_branch"].v == "Some":
            s += " else " + exprt(f["else_branch"].p[0][1])
        return s
    if v == "Block":
        return blockt(f["block"])
    if v == "Array":
        return "[" + ", ".join(map(exprt, f["elems"])) + "]"
    if v == "Tuple":
        return "(" + ", ".join(map(exprt, f["elems"])) + ("," if len(f["elems"]) == 1 else "") + ")"
    if v == "Assign":
        return exprt(f["left"]) + " = " + exprt(f["right"])
    if v == "AssignOp":
        return "%s %s= %s" % (exprt(f["left"]), AOPS[f["op"].v], exprt(f["right"]))
    if v in ("Return", "Break"):
        return v.lower() + (" " + exprt(f["expr"].p[0]) if f["expr"].v == "Some" else "")
    if v == "Continue":
        return "continue"
    if v == "Loop":
        return "loop " + blockt(f["body"])
    if v == "While":
        return "while %s %s" % (exprt(f["cond"]), blockt(f["body"]))
    if v == "ForLoop":
        return "for %s in %s %s" % (patt(f["pat"]), exprt(f["expr"]), blockt(f["body"]))
    if v == "Range":
        return "%s%s%s" % (exprt(f["from"].p[0]) if f["from"].v == "Some" else "", f["limits"], exprt(f["to"].p[0]) if f["to"].v == "Some" else "")
    raise Undecided("expression " + v)


def argt(a):
    if a.v == "Typed":
        f = a.p[0].f
        return patt(f["pat"]) + ": " + typ(f["ty"])
    if a.v == "Text":
        return a.p[0]
    raise Undecided("parameter " + a.v)


def sigt(s):
    f = s.f
    o = f["output"]
    out = ""
    if o.v == "Type":
        out = " -> " + typ(o.p[1])
    elif o.v == "Text":
        out = " " + o.p[0]
    return "fn %s(%s)%s" % (f["ident"], ", ".join(map(argt, f["inputs"])), out)


def itemt(i):
    f = i.p[0].f if i.p and isinstance(i.p[0], S) else None
    if f is None:
        raise Undecided("item " + i.v)
    if i.v == "Fn":
        return "pub " + sigt(f["sig"]) + " " + blockt(f["block"])
    if i.v == "Const":
        return "const %s: %s = %s;" % (f["ident"], typ(f["ty"]), exprt(f["expr"]))
    if i.v == "Type":
        return "type %s = %s;" % (f["ident"], typ(f["ty"]))
    if i.v == "Verbatim":
        return f["text"]
    raise Undecided("item " + i.v)


def text(v):
    """the token text of any schema"""
    if isinstance(v, E):
        if v.v in ("Typed", "Receiver"):
            return argt(v)
        if v.v in ("Local", "Expr", "Semi"):
            return stmtt(v)
        if v.v in ("Fn", "Const", "Verbatim"):
            return itemt(v)
        if v.v == "Path" and v.p[0].n == "TypePath":
            return typ(v)
        if v.v == "Ident" or v.v == "Type":
            return patt(v)
        return exprt(v)
    if isinstance(v, S):
        n = v.n
        if n in ("ExprPath", "TypePath"):
            return pathx(v.f)
        if n == "Path":
            return "::".join(v.f["segs"])
        if n.startswith("Expr"):
            return exprt(E(n[4:], v))
        if n in ("LitInt", "LitFloat"):
            return v.f["base10_digits"] + v.f["suffix"]
        if n == "Block":
            return blockt(v)
        if n == "ImplItemMethod":
            return sigt(v.f["sig"]) + " " + blockt(v.f["block"])
        if n == "PatIdent":
            return patt(E("Ident", v))
        if n.startswith("Item"):
            return itemt(E(n[4:], v))
        if n == "Text":
            return v.f["text"]
    if isinstance(v, str):
        return str(v)
    raise Undecided("tokens of %s" % (getattr(v, "n", None) or getattr(v, "v", None) or type(v).__name__))


def display(toks):
    """the text proc_macro2 shows for these tokens"""
    out = []
    for t in toks:
        if t.op == "gr":
            o, c = {"Parenthesis": ("(", ")"), "Bracket": ("[", "]"), "Brace": ("{", "}"), "None": ("", "")}[t.a[0]]
            out.append((o + " " + display(t.a[1].a[0]) + " " + c).replace("  ", " ") if t.a[0] == "Brace" else o + display(t.a[1].a[0]) + c)
        else:
            out.append(t.a[0])
    return " ".join(out)


# ---------------------------------------------------------------- parsed trees to schemas
INV = {v: k for k, v in OPS.items()}
AINV = {v: k for k, v in AOPS.items()}


def ty(s):
    s = s.replace(" ", "")
    if s.startswith("(") and s.endswith(")"):
        parts, d, cur = [], 0, ""
        for ch in s[1:-1]:
            d += ch in "(<[" and 1 or 0
            d -= ch in ")>]" and 1 or 0
            if ch == "," and d == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        if cur:
            parts.append(cur)
        return E("Tuple", S("TypeTuple", elems=[ty(x) for x in parts]))
    if re.match(r"^[\w:]+$", s):
        return cc.TY(*s.split("::"))
    return E("Text", s)


def lit(t):
    if t in ("true", "false"):
        return cc.BOOL(t == "true")
    m = re.match(r"^(0x[0-9a-fA-F_]+?|[0-9][0-9_]*(?:\.[0-9_]*)?(?:[eE][+-]?[0-9_]+)?)_?([fiu](?:8|16|32|64|size))?$", t)
    if not m:
        raise Undecided("literal " + t)
    dg, sf = m.group(1).replace("_", ""), m.group(2) or ""
    if dg.startswith("0x"):
        return cc.INTL(str(int(dg, 16)), sf)
    if "." in dg or "e" in dg.lower() or sf.startswith("f"):
        return cc.FLOAT(dg, sf)
    return cc.INTL(dg, sf)


def expr(e):
    o, a = e.op, e.a
    if o == "xhole":
        return cc.FLOAT("1.5", "")
    if o == "xlit":
        return lit(a[0])
    if o == "xpath":
        return cc.P(*a[0].replace(" ", "").split("::")) if isinstance(a[0], str) else cc.P("hole")
    if o == "xparen":
        return cc.PAREN(expr(a[0]))
    if o == "xun":
        return cc.UN({"-": "Neg", "!": "Not", "*": "Deref"}[a[0]], expr(a[1]))
    if o == "xbin":
        return cc.BIN(INV[a[0]], expr(a[1]), expr(a[2]))
    if o == "xcast":
        x = cc.CAST(expr(a[0]), "fty")
        x.p[0].f["ty"] = ty(a[1])
        return x
    if o == "xcall":
        return cc.CALL(expr(a[0]), *[expr(x) for x in a[1]])
    if o == "xmcall":
        x = cc.MC(expr(a[0]), a[1] if isinstance(a[1], str) else "hole", *[expr(x) for x in a[2]])
        if len(a) > 3 and isinstance(a[3], str):
            x.p[0].f["turbofish"] = SOME(a[3].replace(" ", ""))
        return x
    if o == "xif":
        return cc.IF(expr(a[0]), blk(a[1]), expr(a[2]) if a[2] is not None and a[2].op != "none" else None)
    if o == "xblock":
        return cc.BLOCK(blk(e))
    if o == "xarr":
        return cc.ARR(*[expr(x) for x in a[0]])
    if o == "xtup":
        return E("Tuple", S("ExprTuple", attrs=[], elems=[expr(x) for x in a[0]]))
    if o == "xassign":
        return cc.ASSIGN(expr(a[0]), expr(a[1]))
    if o == "xopassign":
        return cc.ASSIGNOP(AINV[a[0]], expr(a[1]), expr(a[2]))
    if o == "xret":
        return E("Return", S("ExprReturn", attrs=[], expr=NONE if not a or a[0].op == "none" else SOME(expr(a[0]))))
    if o == "xbreak":
        return E("Break", S("ExprBreak", attrs=[], label=NONE, expr=NONE if not a or a[0].op == "none" else SOME(expr(a[0]))))
    if o == "xcont":
        return E("Continue", S("ExprContinue", attrs=[], label=NONE))
    if o == "xloop":
        return E("Loop", S("ExprLoop", attrs=[], label=NONE, body=blk(a[0])))
    if o == "xwhile":
        return E("While", S("ExprWhile", attrs=[], label=NONE, cond=expr(a[0]), body=blk(a[1])))
    if o == "xfor":
        return E("ForLoop", S("ExprForLoop", attrs=[], label=NONE, pat=pat(a[0]), expr=expr(a[1]), body=blk(a[2])))
    if o == "xrange":
        return E("Range", S("ExprRange", attrs=[], limits="..=" if a[2] else "..", **{"from": NONE if a[0].op == "none" else SOME(expr(a[0])), "to": NONE if a[1].op == "none" else SOME(expr(a[1]))}))
    raise Undecided("expression " + o)


def pat(p, t=None):
    if p.op in ("pid", "xpath"):
        x = cc.PIDENT(p.a[0] if isinstance(p.a[0], str) else "hole")
        if p.op == "pid" and p.a[1] is True:
            x.p[0].f["mutability"] = SOME(0)
    elif p.op == "ptup":
        x = E("Tuple", S("PatTuple", attrs=[], elems=[pat(q) for q in p.a[0]]))
    elif p.op == "pwild":
        x = E("Wild", S("PatWild", attrs=[]))
    else:
        raise Undecided("pattern " + p.op)
    if isinstance(t, str):
        x = E("Type", S("PatType", attrs=[], pat=x, ty=ty(t)))
    return x


def stmt(s):
    if s.op == "xlet":
        i = s.a[2]
        return E("Local", S("Local", attrs=[], pat=pat(s.a[0], s.a[1]), init=SOME((0, expr(i))) if i is not None and i.op != "none" else NONE))
    if s.op == "xsemi":
        return cc.SEMI(expr(s.a[0]))
    if s.op == "xexpr":
        return cc.TAIL(expr(s.a[0]))
    if s.op == "xitem":
        return E("Item", item(s.a[0]))
    raise Undecided("statement " + s.op)


def blk(b):
    out = [stmt(s) for s in b.a[0]]
    if b.a[1] is not None and b.a[1].op != "none":
        out.append(cc.TAIL(expr(b.a[1])))
    return cc.BLK(*out)


def param(p):
    if isinstance(p.a[1], str):
        return E("Typed", pat(p.a[0], p.a[1]).p[0])
    return E("Receiver", S("Receiver", text="self"))


def item(i):
    if i.op == "ifn":
        f = cc.FN(i.a[0] if isinstance(i.a[0], str) else "hole", [], None, blk(i.a[3]))
        f.p[0].f["sig"].f["inputs"] = [param(p) for p in i.a[1]]
        if isinstance(i.a[2], str):
            f.p[0].f["sig"].f["output"] = E("Type", 0, ty(i.a[2]))
        return f
    if i.op == "iconst":
        c = cc.CONST(i.a[0], "fty", expr(i.a[2]))
        c.p[0].f["ty"] = ty(i.a[1])
        return c
    if i.op == "itype":
        t = cc.TYPEDEF(i.a[0], "fty")
        t.p[0].f["ty"] = ty(i.a[1])
        return t
    raise Undecided("item " + i.op)


def parse_as(kind, toks):
    """a schema of the kind parse_quote! was asked for"""
    p = rast.P(toks)
    try:
        if kind == "Expr":
            e = p.expr()
            if not p.done():
                raise rast.ParseError("tokens after the expression")
            return expr(e)
        if kind == "Stmt":
            b = rast.parse_block(toks)
            if len(b.a[0]) == 1 and b.a[1].op == "none":
                return stmt(b.a[0][0])
            if not b.a[0]:
                return cc.TAIL(expr(b.a[1]))
            raise rast.ParseError("more than one statement")
        if kind == "TypePath":
            return ty(p.type_()).p[0]
        if kind == "Type":
            return ty(p.type_())
        if kind == "FnArg":
            return E("Text", display(toks)) if len(toks) < 3 else E("Typed", pat(p.pat(), (p.need("pu", ":"), p.type_())[1]).p[0])
        if kind == "ReturnType":
            if not toks:
                return E("Default")
            p.need("pu", "->")
            return E("Type", 0, ty(p.type_()))
        if kind == "Ident":
            return Ident(toks[0].a[0])
        if kind == "Block":
            return blk(rast.parse_block(toks[0].a[1].a[0]))
        if kind in ("File", "Attribute", "TokenStream", "ItemImpl"):
            return S("Tokens", toks=tuple(toks))
    except rast.ParseError as x:
        raise Broken("the tokens `%s` do not parse as %s (%s), so parse_quote! panics" % (display(toks)[:160], kind, x))
    raise Undecided("parse_quote! of " + kind)


# ---------------------------------------------------------------- composition
_subs = {}


def subs(t):
    if t not in _subs:
        _subs[t] = frozenset(subterms(t))
    return _subs[t]


class Env(cgen.Env):
    def val(self, t):
        if not isinstance(t, T):
            return t
        # a value depends on what the elements and loop-carried values in it stand for
        ss = subs(t)
        bound = [(k, v) for k, v in self.el.items() if k in ss]
        k = (t, tuple((x, id(v)) for x, v in bound))
        if k not in self.cache:
            try:
                r = (True, self._val(t))
            except (Undecided, NoElem, Broken) as x:
                r = (False, x)
            self.cache[k] = (r, bound)
        ok, r = self.cache[k][0]
        if not ok:
            raise r
        return r

    def tokens(self, t):
        """token terms of a ts term"""
        out = []
        for x in t.a[0]:
            o = x.op
            if o in ("id", "pu", "li"):
                out.append(x)
            elif o == "gr":
                out.append(T("gr", x.a[0], T("ts", tuple(self.tokens(x.a[1])))))
            elif o == "interp":
                out += self.toks(self.val(x.a[0]))
            elif o == "tsall":
                coll, elem, body = x.a
                saved = self.el
                acc = []
                fl = self.needed((coll, elem), body)
                cur = {k: self.quiet(init) for k, (init, _) in fl.items()}
                first = True
                for it in self.lst(coll):
                    if not first:
                        cur = {k: self.quiet(b) for k, (_, b) in fl.items()}
                    first = False
                    # the loop-carried values of this iteration
                    self.el = dict(saved)
                    self.el[elem] = it
                    self.el.update(cur)
                    inner = [y for y in subterms(body) if y.op == "elemof"]
                    if isT(body, "ts") and inner:
                        outer = [y for y in inner if not any(y is not z and y in subterms(z) for z in inner)]
                        if len(outer) != 1:
                            raise Undecided("nested token loops")
                        for z in self.lst(outer[0].a[0]):
                            self.el[outer[0]] = z
                            acc += self.tokens(body)
                    else:
                        b = self.val(body) if not isT(body, "ts") else body
                        acc += self.tokens(b) if isT(b, "ts") else self.toks(b)
                self.el = saved
                out += acc
            else:
                raise Undecided("tokens " + show(x)[:120])
        return out

    def needed(self, key, body):
        """the loop-carried values the body of a loop depends on"""
        fl = self.folds.get(key, {})
        out, work = {}, [body]
        while work:
            b = work.pop()
            subs = set(subterms(b))
            for acc, (init, upd) in fl.items():
                if acc not in out and acc in subs:
                    out[acc] = (init, upd)
                    work.append(upd)
        return out

    def each(self, t):
        coll, elem, body = t.a
        return self.loop(coll, elem, body, self.needed((coll, elem), body))[0]

    def quiet(self, t):
        try:
            return self.val(t)
        except (Undecided, NoElem):
            return UNKNOWN

    def toks(self, v):
        if isinstance(v, S) and v.n == "Tokens":
            return list(v.f["toks"])
        if isinstance(v, list):
            out = []
            for i, x in enumerate(v):
                out += ([T("pu", ",")] if i else []) + self.toks(x)
            return out
        if isinstance(v, E) and v.v == "RepInterp":
            return self.toks(v.p[0])
        if isinstance(v, S) and v.n == "RepInterp":
            return self.toks(v.f["0"])
        if isinstance(v, S) and v.n == "ImplItemMethod":
            return [y for x in v.f["attrs"] for y in self.toks(x)] + list(lex(text(v)))
        return list(lex(text(v)))

    def _val(self, t):
        o, a = t.op, t.a
        if t in self.el:
            return cgen.Env.val(self, t)
        if o == "visited":
            return self.tr.both(a[0], self.val(a[1]), self.st(a[2]))[0]
        if o == "aftervisit":
            v = dict(self.tr.both(a[0], self.val(a[1]), self.st(a[2]))[1]).get(a[3], UNKNOWN)
            if v is UNKNOWN:
                raise Undecided("state after " + a[0])
            return list(v) if isinstance(v, tuple) else v
        if o == "parsed":
            if not isT(a[1], "ts"):
                raise Undecided(show(t)[:100])
            return parse_as(a[0].split("::")[-1], self.tokens(a[1]))
        if o == "ts":
            return S("Tokens", toks=tuple(self.tokens(t)))
        if o in ("cat", "disp", "conv", "owned") and not (o == "cat" and len(a[0]) > 1):
            x = self.val(a[0][0] if o == "cat" else a[0])
            if isinstance(x, S) and x.n == "Tokens":
                return display(x.f["toks"])
            if isinstance(x, S) and x.n == "IdentFragmentAdapter":
                return x.f["0"]
            return x
        if o == "ident":
            return Ident(self.text(a[0]))
        if o == "ctor":
            adt, var, fs = a
            last = adt.split("::")[-1]
            if last == var:
                return S(var, **{k: self.val(x) for k, x in fs})
            return E(var, *[self.val(x) for _, x in fs])
        if o == "upd":
            v = self.val(a[0])
            for path, x in a[1]:
                pass
            return self.upd(v, a[1])
        if o == "contains":
            x, y = self.val(a[0]), self.val(a[1])
            return y in x
        if o == "eq":
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, (E, S)) or isinstance(y, (E, S)):
                x = text(x) if isinstance(x, (E, S)) else x
                y = text(y) if isinstance(y, (E, S)) else y
            return x == y
        if o == "fld" and a[1] is None:
            x = self.val(a[0])
            if isinstance(x, S) and isinstance(a[2], str) and a[2] in x.f:
                return x.f[a[2]]
            if isinstance(x, E) and x.v == "Text":
                raise Undecided("part of " + x.p[0])
        if o == "fold":
            coll, elem, init, acc, body = a
            fl = self.needed((coll, elem), body)
            fl[acc] = (init, body)
            return self.loop(coll, elem, None, fl)[1][acc]
        return cgen.Env.val(self, t)

    def upd(self, v, ups):
        for path, x in ups:
            v = self.upd1(v, list(path) if path and isinstance(path[0], tuple) else [path], self.val(x))
        return v

    def upd1(self, v, path, x):
        if not path:
            return x
        var, f = path[0]
        if var is None and isinstance(v, S) and f in v.f:
            d = dict(v.f)
            d[f] = self.upd1(v.f[f], path[1:], x)
            return S(v.n, **d)
        if isinstance(v, E) and v.v == var:
            p = list(v.p)
            p[int(f)] = self.upd1(p[int(f)], path[1:], x)
            return E(v.v, *p)
        if isinstance(v, tuple):
            p = list(v)
            p[int(f)] = self.upd1(p[int(f)], path[1:], x)
            return tuple(p)
        if var == "i":
            f = self.val(f)
        if isinstance(v, list) and isinstance(f, int) and f < len(v):
            return v[:f] + [self.upd1(v[f], path[1:], x)] + v[f + 1:]
        raise Undecided("update of a part")

    def libcall(self, t, n, args):
        last = n.split("::")[-1]
        if last == "first" and len(args) == 1:
            l = self.lst(args[0])
            return SOME(l[0]) if l else NONE
        if last == "get_ident" or last == "require_ident":
            x = self.val(args[0])
            segs = x.f["segs"]
            return SOME(Ident(segs[0])) if len(segs) == 1 else NONE
        if last in ("is_some", "is_none"):
            x = self.val(args[0])
            return (x.v == "Some") == (last == "is_some")
        return cgen.Env.libcall(self, t, n, args)

    def st(self, t):
        out = []
        for k, v in t.a[0]:
            if k == "options":
                continue
            try:
                v = freeze(self.val(v))
            except (Undecided, NoElem):
                v = UNKNOWN
            out.append((k, v))
        return tuple(out)


# kind of part -> visitor method; what a walk visits
WALK = {
    "expr": "visit_expr_mut", "left": "visit_expr_mut", "right": "visit_expr_mut", "receiver": "visit_expr_mut", "cond": "visit_expr_mut", "func": "visit_expr_mut",
    "args": "visit_expr_mut", "elems": "visit_expr_mut", "method": "visit_ident_mut", "ident": "visit_ident_mut", "ty": "visit_type_mut", "block": "visit_block_mut",
    "then_branch": "visit_block_mut", "lit": "visit_lit_mut", "stmts": "visit_stmt_mut", "pat": "visit_pat_mut", "sig": "visit_signature_mut", "inputs": "visit_fn_arg_mut",
    "output": "visit_return_type_mut", "op": "visit_bin_op_mut", "path": "visit_path_mut", "body": "visit_block_mut", "items": "visit_item_mut",
}
DISP = {"visit_expr_mut": "Expr", "visit_lit_mut": "Lit", "visit_type_mut": "Type", "visit_pat_mut": "Pat", "visit_item_mut": "Item"}
LEAFM = {"visit_bin_op_mut", "visit_un_op_mut", "visit_lit_int_mut", "visit_lit_float_mut", "visit_lit_bool_mut", "visit_ident_mut"}


class Conv:
    """both(method, node, state) -> (node after the visit, state after it)"""

    def __init__(self, sg, bits=32):
        self.sg = sg
        self.opt = {"num_bits": bits}
        self.used = set()
        self.lv = {}
        self.memo = {}
        self.empty = tuple((k, ()) for k in sg.fields if k != "options")
        self.depth = 0

    def convert(self, e):
        return self.both("visit_expr_mut", e, self.empty)[0]

    def file(self, f):
        """token terms of the converted file"""
        v, _ = self.apply("file", f, self.empty)
        if not (isinstance(v, S) and v.n == "Tokens"):
            raise Undecided("the converted file is not a token template")
        return v.f["toks"]

    def both(self, m, n, state):
        k = (m, id(n), state)
        try:
            if k in self.memo:
                return self.memo[k][1]
        except TypeError:
            k = None
        r = self._both(m, n, state)
        if k is not None:
            self.memo[k] = (n, r)
        return r

    def _both(self, m, n, state):
        if self.depth > 600:
            raise Undecided("depth")
        self.depth += 1
        try:
            if m.startswith("default:"):
                return self.default(m[8:], n, state)
            if m not in self.sg.items:
                return self.default(m, n, state)
            self.used.add(m)
            return self.apply(m, n, state)
        finally:
            self.depth -= 1

    def leaves(self, m):
        if m in self.lv:
            return self.lv[m]
        ts = self.sg.templates(m)
        if isinstance(ts, Exception):
            raise ts
        out = []
        for kind, facts, v, d, fl in ts:
            folds = {}
            for t in [x for x in [v] + list((d or {}).values()) if isinstance(x, T)] + [f[1] for f in facts if isinstance(f[1], T)]:
                for x in subterms(t):
                    if x.op == "fold":
                        folds.setdefault((x.a[0], x.a[1]), {})[x.a[3]] = (x.a[2], x.a[4])
            for acc, (coll, elem, init, body) in fl.items():
                folds.setdefault((coll, elem), {}).setdefault(acc, (init if init is not None else T("uninit"), body))
            free = any(x.op == "elem" for f in facts if isinstance(f[1], T) for x in subterms(f[1]))
            out.append((1 if not free else 0, kind, facts, v, d, folds))
        out.sort(key=lambda x: x[0])
        self.lv[m] = out
        return out

    def apply(self, m, n, state):
        for _, kind, facts, v, d, folds in self.leaves(m):
            for env in self.envs(n, state, facts, folds):
                if kind == "panic":
                    if any(f[0] == "b" and isT(f[1], "ovf") for f in facts):
                        continue
                    raise Broken("the conversion panics in %s" % ("to_simd" if m == "file" else m))
                if kind != "return":
                    raise Undecided(kind)
                if v is None:
                    raise Undecided("result of " + m)
                try:
                    out = env.val(v)
                except NoElem as x:
                    raise Undecided("an element that is searched for: %s" % (show(x.args[0])[:100] if x.args else ""))
                st = []
                for k, old in state:
                    x = (d or {}).get(k)
                    if x is None:
                        st.append((k, UNKNOWN if d is None else old))
                        continue
                    try:
                        st.append((k, freeze(env.val(x))))
                    except (Undecided, NoElem):
                        st.append((k, UNKNOWN))
                return out, tuple(st)
        raise Undecided("no template of %s applies" % m)

    def envs(self, n, state, facts, folds):
        work = [{}]
        while work:
            b = work.pop(0)
            env = Env(self, n, state, folds)
            env.el.update(b)
            try:
                if all(env.fact(f) for f in facts):
                    yield env
                    return
            except NoElem as x:
                if x.args and isinstance(x.args[0], T) and x.args[0].op == "elem" and x.args[0] not in b:
                    try:
                        work = [dict(b) | {x.args[0]: v} for v in env.lst(x.args[0].a[0])] + work
                    except NoElem:
                        pass
                continue

    # ---- the default traversals of syn
    def default(self, m, n, state):
        if m in DISP and isinstance(n, E):
            if not n.p or not isinstance(n.p[0], S):
                return n, state
            m2 = "visit_%s_%s_mut" % (DISP[m].lower(), snake(n.v))
            p, state = self.both(m2, n.p[0], state)
            return (E(n.v, p, *n.p[1:]) if isinstance(p, S) else p), state
        if m in LEAFM:
            return n, state
        if m == "visit_path_mut":
            segs = []
            for s in n.f["segs"]:
                x, state = self.both("visit_ident_mut", Ident(s), state)
                segs.append(str(x))
            return S("Path", segs=segs, leading_colon=n.f["leading_colon"]), state
        if m == "visit_fn_arg_mut":
            if n.v == "Typed":
                p, state = self.both("visit_pat_type_mut", n.p[0], state)
                return E("Typed", p), state
            return n, state
        if m == "visit_return_type_mut":
            if n.v == "Type":
                t, state = self.both("visit_type_mut", n.p[1], state)
                return E("Type", n.p[0], t), state
            return n, state
        if m == "visit_stmt_mut":
            sub = {"Local": "visit_local_mut", "Expr": "visit_expr_mut", "Semi": "visit_expr_mut", "Item": "visit_item_mut"}[n.v]
            p, state = self.both(sub, n.p[0], state)
            return E(n.v, p, *n.p[1:]), state
        if isinstance(n, S):
            d = dict(n.f)
            for k, v in n.f.items():
                if k == "init":
                    if v.v == "Some":
                        x, state = self.both("visit_expr_mut", v.p[0][1], state)
                        d[k] = SOME((v.p[0][0], x))
                    continue
                if k in ("from", "to") or (k == "expr" and isinstance(v, E) and v.v in ("Some", "None")):
                    if v.v == "Some":
                        x, state = self.both("visit_expr_mut", v.p[0], state)
                        d[k] = SOME(x)
                    continue
                if k == "else_branch":
                    if v.v == "Some":
                        x, state = self.both("visit_expr_mut", v.p[0][1], state)
                        d[k] = SOME((v.p[0][0], x))
                    continue
                if k not in WALK:
                    continue
                w = WALK[k]
                if k == "expr" and not isinstance(v, E):
                    continue
                if k == "elems":
                    w = {"TypeTuple": "visit_type_mut", "PatTuple": "visit_pat_mut"}.get(n.n, w)
                if isinstance(v, list):
                    l = []
                    for y in v:
                        x, state = self.both(w, y, state)
                        l.append(x)
                    d[k] = l
                else:
                    d[k], state = self.both(w, v, state)
            return S(n.n, **d), state
        raise Undecided("%s of %s" % (m, n))
