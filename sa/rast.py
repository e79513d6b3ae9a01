"""Parser for Rust token terms (the `ts` terms the interpreter builds for quote!/parse_quote!)
and normaliser from syn constructor terms: both give one expression-tree form (T terms):

 xlit(text) xpath(text) xhole(term) xparen(e) xun(op,e) xbin(op,l,r) xcast(e,ty) xcall(f,args)
 xmcall(recv,name,args) xfield(e,name) xindex(e,i) xarr(items) xrep(e,n) xtup(items)
 xif(c,then,else|None) xblock(stmts,tail|None) xclosure(params,body) xassign(l,r)
 xopassign(op,l,r) xret(e) xbreak(e) xcont() xmac(path,tokens) xref(mut,e) xrange(a,b,incl)
 xloop(b) xwhile(c,b) xfor(pat,it,b) xmatch(e,arms) xlet(pat,ty,init) xsemi(e) xexpr(e) xitem(i)
 ifn(name,params,ret,block,generics) iconst(name,ty,e) itype(name,ty) istatic(name,ty,e) iother(tokens)
"""
from interp import *


class ParseError(Exception):
    pass


BINP = {
    "*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "&": 7, "^": 6, "|": 5,
    "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "&&": 3, "||": 2,
}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
NONET = T("none")


class P:
    def __init__(self, toks):
        self.t = list(toks)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def at(self, kind, text=None, k=0):
        x = self.peek(k)
        return x is not None and x.op == kind and (text is None or x.a[0] == text)

    def eat(self, kind, text=None):
        if self.at(kind, text):
            self.i += 1
            return self.t[self.i - 1]
        return None

    def need(self, kind, text=None):
        x = self.eat(kind, text)
        if x is None:
            raise ParseError("expected %s %s at %s" % (kind, text, " ".join(map(show, self.t[self.i : self.i + 5]))))
        return x

    def group(self, d):
        x = self.peek()
        if x is not None and x.op == "gr" and x.a[0] == d:
            self.i += 1
            return x.a[1].a[0]
        return None

    def done(self):
        return self.i >= len(self.t)

    # ---- expressions
    def expr(self, nostruct=False, minp=0):
        # assignment / range level
        if self.at("id", "return"):
            self.i += 1
            return T("xret", NONET if self.stop() else self.expr(nostruct))
        if self.at("id", "break"):
            self.i += 1
            return T("xbreak", NONET if self.stop() else self.expr(nostruct))
        if self.at("id", "continue"):
            self.i += 1
            return T("xcont")
        if self.at("pu", "|") or self.at("pu", "||") or (self.at("id", "move") and self.at("pu", "|", 1)):
            self.eat("id", "move")
            return self.closure()
        l = self.binary(0, nostruct)
        x = self.peek()
        if x is not None and x.op == "pu":
            if x.a[0] == "=":
                self.i += 1
                return T("xassign", l, self.expr(nostruct))
            if x.a[0] in ASSIGN:
                self.i += 1
                return T("xopassign", x.a[0][:-1], l, self.expr(nostruct))
            if x.a[0] in ("..", "..="):
                self.i += 1
                r = NONET if self.stop() or (nostruct and self.at("gr")) else self.binary(0, nostruct)
                return T("xrange", l, r, x.a[0] == "..=")
        return l

    def stop(self):
        x = self.peek()
        return x is None or (x.op == "pu" and x.a[0] in (";", ",", "=>"))

    def binary(self, minp, nostruct):
        l = self.unary(nostruct)
        while True:
            x = self.peek()
            if x is not None and x.op == "id" and x.a[0] == "as":
                if minp > 11:
                    return l
                self.i += 1
                l = T("xcast", l, self.type_())
                continue
            if x is None or x.op != "pu" or x.a[0] not in BINP:
                return l
            p = BINP[x.a[0]]
            if p < minp:
                return l
            self.i += 1
            r = self.binary(p + 1, nostruct)
            l = T("xbin", x.a[0], l, r)

    def unary(self, nostruct):
        x = self.peek()
        if x is not None and x.op == "pu":
            if x.a[0] in ("-", "!", "*"):
                self.i += 1
                return T("xun", x.a[0], self.unary(nostruct))
            if x.a[0] == "&":
                self.i += 1
                m = bool(self.eat("id", "mut"))
                return T("xref", m, self.unary(nostruct))
            if x.a[0] == "&&":
                self.i += 1
                return T("xref", False, T("xref", False, self.unary(nostruct)))
        return self.postfix(self.primary(nostruct))

    def postfix(self, e):
        while True:
            if self.at("pu", "."):
                self.i += 1
                x = self.peek()
                if x is None:
                    raise ParseError("trailing dot")
                if x.op in ("id", "interp"):
                    self.i += 1
                    name = x.a[0] if x.op == "id" else x
                    tf = ()
                    if self.at("pu", "::") and self.at("pu", "<", 1):
                        self.i += 1
                        tf = (self.generics(),)
                    g = self.group("Parenthesis")
                    if g is not None:
                        e = T("xmcall", e, name, exprs(g), *tf)
                    else:
                        e = T("xfield", e, name)
                elif x.op == "li":
                    self.i += 1
                    e = T("xfield", e, x.a[0])
                else:
                    raise ParseError("bad field " + show(x))
                continue
            g = self.group("Parenthesis")
            if g is not None:
                e = T("xcall", e, exprs(g))
                continue
            g = self.group("Bracket")
            if g is not None:
                e = T("xindex", e, parse_expr(g))
                continue
            if self.at("pu", "?"):
                self.i += 1
                e = T("xtry", e)
                continue
            return e

    def primary(self, nostruct):
        x = self.peek()
        if x is None:
            raise ParseError("expression expected at the end")
        if x.op == "li":
            self.i += 1
            return T("xlit", x.a[0])
        if x.op == "interp":
            self.i += 1
            return hole(x.a[0])
        if x.op in ("tsall", "catall"):
            self.i += 1
            return T("xhole", x)
        if x.op == "gr":
            d = x.a[0]
            if d == "Parenthesis":
                self.i += 1
                inner = x.a[1].a[0]
                if not inner:
                    return T("xtup", ())
                p = P(inner)
                e = p.expr()
                if p.done():
                    return T("xparen", e)
                items = [e]
                while p.eat("pu", ","):
                    if p.done():
                        break
                    items.append(p.expr())
                if not p.done():
                    raise ParseError("bad tuple")
                return T("xtup", tuple(items))
            if d == "Brace":
                return self.block()
            if d == "Bracket":
                self.i += 1
                p = P(x.a[1].a[0])
                if p.done():
                    return T("xarr", ())
                e = p.expr()
                if p.eat("pu", ";"):
                    n = p.expr()
                    return T("xrep", e, n)
                items = [e]
                while p.eat("pu", ","):
                    if p.done():
                        break
                    items.append(p.expr())
                if not p.done():
                    raise ParseError("bad array")
                return T("xarr", tuple(items))
            if d == "None":
                self.i += 1
                return T("xparen", parse_expr(x.a[1].a[0]))
        if x.op == "id":
            w = x.a[0]
            if w == "if":
                return self.if_()
            if w == "unsafe" and self.peek(1) is not None and self.peek(1).op == "gr":
                self.i += 1
                return self.block()
            if w == "loop":
                self.i += 1
                return T("xloop", self.block())
            if w == "while":
                self.i += 1
                c = self.cond()
                return T("xwhile", c, self.block())
            if w == "for":
                self.i += 1
                pat = self.pat()
                self.need("id", "in")
                it = self.expr(nostruct=True)
                return T("xfor", pat, it, self.block())
            if w == "match":
                self.i += 1
                e = self.expr(nostruct=True)
                g = self.group("Brace")
                if g is None:
                    raise ParseError("match body")
                p = P(g)
                arms = []
                while not p.done():
                    pt = [p.pat()]
                    while p.eat("pu", "|"):
                        pt.append(p.pat())
                    guard = NONET
                    if p.eat("id", "if"):
                        guard = p.expr()
                    p.need("pu", "=>")
                    body = p.expr()
                    p.eat("pu", ",")
                    arms.append(T("arm", tuple(pt), guard, body))
                return T("xmatch", e, tuple(arms))
            return self.path_expr(nostruct)
        if x.op == "pu" and x.a[0] in ("::", "<"):
            return self.path_expr(nostruct)
        if x.op == "pu" and x.a[0] in ("..", "..="):
            self.i += 1
            return T("xrange", NONET, NONET if self.stop() else self.binary(0, nostruct), x.a[0] == "..=")
        if x.op == "pu" and x.a[0] in ("|", "||"):
            return self.closure()
        raise ParseError("unexpected " + show(x))

    def path_text(self):
        s = ""
        if self.eat("pu", "::"):
            s = "::"
        if self.at("pu", "<"):
            s += self.generics()
            self.need("pu", "::")
            s += "::"
        parts = []
        while True:
            x = self.eat("id")
            if x is None:
                x = self.eat("interp")
                if x is None:
                    raise ParseError("path segment expected")
                parts.append(x)
            else:
                parts.append(x.a[0])
            if self.at("pu", "::"):
                self.i += 1
                if self.at("pu", "<"):
                    parts[-1] = "%s::%s" % (parts[-1], self.generics())
                    if not self.eat("pu", "::"):
                        break
                continue
            break
        if len(parts) == 1 and not s and isinstance(parts[0], T):
            return parts[0]
        return s + "::".join(p if isinstance(p, str) else show(p) for p in parts)

    def path_expr(self, nostruct):
        p = self.path_text()
        if self.at("pu", "!") and self.peek(1) is not None and self.peek(1).op == "gr":
            self.i += 1
            g = self.peek()
            self.i += 1
            return T("xmac", p, g.a[1].a[0])
        if isinstance(p, T):
            return hole(p.a[0])
        g = self.peek()
        if not nostruct and g is not None and g.op == "gr" and g.a[0] == "Brace" and p[:1].isupper() and self.looks_struct(g):
            self.i += 1
            return T("xstruct", p, T("ts", g.a[1].a[0]))
        return T("xpath", p)

    @staticmethod
    def looks_struct(g):
        t = g.a[1].a[0]
        return len(t) > 1 and t[0].op == "id" and t[1].op == "pu" and t[1].a[0] in (":", ",")

    def generics(self):
        """consumes <...> and returns its text"""
        depth = 0
        s = ""
        while True:
            x = self.peek()
            if x is None:
                raise ParseError("unterminated generics")
            self.i += 1
            if x.op == "pu":
                if x.a[0] == "<":
                    depth += 1
                elif x.a[0] == ">":
                    depth -= 1
                elif x.a[0] == ">>":
                    depth -= 2
            s += show(x)
            if depth <= 0:
                return s

    def if_(self):
        self.need("id", "if")
        c = self.cond()
        th = self.block()
        el = NONET
        if self.eat("id", "else"):
            el = self.if_() if self.at("id", "if") else self.block()
        return T("xif", c, th, el)

    def cond(self):
        if self.at("id", "let"):
            self.i += 1
            pt = self.pat()
            self.need("pu", "=")
            return T("xletcond", pt, self.expr(nostruct=True))
        return self.expr(nostruct=True)

    def closure(self):
        params = []
        if not self.eat("pu", "||"):
            self.need("pu", "|")
            while not self.eat("pu", "|"):
                pt = self.pat(noalt=True)
                ty = NONET
                if self.eat("pu", ":"):
                    ty = self.type_()
                params.append(T("param", pt, ty))
                self.eat("pu", ",")
        if self.eat("pu", "->"):
            self.type_()
        return T("xclosure", tuple(params), self.expr())

    def block(self):
        g = self.group("Brace")
        if g is None:
            raise ParseError("block expected")
        return parse_block(g)

    def pat(self, noalt=False):
        x = self.peek()
        if x is None:
            raise ParseError("pattern expected")
        if x.op == "pu" and x.a[0] == "&":
            self.i += 1
            return T("pref", self.pat())
        if x.op == "pu" and x.a[0] == "-":
            self.i += 1
            l = self.need("li")
            return T("plit", "-" + l.a[0])
        if x.op == "pu" and x.a[0] == "_" or x.op == "id" and x.a[0] == "_":
            self.i += 1
            return T("pwild")
        if x.op == "li":
            self.i += 1
            return T("plit", x.a[0])
        if x.op == "gr" and x.a[0] == "Parenthesis":
            self.i += 1
            p = P(x.a[1].a[0])
            items = []
            while not p.done():
                items.append(p.pat())
                p.eat("pu", ",")
            return T("ptup", tuple(items))
        if x.op == "interp":
            self.i += 1
            return T("pid", T("xhole", x.a[0]), False)
        if x.op == "id":
            mut = False
            if x.a[0] == "ref":
                self.i += 1
            if self.at("id", "mut"):
                mut = True
                self.i += 1
            name = self.path_text()
            g = self.group("Parenthesis")
            if g is not None:
                p = P(g)
                items = []
                while not p.done():
                    items.append(p.pat())
                    p.eat("pu", ",")
                return T("pts", name, tuple(items))
            return T("pid", name, mut)
        raise ParseError("pattern " + show(x))

    def type_(self):
        x = self.peek()
        if x is None:
            raise ParseError("type expected")
        if x.op == "pu" and x.a[0] == "&":
            self.i += 1
            if self.peek() is not None and self.peek().op == "pu" and self.peek().a[0].startswith("'"):
                self.i += 1
            m = "mut " if self.eat("id", "mut") else ""
            return "&" + m + self.type_()
        if x.op == "pu" and x.a[0] == "!":
            self.i += 1
            return "!"
        if x.op == "gr" and x.a[0] == "Parenthesis":
            self.i += 1
            p = P(x.a[1].a[0])
            items = []
            while not p.done():
                items.append(p.type_())
                p.eat("pu", ",")
            return "(" + ", ".join(items) + ")"
        if x.op == "gr" and x.a[0] == "Bracket":
            self.i += 1
            p = P(x.a[1].a[0])
            t = p.type_()
            if p.eat("pu", ";"):
                n = p.expr()
                return "[%s; %s]" % (t, etext(n))
            return "[" + t + "]"
        s = self.path_text()
        if isinstance(s, T):
            s = "#" + show(s.a[0])
        if self.at("pu", "<"):
            s += self.generics()
        if s in ("fn", "dyn", "impl"):
            raise ParseError("type " + s)
        return s

    # ---- statements and items
    def attrs(self):
        out = []
        while self.at("pu", "#"):
            self.i += 1
            self.eat("pu", "!")
            g = self.group("Bracket")
            if g is None:
                raise ParseError("attribute")
            out.append(T("ts", g))
        return tuple(out)

    def item(self):
        """an item or None"""
        save = self.i
        at = self.attrs()
        while True:
            if self.eat("id", "pub"):
                if self.peek() is not None and self.peek().op == "gr" and self.peek().a[0] == "Parenthesis":
                    self.i += 1
                continue
            if self.at("id", "unsafe") and self.at("id", "fn", 1):
                self.i += 1
                continue
            if self.at("id", "const") and self.at("id", "fn", 1):
                self.i += 1
                continue
            break
        if self.eat("id", "fn"):
            n = self.peek()
            self.i += 1
            name = n.a[0] if n.op == "id" else T("xhole", n.a[0])
            gen = self.generics() if self.at("pu", "<") else ""
            g = self.group("Parenthesis")
            if g is None:
                raise ParseError("fn parameters")
            p = P(g)
            params = []
            while not p.done():
                p.attrs()
                pt = p.pat()
                ty = NONET
                if p.eat("pu", ":"):
                    ty = p.type_()
                params.append(T("param", pt, ty))
                if not p.done():
                    p.need("pu", ",")
            ret = NONET
            if self.eat("pu", "->"):
                ret = self.type_()
            if self.at("id", "where"):
                while not (self.peek() is None or (self.peek().op == "gr" and self.peek().a[0] == "Brace")):
                    self.i += 1
            if self.eat("pu", ";"):
                return T("ifn", name, tuple(params), ret, NONET, gen, at)
            return T("ifn", name, tuple(params), ret, self.block(), gen, at)
        if self.at("id", "const") or self.at("id", "static"):
            k = self.peek().a[0]
            self.i += 1
            self.eat("id", "mut")
            n = self.peek()
            self.i += 1
            name = n.a[0] if n.op in ("id", "pu") else T("xhole", n.a[0])
            self.need("pu", ":")
            ty = self.type_()
            self.need("pu", "=")
            e = self.expr()
            self.need("pu", ";")
            return T("i" + k, name, ty, e, at)
        if self.at("id", "type"):
            self.i += 1
            n = self.peek()
            self.i += 1
            name = n.a[0] if n.op == "id" else T("xhole", n.a[0])
            self.need("pu", "=")
            ty = self.type_()
            self.need("pu", ";")
            return T("itype", name, ty, at)
        if self.at("id", "use"):
            self.i += 1
            toks = []
            while not self.at("pu", ";"):
                if self.done():
                    raise ParseError("use")
                toks.append(self.peek())
                self.i += 1
            self.i += 1
            return T("iuse", T("ts", tuple(toks)), at)
        if self.at("id", "mod") or self.at("id", "struct") or self.at("id", "impl") or self.at("id", "trait") or self.at("id", "enum") or self.at("id", "extern"):
            toks = []
            while not self.done():
                x = self.peek()
                toks.append(x)
                self.i += 1
                if (x.op == "gr" and x.a[0] == "Brace") or (x.op == "pu" and x.a[0] == ";"):
                    break
            return T("iother", T("ts", tuple(toks)), at)
        self.i = save
        return None


def hole(v):
    e = from_syn(v)
    if e is not None:
        return e
    return T("xhole", v)


def exprs(toks):
    p = P(toks)
    out = []
    while not p.done():
        out.append(p.expr())
        if not p.done():
            p.need("pu", ",")
    return tuple(out)


def parse_expr(toks):
    p = P(toks)
    e = p.expr()
    if not p.done():
        raise ParseError("trailing tokens: " + " ".join(map(show, p.t[p.i : p.i + 6])))
    return e


BLOCKLIKE = {"xif", "xblock", "xloop", "xwhile", "xfor", "xmatch"}


def parse_block(toks):
    p = P(toks)
    stmts = []
    tail = NONET
    while not p.done():
        if p.eat("pu", ";"):
            continue
        it = p.item()
        if it is not None:
            stmts.append(T("xitem", it))
            continue
        p.attrs()
        if p.at("id", "let"):
            p.i += 1
            pt = p.pat()
            ty = NONET
            if p.eat("pu", ":"):
                ty = p.type_()
            init = NONET
            if p.eat("pu", "="):
                init = p.expr()
            p.need("pu", ";")
            stmts.append(T("xlet", pt, ty, init))
            continue
        x = p.peek()
        # a block-like expression at statement position ends there
        if (x.op == "id" and x.a[0] in ("if", "loop", "while", "for", "match", "unsafe")) or (x.op == "gr" and x.a[0] == "Brace"):
            e = p.primary(False)
            if p.done():
                tail = e
                break
            if p.eat("pu", ";"):
                stmts.append(T("xsemi", e))
                continue
            if p.at("pu", ".") or p.at("pu", "?"):
                e = p.postfix(e)
                if p.eat("pu", ";"):
                    stmts.append(T("xsemi", e))
                    continue
                if p.done():
                    tail = e
                    break
            stmts.append(T("xexpr", e))
            continue
        e = p.expr()
        if p.done():
            tail = e
            break
        if e.op == "xmac" and not p.at("pu", ";"):
            stmts.append(T("xexpr", e))
            continue
        p.need("pu", ";")
        stmts.append(T("xsemi", e))
    return T("xblock", tuple(stmts), tail)


def parse_items(toks):
    p = P(toks)
    out = []
    while not p.done():
        if p.eat("pu", ";"):
            continue
        it = p.item()
        if it is None:
            raise ParseError("item expected at " + " ".join(map(show, p.t[p.i : p.i + 6])))
        out.append(it)
    return out


# ---- from syn constructor terms
BINOPS = {
    "Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "And": "&&", "Or": "||", "BitXor": "^", "BitAnd": "&",
    "BitOr": "|", "Shl": "<<", "Shr": ">>", "Eq": "==", "Lt": "<", "Le": "<=", "Ne": "!=", "Ge": ">=", "Gt": ">",
    "AddEq": "+=", "SubEq": "-=", "MulEq": "*=", "DivEq": "/=", "RemEq": "%=", "BitXorEq": "^=", "BitAndEq": "&=",
    "BitOrEq": "|=", "ShlEq": "<<=", "ShrEq": ">>=",
}
UNOPS = {"Neg": "-", "Not": "!", "Deref": "*"}


def opname(t, st=None):
    """operator text of a BinOp/UnOp term, or the term itself"""
    if t.op == "ctor" and t.a[0].endswith("::BinOp"):
        return BINOPS[t.a[1]]
    if t.op == "ctor" and t.a[0].endswith("::UnOp"):
        return UNOPS[t.a[1]]
    return t


def get(t, name):
    for n, v in t.a[2]:
        if n == name:
            return v
    return None


def from_syn(v):
    """expression tree of a term of type syn::Expr (or a node struct); None when it is not a known constructor."""
    if not isinstance(v, T):
        return None
    if v.op == "parsed":
        return parse_expr(v.a[1].a[0])
    if v.op == "ctor":
        adt, var = v.a[0], v.a[1]
        if adt == "syn::expr::Expr":
            inner = v.a[2][0][1]
            e = from_syn(inner)
            if e is None:
                if inner.op == "fld" and inner.a[1] == var and inner.a[2] == "0":
                    return T("xhole", inner.a[0])
                return T("xhole", T("node", var, inner))
            return e
        n = adt.split("::")[-1]
        if n == "ExprBinary":
            o = opname(get(v, "op"))
            return T("xbin", o, sub(get(v, "left")), sub(get(v, "right")))
        if n == "ExprUnary":
            return T("xun", opname(get(v, "op")), sub(get(v, "expr")))
        if n == "ExprParen":
            return T("xparen", sub(get(v, "expr")))
        if n == "ExprField":
            return T("xfield", sub(get(v, "base")), get(v, "member"))
        if n == "ExprMethodCall":
            return T("xmcall", sub(get(v, "receiver")), get(v, "method"), seqsub(get(v, "args")), get(v, "turbofish"))
        if n == "ExprLit":
            return T("xlitv", get(v, "lit"))
        if n == "Expression":
            return from_syn(get(v, "inner"))
        if n == "ExprPath":
            return T("xpathv", get(v, "path"))
        return None
    return None


def seqsub(v):
    if v is not None and v.op == "seq":
        out = []
        for x in v.a[0]:
            if x.op in ("each", "spread"):
                out.append(x)
            else:
                out.append(sub(x))
        return tuple(out)
    return v


def sub(v):
    if v is None:
        return NONET
    e = from_syn(v)
    return e if e is not None else T("xhole", v)


def tree(v):
    return sub(v)


def strip_paren(e):
    while isT(e, "xparen"):
        e = e.a[0]
    return e


def deparen_all(e):
    """the tree without parenthesis nodes (the value structure)"""
    if isinstance(e, T):
        if e.op == "xparen":
            return deparen_all(e.a[0])
        if e.op.startswith("x") or e.op in ("param", "arm", "ifn", "iconst", "itype", "istatic"):
            return T(e.op, *[deparen_all(x) for x in e.a])
        return e
    if isinstance(e, tuple):
        return tuple(deparen_all(x) for x in e)
    return e


def etext(e):
    """text of an expression tree"""
    if not isinstance(e, T):
        return str(e)
    o, a = e.op, e.a
    if o == "xlit":
        return a[0]
    if o == "xpath":
        return a[0]
    if o == "xhole":
        return "#" + show(a[0])
    if o == "xparen":
        return "(" + etext(a[0]) + ")"
    if o == "xun":
        return str(a[0]) + etext(a[1])
    if o == "xbin":
        return "%s %s %s" % (etext(a[1]), a[0], etext(a[2]))
    if o == "xcast":
        return "%s as %s" % (etext(a[0]), a[1])
    if o == "xcall":
        return "%s(%s)" % (etext(a[0]), ", ".join(map(etext, a[1])))
    if o == "xmcall":
        return "%s.%s(%s)" % (etext(a[0]), a[1], ", ".join(map(etext, a[2])) if isinstance(a[2], tuple) else a[2])
    if o == "xfield":
        return "%s.%s" % (etext(a[0]), a[1])
    if o == "xindex":
        return "%s[%s]" % (etext(a[0]), etext(a[1]))
    if o == "xif":
        return "if %s %s%s" % (etext(a[0]), etext(a[1]), "" if a[2] is NONET else " else " + etext(a[2]))
    if o == "xblock":
        return "{ " + "".join(etext(s) + " " for s in a[0]) + ("" if a[1] is NONET else etext(a[1]) + " ") + "}"
    if o == "xlet":
        return "let %s = %s;" % (show(a[0]), etext(a[2]))
    if o in ("xsemi", "xexpr"):
        return etext(a[0]) + (";" if o == "xsemi" else "")
    return show(e)
