"""A small C parser (the subset a translation of Rust arithmetic can produce, with GNU statement
expressions) used to decide how a piece of generated C groups."""
import re

TOK = re.compile(
    r"\s+|//[^\n]*|/\*.*?\*/"
    r"|(?P<str>\"(?:\\.|[^\"\\])*\")"
    r"|(?P<num>0[xX][0-9a-fA-F]+[uUlL]*|(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)(?:[eE][+-]?[0-9]+)?[a-zA-Z0-9_]*)"
    r"|(?P<id>[A-Za-z_]\w*)"
    r"|(?P<pu><<=|>>=|\.\.\.|\+\+|--|->|&&|\|\||<<|>>|<=|>=|==|!=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%&|^!~<>=?:;,.(){}\[\]])",
    re.S,
)
TYPEWORDS = {"int", "float", "double", "char", "short", "long", "signed", "unsigned", "void", "_Bool", "bool", "__auto_type",
             "__SIZE_TYPE__", "__PTRDIFF_TYPE__", "size_t", "ptrdiff_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t",
             "uint16_t", "uint32_t", "uint64_t", "intptr_t", "uintptr_t", "ssize_t", "auto"}
QUALS = {"const", "static", "inline", "extern", "volatile", "register", "restrict", "__inline", "__extension__"}
LEVEL = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6,
         "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
ASG = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}


class CError(Exception):
    pass


def canon(words):
    w = sorted(words)
    s = " ".join(words)
    base = [x for x in words if x in ("int", "float", "double", "char", "short", "long", "signed", "unsigned")]
    if len(base) == len(words) and words:
        uns = "unsigned" in base
        lg = base.count("long")
        if "char" in base:
            return ("u8" if uns else "i8" if "signed" in base else "char")
        if "short" in base:
            return "u16" if uns else "i16"
        if "float" in base:
            return "f32"
        if "double" in base:
            return "f80" if lg else "f64"
        if lg:
            return "u64" if uns else "i64"
        return "u32" if uns else "i32"
    alias = {"int8_t": "i8", "int16_t": "i16", "int32_t": "i32", "int64_t": "i64", "uint8_t": "u8", "uint16_t": "u16",
             "uint32_t": "u32", "uint64_t": "u64", "size_t": "usize", "__SIZE_TYPE__": "usize", "uintptr_t": "usize",
             "ptrdiff_t": "isize", "__PTRDIFF_TYPE__": "isize", "intptr_t": "isize", "ssize_t": "isize", "_Bool": "bool", "auto": "auto",
             "__auto_type": "auto"}
    if len(words) == 1:
        return alias.get(words[0], words[0])
    return s


class C:
    def __init__(self, text, types=()):
        self.types = set(types)
        self.t = []
        self.pp = []
        lines = []
        for ln in text.split("\n"):
            if ln.lstrip().startswith("#"):
                self.pp.append(ln.strip())
                lines.append("")
            else:
                lines.append(ln)
        text = "\n".join(lines)
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise CError("not C: %r" % text[i : i + 30])
            i = m.end()
            for k in ("str", "num", "id", "pu"):
                if m.group(k) is not None:
                    self.t.append((k, m.group(k)))
        self.i = 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")

    def at(self, s, k=0):
        return self.pk(k) == ("pu", s)

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise CError("expected %s at %s" % (s, " ".join(x[1] for x in self.t[self.i : self.i + 8])))

    def ident(self):
        k, v = self.pk()
        if k != "id":
            raise CError("identifier expected at %s" % v)
        self.i += 1
        return v

    # ---- types
    def istype(self, k=0):
        kd, v = self.pk(k)
        return kd == "id" and (v in TYPEWORDS or v in QUALS or v in self.types or v in ("union", "struct"))

    def type_(self):
        words, quals = [], []
        while True:
            kd, v = self.pk()
            if kd != "id":
                break
            if v in QUALS:
                quals.append(v)
                self.i += 1
                continue
            if v in ("union", "struct") and not words:
                self.i += 1
                if self.pk()[0] == "id":
                    self.i += 1
                self.need("{")
                fs = []
                while not self.eat("}"):
                    ty, _ = self.type_()
                    fs.append((ty, self.ident()))
                    self.need(";")
                words = None
                res = (v, tuple(fs))
                continue
            if words is not None and (v in TYPEWORDS or (v in self.types and not words)):
                words.append(v)
                self.i += 1
                continue
            break
        ptr = 0
        while self.eat("*"):
            ptr += 1
        if words is None:
            return res, quals
        if not words:
            raise CError("type expected at %s" % self.pk()[1])
        c = canon(words)
        return c + "*" * ptr, quals

    # ---- expressions
    def expr(self):
        e = self.asg()
        while self.at(","):
            self.i += 1
            e = ("comma", e, self.asg())
        return e

    def asg(self):
        l = self.cond()
        k, v = self.pk()
        if k == "pu" and v in ASG:
            # C's grammar: the left side is a unary expression
            if l[0] in ("bin", "cond", "cast"):
                raise CError("assignment to %s" % (l[0],))
            self.i += 1
            return ("asg", v, l, self.asg())
        return l

    def cond(self):
        c = self.bin(1)
        if self.eat("?"):
            a = self.expr()
            self.need(":")
            b = self.cond()
            return ("cond", c, a, b)
        return c

    def bin(self, lv):
        if lv > 10:
            return self.cast()
        l = self.bin(lv + 1)
        while True:
            k, v = self.pk()
            if k == "pu" and LEVEL.get(v) == lv:
                self.i += 1
                l = ("bin", v, l, self.bin(lv + 1))
            else:
                return l

    def cast(self):
        if self.at("(") and self.istype(1):
            j = self.i
            self.i += 1
            ty, _ = self.type_()
            self.need(")")
            if self.at("{"):
                e = ("lit", ty, self.inits())
                return self.post(e)
            return ("cast", ty, self.cast())
        return self.unary()

    def inits(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            if self.eat("."):
                f = self.ident()
                self.need("=")
                out.append(("des", f, self.asg()))
            else:
                out.append(self.inits_or_expr())
            if not self.at("}"):
                self.need(",")
        return tuple(out)

    def inits_or_expr(self):
        if self.at("{"):
            return ("brace", self.inits())
        return self.asg()

    def unary(self):
        for o in ("-", "!", "~", "+", "*", "&"):
            if self.at(o):
                self.i += 1
                return ("un", o, self.cast())
        for o in ("++", "--"):
            if self.at(o):
                self.i += 1
                return ("pre", o, self.unary())
        return self.post(self.prim())

    def post(self, e):
        while True:
            if self.eat("("):
                args = []
                while not self.eat(")"):
                    args.append(self.asg())
                    if not self.at(")"):
                        self.need(",")
                e = ("call", e, tuple(args))
            elif self.eat("["):
                i = self.expr()
                self.need("]")
                e = ("idx", e, i)
            elif self.eat("."):
                e = ("mem", e, self.ident())
            elif self.eat("->"):
                e = ("pmem", e, self.ident())
            elif self.at("++") or self.at("--"):
                o = self.pk()[1]
                self.i += 1
                e = ("post", o, e)
            else:
                return e

    def prim(self):
        k, v = self.pk()
        if k == "id":
            if v in TYPEWORDS or v in QUALS or v in ("return", "if", "else", "break", "continue", "while", "for", "typedef", "union", "struct"):
                raise CError("%s is not an expression" % v)
            self.i += 1
            return ("id", v)
        if k == "num":
            self.i += 1
            return ("num", v)
        if k == "str":
            self.i += 1
            return ("str", v)
        if self.eat("("):
            if self.at("{"):
                b = self.block()
                self.need(")")
                return ("stx", b)
            e = self.expr()
            self.need(")")
            return ("par", e)
        raise CError("expression expected at %s" % " ".join(x[1] for x in self.t[self.i : self.i + 6]))

    # ---- statements
    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            s = self.stmt()
            if s is not None:
                out.append(s)
        return tuple(out)

    def stmt(self):
        if self.eat(";"):
            return None
        if self.at("{"):
            return ("blk", self.block())
        k, v = self.pk()
        if k == "id" and v == "return":
            self.i += 1
            e = None if self.at(";") else self.expr()
            self.need(";")
            return ("ret", e)
        if k == "id" and v == "break":
            self.i += 1
            self.need(";")
            return ("break",)
        if k == "id" and v == "if":
            self.i += 1
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = None
            if self.pk() == ("id", "else"):
                self.i += 1
                b = self.stmt()
            return ("if", c, a, b)
        if k == "id" and (v in TYPEWORDS or v in QUALS or (v in self.types and self.pk(1)[0] == "id")):
            ty, q = self.type_()
            n = self.ident()
            if self.eat("["):
                i = None if self.at("]") else self.expr()
                self.need("]")
                ty = ("array", ty)
            init = None
            if self.eat("="):
                init = self.inits_or_expr()
            self.need(";")
            return ("decl", ty, n, init, tuple(q))
        e = self.expr()
        self.need(";")
        return ("expr", e)

    # ---- files
    def file(self):
        out = []
        while self.pk()[0] != "eof":
            if self.eat(";"):
                continue
            if self.pk() == ("id", "typedef"):
                self.i += 1
                ty, _ = self.type_()
                n = self.ident()
                self.need(";")
                self.types.add(n)
                out.append(("typedef", ty, n))
                continue
            ty, q = self.type_()
            n = self.ident()
            if self.eat("("):
                ps = []
                if self.pk() == ("id", "void") and self.at(")", 1):
                    self.i += 1
                while not self.eat(")"):
                    t2, _ = self.type_()
                    ps.append((t2, self.ident() if self.pk()[0] == "id" else None))
                    if not self.at(")"):
                        self.need(",")
                if self.eat(";"):
                    out.append(("proto", ty, n, tuple(ps)))
                else:
                    out.append(("fn", ty, n, tuple(ps), self.block()))
                continue
            if self.eat("["):
                if not self.at("]"):
                    self.expr()
                self.need("]")
                ty = ("array", ty)
            init = None
            if self.eat("="):
                init = self.inits_or_expr()
            self.need(";")
            out.append(("var", ty, n, init, tuple(q)))
        return out


def parse_expr(text, types=()):
    c = C(text, types)
    e = c.expr()
    if c.pk()[0] != "eof":
        raise CError("trailing %s" % " ".join(x[1] for x in c.t[c.i : c.i + 6]))
    return e


def parse_stmts(text, types=()):
    c = C(text, types)
    out = []
    while c.pk()[0] != "eof":
        s = c.stmt()
        if s is not None:
            out.append(s)
    return out


def parse_file(text, types=()):
    c = C(text, types)
    return c.file(), c


def norm(e):
    """parentheses and one-expression statement expressions away"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "par":
        return norm(e[1])
    if e and e[0] == "stx" and len(e[1]) == 1 and e[1][0][0] == "expr":
        return norm(e[1][0][1])
    if e and e[0] == "un" and e[1] == "+":
        return norm(e[2])
    return tuple(norm(x) for x in e)
