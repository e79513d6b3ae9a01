"""Meaning of scalar functions and of their lane-wise methods.

Both are denoted in the same terms, with local bindings substituted. A lane-wise
operation denotes what it does to each lane; an operation that the SIMD types do
not have (an operator on lanes that needs a scalar, a bare literal) has no meaning."""
import simd, rast
from simd import *
from load import *
from cgen import Undecided

RFILE = simd.FILE
CMP = {"lanes_eq": "==", "lanes_ne": "!=", "lanes_lt": "<", "lanes_le": "<=", "lanes_gt": ">", "lanes_ge": ">=",
       "simd_eq": "==", "simd_ne": "!=", "simd_lt": "<", "simd_le": "<=", "simd_gt": ">", "simd_ge": ">="}
MIRROR = {">": "<", ">=": "<="}
WRAP = {"wrapping_add": "+", "wrapping_sub": "-", "wrapping_mul": "*"}
PRIM = ("f32", "f64", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")
FCONST = {"NAN", "INFINITY", "NEG_INFINITY", "MIN_POSITIVE", "EPSILON", "MAX", "MIN"}


class NoLane(Exception):
    """the converted code applies to lanes what lanes do not have"""


def load(r):
    sg = SGen(prog())
    r.anchor("conversion of a file to SIMD methods", sg.impl is not None, "(to_simd and its visitor)")
    return sg if sg.impl is not None else None


def num(s):
    from fractions import Fraction
    try:
        if s.startswith("0x"):
            return Fraction(int(s, 16))
        return Fraction(s.rstrip(".") if s.endswith(".") else s)
    except ValueError:
        return s


class Den:
    def __init__(self, bits, lanes):
        self.bits = bits
        self.lanes = lanes
        self.memo = {}
        b = str(bits)
        self.cls = {"fty": "F", "uty": "U", "ity": "I", "f" + b: "F", "u" + b: "U", "i" + b: "I"}
        if lanes:
            self.cls.update({"Self": "F", "Self::UintType": "U", "Self::IntType": "I"})

    def ty(self, t):
        if t.v == "Tuple" and isinstance(t.p[0], S):
            return ("tuple",) + tuple(self.ty(x) for x in t.p[0].f["elems"])
        s = typ(t).replace(" ", "")
        return self.cls.get(s, s)

    def sig_ty(self, t):
        """class of a declared type: lanes are only Self, Self::UintType, Self::IntType"""
        if t.v == "Tuple" and isinstance(t.p[0], S):
            return ("tuple",) + tuple(self.sig_ty(x) for x in t.p[0].f["elems"])
        s = typ(t).replace(" ", "")
        m = {"Self": "F", "Self::UintType": "U", "Self::IntType": "I"} if self.lanes else {"fty": "F", "uty": "U", "ity": "I"}
        return m.get(s, s)

    def lit(self, l):
        if l.v == "Bool":
            return ("bool", l.p[0].f["value"])
        f = l.p[0].f
        s = f["suffix"]
        c = self.cls.get(s, s) if s else ("F" if l.v == "Float" else "?")
        return ("lit", num(f["base10_digits"]), c)

    def splat(self, path, arg):
        want = {"Self::splat": "F", "Self::UintType::splat": "U", "Self::IntType::splat": "I", "Simd::splat": "?"}[path]
        # the lanes take the type of the scalar
        if arg.v == "Paren":
            arg = arg.p[0].f["expr"]
        neg = False
        while arg.v == "Unary" and arg.p[0].f["op"].v == "Neg":
            neg = not neg
            arg = arg.p[0].f["expr"]
        if arg.v == "Lit":
            d = self.lit(arg.p[0].f["lit"])
            c = d[2] if d[0] == "lit" else "M"
            if want != "?" and c not in (want, "?"):
                raise NoLane("%s of a literal of another type: %s" % (path, exprt(arg)))
            if d[0] == "lit":
                if want == "F" and arg.p[0].f["lit"].v == "Int" and not arg.p[0].f["lit"].p[0].f["suffix"]:
                    raise NoLane("float lanes from the integer literal %s" % exprt(arg))
                d = ("lit", d[1], want if want != "?" else c)
            return ("un", "-", d) if neg else d
        if arg.v == "Path":
            p = pathx(arg.p[0].f).split("::")
            if len(p) == 2 and p[0] in ("f32", "f64") and p[1] in FCONST:
                if want not in ("F", "?") or self.cls.get(p[0]) != "F":
                    raise NoLane("%s of %s" % (path, "::".join(p)))
                return ("const", "F", p[1])
        raise Undecided("%s of %s" % (path, exprt(arg)))

    def e(self, x, env):
        v = x.v
        f = x.p[0].f
        E_ = lambda y: self.e(y, env)
        if v == "Paren":
            return E_(f["expr"])
        if v == "Lit":
            d = self.lit(f["lit"])
            if self.lanes:
                raise NoLane("the literal %s stands for one number, not for lanes" % exprt(x))
            return d
        if v == "Path":
            p = pathx(f).split("::")
            if len(p) == 1:
                if p[0] in env:
                    return env[p[0]]
                return ("var", p[0])
            if len(p) == 2 and p[0] in ("f32", "f64") and p[1] in FCONST:
                if self.lanes:
                    raise NoLane("%s stands for one number, not for lanes" % "::".join(p))
                return ("const", self.cls.get(p[0], p[0]), p[1])
            return ("path", self.cls.get("::".join(p[:-1]), "::".join(p[:-1])), p[-1])
        if v == "Unary":
            return ("un", {"Neg": "-", "Not": "!", "Deref": "*"}[f["op"].v], E_(f["expr"]))
        if v == "Binary":
            o = OPS[f["op"].v]
            if self.lanes and o in ("&&", "||"):
                raise NoLane("`%s` on lanes" % o)
            if self.lanes and o in ("==", "!=", "<", "<=", ">", ">="):
                raise NoLane("`%s` compares all lanes at once" % o)
            return self.bin(o, E_(f["left"]), E_(f["right"]))
        if v == "Cast":
            c = self.ty(f["ty"])
            if self.lanes and (c in ("F", "U", "I") or c in PRIM):
                raise NoLane("`as %s` on lanes" % typ(f["ty"]))
            return ("cast", c, E_(f["expr"]))
        if v == "Call":
            fn = f["func"]
            args = list(f["args"])
            if fn.v == "Path":
                n = pathx(fn.p[0].f)
                if self.lanes and n in ("Self::splat", "Self::UintType::splat", "Self::IntType::splat", "Simd::splat") and len(args) == 1:
                    return self.splat(n, args[0])
                p = n.split("::")
                if len(p) == 1:
                    if self.lanes and args:
                        raise NoLane("`%s(..)` calls a function that became a method" % n)
                    return ("app", n, tuple(E_(a) for a in args))
                return ("call", self.cls.get("::".join(p[:-1]), "::".join(p[:-1])), p[-1], tuple(E_(a) for a in args))
            return ("calle", E_(fn), tuple(E_(a) for a in args))
        if v == "MethodCall":
            m = str(f["method"])
            a = [E_(f["receiver"])] + [E_(y) for y in f["args"]]
            tf = f["turbofish"]
            if self.lanes:
                if m in CMP and len(a) == 2:
                    return self.bin(CMP[m], *a)
                if m == "select" and len(a) == 3:
                    return ("sel",) + tuple(a)
                if m == "cast" and len(a) == 1:
                    if tf.v != "Some":
                        raise Undecided("cast without a type")
                    t = tf.p[0].replace(" ", "")
                    t = t.strip(":").lstrip("<")
                    t = t[:-1] if t.endswith(">") else t
                    return ("cast", self.cls.get(t, t), a[0])
                if m in WRAP:
                    raise NoLane("lanes have no method `%s`" % m)
            elif m in WRAP and len(a) == 2:
                return self.bin(WRAP[m], *a)
            return ("app", m, tuple(a))
        if v == "If":
            if self.lanes:
                raise NoLane("`if` on lanes")
            if f["else_branch"].v != "Some":
                raise Undecided("conditional without else")
            return ("sel", E_(f["cond"]), self.block(f["then_branch"], env), E_(f["else_branch"].p[0][1]))
        if v == "Block":
            return self.block(f["block"], env)
        if v in ("Tuple", "Array"):
            return (v,) + tuple(E_(y) for y in f["elems"])
        if v == "Assign":
            return ("assign", exprt(f["left"]), E_(f["right"]))
        if v == "AssignOp":
            return ("assign", AOPS[f["op"].v], exprt(f["left"]), E_(f["right"]))
        if self.lanes and v in ("Return", "While", "Loop", "ForLoop", "Match", "Break", "Continue"):
            raise NoLane("control flow (%s) that differs between lanes" % v.lower())
        raise Undecided("meaning of " + v)

    def bin(self, o, l, r):
        if o in MIRROR:
            o, l, r = MIRROR[o], r, l
        o = {"&&": "&", "||": "|"}.get(o, o)
        return ("bin", o, l, r)

    def pat(self, p, val, env):
        if p.v == "Type":
            return self.pat(p.p[0].f["pat"], val, env)
        if p.v == "Ident":
            env[str(p.p[0].f["ident"])] = val
        elif p.v == "Tuple":
            for i, q in enumerate(p.p[0].f["elems"]):
                self.pat(q, val[i + 1] if val[0] == "Tuple" else ("fld", i, val), env)
        elif p.v != "Wild":
            raise Undecided("pattern " + p.v)

    def block(self, b, env):
        env = dict(env)
        out = None
        stmts = b.f["stmts"]
        for i, s in enumerate(stmts):
            if s.v == "Local":
                l = s.p[0].f
                if l["init"].v != "Some":
                    raise Undecided("declaration without a value")
                self.pat(l["pat"], self.e(l["init"].p[0][1], env), env)
            elif s.v == "Expr" and i == len(stmts) - 1:
                out = self.e(s.p[0], env)
            elif s.v in ("Semi", "Expr"):
                x = s.p[0]
                if x.v in ("Assign", "AssignOp") and x.p[0].f["left"].v == "Path":
                    n = pathx(x.p[0].f["left"].p[0].f)
                    val = self.e(x.p[0].f["right"], env)
                    if x.v == "AssignOp":
                        val = self.bin(AOPS[x.p[0].f["op"].v], env.get(n, ("var", n)), val)
                    env[n] = val
                else:
                    self.e(x, env)
            elif s.v == "Item" and s.p[0].v == "Const":
                if self.lanes:
                    raise NoLane("the inner constant %s cannot have the type of the lanes" % s.p[0].p[0].f["ident"])
                env[str(s.p[0].p[0].f["ident"])] = self.e(s.p[0].p[0].f["expr"], env)
            else:
                raise Undecided("statement " + s.v)
        return out if out is not None else ("unit",)


def sh(d, n=260):
    s = sh_(d)
    return s if len(s) < n else s[:n] + "..."


def sh_(d, k=0):
    if not isinstance(d, tuple) or k > 7:
        return str(d) if not isinstance(d, tuple) else ".."
    if d and d[0] in ("var",):
        return str(d[1])
    if d and d[0] == "lit":
        return "%s:%s" % (d[1], d[2])
    if d and d[0] == "bin":
        return "(%s %s %s)" % (sh_(d[2], k + 1), d[1], sh_(d[3], k + 1))
    if d and d[0] == "sel":
        return "(%s ? %s : %s)" % tuple(sh_(x, k + 1) for x in d[1:])
    if d and d[0] == "app":
        return "%s(%s)" % (d[1], ", ".join(sh_(x, k + 1) for x in d[2]))
    return "(" + " ".join(sh_(x, k + 1) for x in d) + ")"


def reparse(toks):
    p = rast.P(tuple(toks))
    try:
        e = p.expr()
        if not p.done():
            raise rast.ParseError("tokens after the expression")
    except rast.ParseError as x:
        raise Broken("the result `%s` is not an expression (%s)" % (display(toks)[:160], x))
    return expr(e)


class Out:
    """a converted file, taken apart"""

    def __init__(self, toks):
        self.methods, self.types, self.others, self.header = [], {}, [], None
        i = 0
        toks = list(toks)
        while i < len(toks):
            if toks[i].op == "id" and toks[i].a[0] == "impl":
                j = i
                while not (toks[j].op == "gr" and toks[j].a[0] == "Brace"):
                    j += 1
                    if j >= len(toks):
                        raise Broken("an impl without a body")
                if self.header is not None:
                    raise Undecided("two implementations")
                self.header = display(toks[i:j]).replace(" ", "")
                self.body(toks[j].a[1].a[0])
                i = j + 1
                continue
            t = toks[i]
            j = i
            while not (toks[j].op == "pu" and toks[j].a[0] == ";" or toks[j].op == "gr" and toks[j].a[0] == "Brace" and not (toks[i].op == "id" and toks[i].a[0] == "use")):
                j += 1
                if j >= len(toks):
                    break
            s = display(toks[i:j + 1])
            # inner attributes and imports
            while s.startswith("#"):
                n = 3 if toks[i + 1].op == "pu" else 2
                i += n
                s = display(toks[i:j + 1])
            if s and not s.startswith("use"):
                self.others.append("".join(s.split()))
            i = j + 1

    def body(self, toks):
        p = rast.P(tuple(toks))
        while not p.done():
            p.attrs()
            try:
                it = p.item()
            except rast.ParseError as x:
                raise Broken("an item of the implementation does not parse: %s" % x)
            if it is None:
                raise Undecided("items of the implementation")
            if it.op == "itype":
                self.types[it.a[0]] = it.a[1].replace(" ", "")
            elif it.op == "ifn":
                self.methods.append(item(it))
            else:
                raise Undecided("item " + it.op)
