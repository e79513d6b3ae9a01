"""A type checker and name resolver for the Rust subset the generator emits (parsed by rast)."""
from rast import *
import re

INTS = {"i8": (-(1 << 7), (1 << 7) - 1), "i16": (-(1 << 15), (1 << 15) - 1), "i32": (-(1 << 31), (1 << 31) - 1), "i64": (-(1 << 63), (1 << 63) - 1), "i128": (-(1 << 127), (1 << 127) - 1),
        "isize": (-(1 << 63), (1 << 63) - 1), "u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "u128": (0, (1 << 128) - 1), "usize": (0, (1 << 64) - 1)}
FLOATS = {"f32", "f64"}
F1 = "abs sqrt recip ln exp exp2 exp_m1 ln_1p log2 log10 sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh floor ceil round trunc fract signum cbrt to_degrees to_radians".split()
F2 = "copysign min max atan2 powf hypot log rem_euclid div_euclid abs_sub".split()
FB = "is_nan is_finite is_infinite is_normal is_sign_positive is_sign_negative".split()
I1 = "abs swap_bytes reverse_bits wrapping_neg signum wrapping_abs".split()
I2 = "wrapping_mul wrapping_add wrapping_sub min max rem_euclid saturating_add saturating_sub saturating_mul wrapping_div div_euclid".split()
FCONST = {"NAN", "INFINITY", "NEG_INFINITY", "MIN_POSITIVE", "MAX", "MIN", "EPSILON"}
MODCONST = "PI TAU E LOG2_E LOG10_E LN_2 LN_10 LOG2_10 LOG10_2 SQRT_2 FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 FRAC_1_PI FRAC_2_PI FRAC_2_SQRT_PI FRAC_1_SQRT_2".split()


class Var:
    n = 0

    def __init__(self, kind="any", lits=()):
        self.kind = kind  # any | float | int
        self.to = None
        self.lits = list(lits)
        Var.n += 1

    def __repr__(self):
        return {"any": "_", "float": "{float}", "int": "{integer}"}[self.kind]


ANY = "?"  # opaque type: no verdicts about it


def tshow(t):
    t = find(t)
    if isinstance(t, Var):
        return repr(t)
    if isinstance(t, tuple):
        if t[0] == "tup":
            return "(" + ", ".join(map(tshow, t[1])) + ")"
        if t[0] == "ref":
            return "&" + tshow(t[1])
        if t[0] in ("arr", "slice"):
            return "[" + tshow(t[1]) + "]"
        if t[0] == "fn":
            return "fn(%s) -> %s" % (", ".join(map(tshow, t[1])), tshow(t[2]))
    return str(t)


def find(t):
    while isinstance(t, Var) and t.to is not None:
        t = t.to
    return t


class Checker:
    def __init__(self, holes=None):
        self.errors = []
        self.unknown = []
        self.unres = set()
        self.alias = {}
        self.consts = {}
        self.fns = {}
        self.tparams = {}
        self.scope = [{}]
        self.ret = None
        self.where = ""
        self.pending = []  # (var, literal value, negated)
        self.holes = holes or (lambda h: None)

    # ---- reporting
    def err(self, m):
        self.errors.append((self.where, m))

    def unk(self, m):
        self.unknown.append((self.where, m))

    # ---- types
    def ty(self, s):
        if not isinstance(s, str):
            return ANY
        s = s.strip()
        if s in INTS or s in FLOATS or s in ("bool", "char", "str", "!", "String"):
            return s
        if s == "()":
            return ("tup", ())
        if s == "_":
            return Var()
        if s.startswith("&"):
            s = s[1:].strip()
            s = s[4:] if s.startswith("mut ") else s
            return ("ref", self.ty(s))
        if s.startswith("(") and s.endswith(")"):
            return ("tup", tuple(self.ty(x) for x in split_top(s[1:-1])))
        if s.startswith("[") and s.endswith("]"):
            i = s[1:-1]
            parts = split_top(i, ";")
            return ("arr", self.ty(parts[0]))
        if s in self.tparams:
            return self.tparams[s]
        if s in self.alias:
            a = self.alias[s]
            return self.ty(a) if a != s else ANY
        if re.match(r"^[A-Za-z_]\w*$", s):
            self.unres.add(s)
            return ANY
        return ANY

    def unify(self, a, b, what):
        a, b = find(a), find(b)
        if a is b or a == b or a == ANY or b == ANY:
            return True
        if a == "!" or b == "!":
            return True
        if isinstance(b, Var) and not isinstance(a, Var):
            a, b = b, a
        if isinstance(a, Var):
            if isinstance(b, Var):
                if a.kind == "any":
                    a.to = b
                elif b.kind == "any":
                    b.to = a
                elif a.kind == b.kind:
                    a.to = b
                    b.lits += a.lits
                else:
                    self.err("mismatched types in %s: %s and %s" % (what, tshow(a), tshow(b)))
                    return False
                return True
            ok = a.kind == "any" or (a.kind == "float" and b in FLOATS) or (a.kind == "int" and b in INTS)
            if not ok:
                self.err("mismatched types in %s: expected %s, found %s" % (what, tshow(b), tshow(a)))
                return False
            for v in a.lits:
                self.litrange(v, b)
            a.to = b
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
                return all([self.unify(x, y, what) for x, y in zip(a[1], b[1])])
            if a[0] == b[0] == "ref" or (a[0] in ("arr", "slice") and b[0] in ("arr", "slice")):
                return self.unify(a[1], b[1], what)
            if a[0] == b[0] == "fn":
                if len(a[1]) != len(b[1]):
                    self.err("closure with %d parameters where %d are needed in %s" % (len(a[1]), len(b[1]), what))
                    return False
                return all([self.unify(x, y, what) for x, y in zip(a[1], b[1])]) and self.unify(a[2], b[2], what)
        self.err("mismatched types in %s: %s and %s" % (what, tshow(a), tshow(b)))
        return False

    def litrange(self, v, t):
        if t in INTS and v is not None:
            lo, hi = INTS[t]
            if not lo <= v <= hi and not (v == -lo and lo < 0):
                self.err("literal %d is out of range for %s" % (v, t))

    # ---- items
    def declare(self, it):
        if it.op == "itype":
            self.alias[it.a[0]] = it.a[1]
        elif it.op in ("iconst", "istatic"):
            self.consts[it.a[0]] = it.a[1]
        elif it.op == "ifn":
            self.fns[it.a[0]] = it

    def fnsig(self, it):
        save = self.tparams
        self.tparams = dict(save)
        if it.a[4]:
            self.tparams.update(self.generics(it.a[4]))
        ps = [self.ty(p.a[1]) for p in it.a[1]]
        rt = ("tup", ()) if it.a[2] is NONET else self.ty(it.a[2])
        tp = self.tparams
        self.tparams = save
        return ps, rt, tp

    def generics(self, g):
        out = {}
        s = g.replace(" ", "")
        for m in re.finditer(r"(\w+):Fn(?:Mut|Once)?(.*?)(?:,(?=\w+:)|>$)", s):
            t = re.match(r"[`(]?\(?([\w,]*)\)?`?->(\w+)", m.group(2).replace("gr(Parenthesis,", "").strip("()`"))
            inner = re.findall(r"\w+", m.group(2))
            if len(inner) >= 2:
                out[m.group(1)] = ("fn", tuple(self.ty(x) for x in inner[:-1]), self.ty(inner[-1]))
        for m in re.finditer(r"(?:<|,)(\w+)(?=[,>:])", s):
            out.setdefault(m.group(1), ANY)
        return out

    def item(self, it):
        if it.op == "itype":
            self.where = "type " + str(it.a[0])
            self.ty(it.a[1])
        elif it.op in ("iconst", "istatic"):
            self.where = "const " + str(it.a[0])
            t = self.ty(it.a[1])
            self.expect(it.a[2], t, "the value of " + str(it.a[0]))
        elif it.op == "ifn":
            self.where = "fn " + str(it.a[0])
            ps, rt, tp = self.fnsig(it)
            save = self.tparams, self.scope, self.ret
            self.tparams, self.ret = tp, rt
            self.scope = [self.scope[0], {}]
            for p, t in zip(it.a[1], ps):
                self.bind(p.a[0], t)
            if it.a[3] is not NONET:
                t = self.block(it.a[3], rt)
                if not (t == "!" or self.diverges(it.a[3])):
                    self.unify(t, rt, "the result of %s (declared %s)" % (it.a[0], tshow(rt)))
            self.tparams, self.scope, self.ret = save

    def diverges(self, b):
        if b.a[1] is NONET and b.a[0]:
            s = b.a[0][-1]
            if s.op in ("xsemi", "xexpr") and s.a[0].op in ("xret", "xbreak", "xcont"):
                return True
            if s.op in ("xexpr", "xsemi") and s.a[0].op in ("xloop",):
                return True
        return False

    def module(self, items):
        for it in items:
            self.declare(it)
        for it in items:
            self.item(it)

    # ---- patterns
    def bind(self, p, t):
        if p.op == "pid":
            n = p.a[0]
            if isinstance(n, str):
                self.scope[-1][n] = t
            return
        if p.op == "pwild":
            return
        if p.op == "ptup":
            t = find(t)
            if isinstance(t, tuple) and t[0] == "tup":
                if len(t[1]) != len(p.a[0]):
                    self.err("pattern of %d elements for %s" % (len(p.a[0]), tshow(t)))
                    return
                for q, u in zip(p.a[0], t[1]):
                    self.bind(q, u)
            else:
                vs = [Var() for _ in p.a[0]]
                self.unify(("tup", tuple(vs)), t, "a tuple pattern")
                for q, u in zip(p.a[0], vs):
                    self.bind(q, u)
            return
        if p.op == "pref":
            t = find(t)
            if isinstance(t, tuple) and t[0] == "ref":
                self.bind(p.a[0], t[1])
            else:
                if not isinstance(t, Var) and t != ANY:
                    self.err("reference pattern for " + tshow(t))
                self.bind(p.a[0], ANY if t == ANY else Var())
            return
        if p.op == "plit":
            return
        self.unk("pattern " + show(p))

    def lookup(self, n):
        for s in reversed(self.scope):
            if n in s:
                return s[n]
        return None

    # ---- expressions
    def expect(self, e, t, what):
        if e.op == "xclosure":
            t = find(t)
            if isinstance(t, tuple) and t[0] == "fn":
                return self.unify(self.closure(e, t), t, what)
        u = self.expr(e, t)
        u, w = find(u), find(t)
        # deref coercion of arrays to slices and &T to T is not applied
        return self.unify(u, w, what)

    def closure(self, e, t=None):
        self.scope.append({})
        ps = []
        for i, p in enumerate(e.a[0]):
            pt = self.ty(p.a[1]) if p.a[1] is not NONET else (t[1][i] if t and i < len(t[1]) else Var())
            self.bind(p.a[0], pt)
            ps.append(pt)
        save = self.ret
        self.ret = Var()
        r = self.expr(e.a[1])
        self.ret = save
        self.scope.pop()
        return ("fn", tuple(ps), r)

    def block(self, b, want=None):
        self.scope.append({})
        for s in b.a[0]:
            if s.op == "xitem":
                self.declare(s.a[0])
        r = ("tup", ())
        for s in b.a[0]:
            self.stmt(s)
        if b.a[1] is not NONET:
            r = self.expr(b.a[1], want)
        elif self.diverges(b):
            r = "!"
        self.scope.pop()
        return r

    def stmt(self, s):
        if s.op == "xitem":
            w = self.where
            sc = self.scope
            self.item(s.a[0])
            self.scope = sc
            self.where = w
            return
        if s.op == "xlet":
            t = self.ty(s.a[1]) if s.a[1] is not NONET else Var()
            if s.a[2] is not NONET:
                self.expect(s.a[2], t, "let " + show(s.a[0].a[0] if s.a[0].op == "pid" and isinstance(s.a[0].a[0], T) else T("name", s.a[0].a[0] if s.a[0].a else "_"))[5:-1])
            self.bind(s.a[0], t)
            return
        self.expr(s.a[0])

    def num(self, t):
        t = find(t)
        return t == ANY or t in FLOATS or t in INTS or (isinstance(t, Var))

    def expr(self, e, want=None):
        m = getattr(self, "e_" + e.op, None)
        if m is None:
            self.unk("expression " + e.op)
            return ANY
        return m(e, want)

    def e_xlit(self, e, want):
        s = e.a[0]
        if s in ("true", "false"):
            return "bool"
        if s.startswith('"'):
            return ("ref", "str")
        if s.startswith("'"):
            return "char"
        m = re.match(r"^(0[xX][0-9a-fA-F_]+?|[\d_.]+(?:[eE][+-]?\d+)?)((?:[iu](?:8|16|32|64|128|size)|f32|f64)?)$", s) if not re.match(r"^0[xX]", s) else re.match(r"^(0[xX][0-9a-fA-F_]+?)((?:_?[iu](?:8|16|32|64|128|size))?)$", s)
        if not m:
            self.unk("literal " + s)
            return ANY
        body, suf = m.group(1).replace("_", ""), m.group(2).lstrip("_")
        isint = body[:2].lower() == "0x" or re.match(r"^\d+$", body)
        v = int(body, 0) if isint and not (len(body) > 1 and body[0] == "0" and body[1].isdigit()) else (int(body) if isint else None)
        if suf:
            if suf in FLOATS and body[:2].lower() != "0x":
                return suf
            if suf in INTS and isint:
                self.litrange(v, suf)
                return suf
            self.err("invalid literal " + s)
            return ANY
        return Var("int", [v]) if isint else Var("float")

    def e_xhole(self, e, want):
        t = self.holes(e.a[0])
        if t is None:
            self.unk("interpolated " + show(e.a[0])[:80])
            return ANY
        if t == "{float}":
            return Var("float")
        if t == "{integer}":
            return Var("int", [None])
        return t

    def e_xparen(self, e, want):
        return self.expr(e.a[0], want)

    def e_xpath(self, e, want):
        n = e.a[0]
        if "::" not in n:
            t = self.lookup(n)
            if t is not None:
                return t
            if n in self.consts:
                return self.ty(self.consts[n])
            if n in self.fns:
                ps, rt, tp = self.fnsig(self.fns[n])
                return ("fn", tuple(ps), rt)
            if n in ("Some", "None", "Ok", "Err"):
                return ANY
            self.unres.add(n)
            return ANY
        h, l = n.rsplit("::", 1)
        if h in self.alias or h in FLOATS or h in INTS:
            t = self.ty(h)
            if l in FCONST and t in FLOATS:
                return t
            if l in ("MAX", "MIN") and t in INTS:
                return t
            if l == "BITS" and t in INTS:
                return "u32"
            if t in FLOATS and l == "from_bits":
                return ("fn", ("u32" if t == "f32" else "u64",), t)
            mt = self.method_type(t, l)
            if mt:
                return ("fn", (t,) + tuple(mt[0]), mt[1])
            if t == ANY:
                return ANY
            self.unk("path " + n)
            return ANY
        m = re.match(r"^(?:::)?(?:std|core)::(f32|f64)(::consts)?$", h)
        if m:
            if (m.group(2) and l in MODCONST) or (not m.group(2) and l in FCONST):
                return m.group(1)
            self.err("no constant " + n)
            return ANY
        if re.match(r"^[A-Za-z_]\w*$", h) and h not in ("std", "core", "Self", "self", "crate", "String", "Vec", "Option"):
            self.unres.add(h)
        return ANY

    def method_type(self, t, m):
        """(argument types, result) of a method of a primitive type; None when unknown"""
        if t in FLOATS:
            u = "u32" if t == "f32" else "u64"
            if m in F1:
                return (), t
            if m in F2:
                return (t,), t
            if m in FB:
                return (), "bool"
            if m == "to_bits":
                return (), u
            if m == "mul_add" or m == "clamp":
                return (t, t), t
            if m == "powi":
                return ("i32",), t
            if m == "sin_cos":
                return (), ("tup", (t, t))
            if m == "total_cmp":
                return None
        if t in INTS:
            if m in I1 and not (m in ("abs", "signum", "wrapping_abs") and t.startswith("u")):
                return (), t
            if m in I2:
                return (t,), t
            if m in ("count_ones", "leading_zeros", "trailing_zeros", "count_zeros"):
                return (), "u32"
            if m in ("wrapping_shl", "wrapping_shr", "rotate_left", "rotate_right"):
                return ("u32",), t
            if m == "pow" or m == "wrapping_pow":
                return ("u32",), t
        return None

    def e_xmcall(self, e, want):
        r = find(self.expr(e.a[0]))
        n = e.a[1]
        d = r
        while isinstance(d, tuple) and d[0] == "ref":
            d = find(d[1])
        args = e.a[2] if isinstance(e.a[2], tuple) else ()
        if isinstance(d, Var):
            if d.kind in ("float", "int"):
                self.err("method %s on the ambiguous numeric type %s" % (n, tshow(d)))
                t = ANY
            else:
                t = ANY
            for a in args:
                self.expr(a)
            return t
        if isinstance(n, str):
            mt = self.method_type(d, n) if isinstance(d, str) else None
            if mt:
                if len(args) != len(mt[0]):
                    self.err("%s takes %d arguments, %d given" % (n, len(mt[0]), len(args)))
                for a, t in zip(args, mt[0]):
                    self.expect(a, t, "an argument of " + n)
                return mt[1]
            if isinstance(d, str) and d in FLOATS | set(INTS) | {"bool"}:
                if (d in INTS and n in F1 + F2 + ["mul_add", "to_bits"] + FB and n not in I1 + I2) or (d in FLOATS and n in I2 and n not in F2) or d == "bool" and n in F1 + F2:
                    self.err("no method %s on %s" % (n, d))
                else:
                    self.unk("method %s of %s" % (n, d))
            elif isinstance(d, tuple) and d[0] in ("arr", "slice") and n == "len":
                return "usize"
            elif isinstance(d, tuple) and d[0] in ("arr", "slice") and n == "iter":
                for a in args:
                    self.expr(a)
                return ("iter", ("ref", d[1]))
        for a in args:
            self.expr(a)
        return ANY

    def e_xcall(self, e, want):
        f = e.a[0]
        t = find(self.expr(f))
        if isinstance(t, tuple) and t[0] == "fn":
            if len(t[1]) != len(e.a[1]):
                self.err("%s takes %d arguments, %d given" % (etext(f), len(t[1]), len(e.a[1])))
            for a, p in zip(e.a[1], t[1]):
                self.expect(a, p, "an argument of " + etext(f))
            return t[2]
        if t != ANY and not isinstance(t, Var):
            self.err("%s of type %s is called" % (etext(f), tshow(t)))
        for a in e.a[1]:
            self.expr(a)
        return ANY

    def e_xun(self, e, want):
        o = e.a[0]
        t = find(self.expr(e.a[1]))
        if o == "-":
            if t == ANY or t in FLOATS or (t in INTS and t[0] == "i"):
                return t
            if isinstance(t, Var):
                t2 = Var(t.kind, [(-v if v is not None else None) for v in t.lits])
                if strip_paren(e.a[1]).op == "xlit":
                    # a negated literal: range check uses the negative value
                    return t2
                return t
            self.err("cannot negate " + tshow(t))
            return ANY
        if o == "!":
            if t == ANY or t == "bool" or t in INTS or (isinstance(t, Var) and t.kind != "float"):
                return t
            self.err("cannot apply ! to " + tshow(t))
            return ANY
        if o == "*":
            if isinstance(t, tuple) and t[0] == "ref":
                return t[1]
            if t == ANY or isinstance(t, Var):
                return ANY
            self.err("cannot dereference " + tshow(t))
            return ANY
        return ANY

    def e_xbin(self, e, want):
        o = e.a[0]
        l, r = self.expr(e.a[1]), self.expr(e.a[2])
        l, r = find(l), find(r)

        def strip(t):
            return find(t[1]) if isinstance(t, tuple) and t[0] == "ref" else t

        if o in ("+", "-", "*", "/", "%"):
            l, r = strip(l), strip(r)
            for t in (l, r):
                if not self.num(t):
                    self.err("operand of %s has type %s" % (o, tshow(t)))
                    return ANY
            if l == ANY or r == ANY:
                return l if l != ANY and not isinstance(l, Var) else r if r != ANY and not isinstance(r, Var) else ANY
            self.unify(l, r, "the operands of %s in %s" % (o, etext(e)[:80]))
            return find(l)
        if o in ("<<", ">>"):
            for t in (l, r):
                if not (t == ANY or t in INTS or (isinstance(t, Var) and t.kind != "float")):
                    self.err("operand of %s has type %s" % (o, tshow(t)))
            c = strip_paren(e.a[2])
            if c.op == "xlit" and l in INTS:
                m = re.match(r"^(\d+)", c.a[0])
                w = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(l[1:], 64)
                if m and int(m.group(1)) >= w:
                    self.err("shift of %s by %s" % (l, m.group(1)))
            return l
        if o in ("&", "|", "^"):
            for t in (l, r):
                if not (t == ANY or t == "bool" or t in INTS or (isinstance(t, Var) and t.kind != "float")):
                    self.err("operand of %s has type %s" % (o, tshow(t)))
                    return ANY
            self.unify(l, r, "the operands of %s in %s" % (o, etext(e)[:80]))
            return find(l)
        if o in ("&&", "||"):
            for t in (l, r):
                self.unify(t, "bool", "an operand of " + o)
            return "bool"
        if o in ("==", "!=", "<", "<=", ">", ">="):
            self.unify(l, r, "the operands of %s in %s" % (o, etext(e)[:80]))
            return "bool"
        return ANY

    def e_xcast(self, e, want):
        t = find(self.expr(e.a[0]))
        d = find(self.ty(e.a[1]))
        if t == ANY or d == ANY:
            return d
        if isinstance(t, Var):
            if t.kind == "float" and d in FLOATS or t.kind == "int" and d in INTS:
                self.unify(t, d, "a cast")
            return d
        isn = lambda x: x in FLOATS or x in INTS
        if d in INTS and (isn(t) or t in ("bool", "char")) or d in FLOATS and isn(t):
            return d
        if t == d:
            return d
        self.err("%s cannot be cast to %s" % (tshow(t), tshow(d)))
        return d

    def e_xif(self, e, want):
        c = e.a[0]
        self.scope.append({})
        if c.op != "xletcond":
            self.expect(c, "bool", "a condition")
        else:
            self.expr(c.a[1])
            self.unk("if let")
        a = self.block(e.a[1], want)
        self.scope.pop()
        if e.a[2] is NONET:
            self.unify(a, ("tup", ()), "an if without else")
            return ("tup", ())
        b = self.block(e.a[2], want) if e.a[2].op == "xblock" else self.expr(e.a[2], want)
        if find(a) == "!":
            return b
        if find(b) == "!":
            return a
        self.unify(a, b, "the branches of if")
        return find(a) if find(a) != ANY else b

    def e_xblock(self, e, want):
        return self.block(e, want)

    def e_xtup(self, e, want):
        return ("tup", tuple(self.expr(x) for x in e.a[0]))

    def e_xarr(self, e, want):
        t = Var()
        for x in e.a[0]:
            if x.op in ("xhole",) and x.a[0].op == "tsall" and isT(x.a[0].a[2], "ts"):
                try:
                    for y in exprs(x.a[0].a[2].a[0]):
                        self.unify(self.expr(y), t, "the elements of an array")
                    continue
                except ParseError:
                    pass
            if x.op in ("xhole",) and x.a[0].op in ("tsall", "catall", "each", "spread"):
                self.unk("repeated elements")
                continue
            self.unify(self.expr(x), t, "the elements of an array")
        return ("arr", t)

    def e_xrep(self, e, want):
        t = self.expr(e.a[0])
        self.expect(e.a[1], "usize", "an array length")
        return ("arr", t)

    def e_xindex(self, e, want):
        b = find(self.expr(e.a[0]))
        while isinstance(b, tuple) and b[0] == "ref":
            b = find(b[1])
        i = find(self.expr(e.a[1]))
        if isinstance(b, tuple) and b[0] in ("arr", "slice"):
            if isinstance(i, tuple) and i[0] == "range":
                return b
            self.unify(i, "usize", "an index")
            return b[1]
        return ANY

    def e_xfield(self, e, want):
        b = find(self.expr(e.a[0]))
        if isinstance(b, tuple) and b[0] == "tup" and str(e.a[1]).isdigit():
            k = int(e.a[1])
            if k < len(b[1]):
                return b[1][k]
            self.err("no field %d of %s" % (k, tshow(b)))
        return ANY

    def e_xref(self, e, want):
        return ("ref", self.expr(e.a[1]))

    def e_xrange(self, e, want):
        t = Var()
        for x in e.a[:2]:
            if x is not NONET:
                self.unify(self.expr(x), t, "a range")
        return ("range", t)

    def e_xfor(self, e, want):
        it = find(self.expr(e.a[1]))
        el = ANY
        if isinstance(it, tuple):
            if it[0] in ("range", "iter"):
                el = it[1]
            elif it[0] in ("arr",):
                el = it[1]
            elif it[0] == "ref" and isinstance(find(it[1]), tuple) and find(it[1])[0] in ("arr", "slice"):
                el = ("ref", find(it[1])[1])
        self.scope.append({})
        self.bind(e.a[0], el)
        self.block(e.a[2])
        self.scope.pop()
        return ("tup", ())

    def e_xwhile(self, e, want):
        self.expect(e.a[0], "bool", "a condition")
        self.block(e.a[1])
        return ("tup", ())

    def e_xloop(self, e, want):
        self.block(e.a[0])
        return ANY

    def e_xassign(self, e, want):
        t = self.expr(e.a[0])
        self.expect(e.a[1], t, "an assignment")
        return ("tup", ())

    def e_xopassign(self, e, want):
        t = self.expr(e.a[1])
        if e.a[0] in ("<<", ">>"):
            self.expr(e.a[2])
        else:
            self.expect(e.a[2], t, "an assignment")
        return ("tup", ())

    def e_xret(self, e, want):
        if e.a[0] is not NONET:
            self.expect(e.a[0], self.ret if self.ret is not None else ANY, "return")
        return "!"

    def e_xbreak(self, e, want):
        return "!"

    def e_xcont(self, e, want):
        return "!"

    def e_xmac(self, e, want):
        n = e.a[0].split("::")[-1]
        if n in ("println", "eprintln", "print", "eprint", "format", "assert", "assert_eq", "assert_ne", "debug_assert", "writeln", "write", "panic", "assert_eq", "vec"):
            try:
                xs = exprs(e.a[1])
            except ParseError as x:
                self.unk("macro %s: %s" % (n, x))
                return ANY
            ts = [self.expr(x) for x in xs]
            if n in ("assert", "debug_assert") and ts:
                self.unify(ts[0], "bool", "assert!")
            if n in ("assert_eq", "assert_ne") and len(ts) >= 2:
                self.unify(ts[0], ts[1], n)
            if n == "panic":
                return "!"
            return ANY if n in ("format", "vec", "writeln", "write") else ("tup", ())
        self.unk("macro " + n)
        return ANY

    def e_xclosure(self, e, want):
        return self.closure(e)

    def e_xmatch(self, e, want):
        self.expr(e.a[0])
        t = Var()
        for a in e.a[1]:
            self.scope.append({})
            u = self.expr(a.a[2], want)
            if find(u) != "!":
                self.unify(u, t, "match arms")
            self.scope.pop()
        return t

    def e_xtry(self, e, want):
        self.expr(e.a[0])
        return ANY

    def e_xstruct(self, e, want):
        return ANY


def split_top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out
