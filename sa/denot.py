"""Real-number denotation of generated function bodies (parsed templates) as guarded normal forms."""
from tmpl import *
import cas
from cas import Rat, R, A, PI, Signs, ln, exp, exp2, sqrt, trig, odd
from fractions import Fraction as F
import re


class Sp:
    """a special value: nan, inf, -inf"""

    def __init__(self, k):
        self.k = k

    def show(self):
        return self.k


class Tup:
    def __init__(self, xs):
        self.xs = xs

    def show(self):
        return "(%s)" % ", ".join(x.show() for x in self.xs)


class Bits:
    """an integer that is the bit pattern of / a number used as a bit pattern"""

    def __init__(self, k, u):
        self.k, self.u = k, u

    def show(self):
        return "bits.%s(%s)" % (self.k, self.u.show())


class No(Exception):
    pass


NPOS = frozenset({-1, 0})
NNEG = frozenset({0, 1})
NEG, POS, ZERO, NZ = frozenset({-1}), frozenset({1}), frozenset({0}), frozenset({-1, 1})


def num(s):
    s = s.replace("_", "")
    m = re.match(r"^0[xX]([0-9a-fA-F]+?)(?:[iu](?:8|16|32|64|128|size))?$", s)
    if m:
        return F(int(m.group(1), 16))
    m = re.match(r"^([\d.]+(?:[eE][+-]?\d+)?)(?:[iu](?:8|16|32|64|128|size)|f32|f64)?$", s)
    if not m:
        raise No("literal " + s)
    return F(m.group(1)) if m.group(1)[-1] != "." else F(m.group(1)[:-1])


def consts(bits):
    man, bias = (23, 127) if bits == 32 else (52, 1023)
    l2 = ln(R(2))
    t8 = sqrt(R(2)) - 1
    return {
        "PI": PI, "PI_BY_2": PI / 2, "PI_BY_8": PI / 8, "TAN_PI_BY_8": t8, "LOG2_E": R(1) / l2, "RECIP_LOG2_E": l2, "RECIP_LOG2_10": l2 / ln(R(10)),
        "RECIP_PI": R(1) / PI, "RECIP_2PI": R(1) / (PI * 2), "SQRT_RECIP_2PI": sqrt(R(1) / (PI * 2)), "ONE_THIRD": R(F(1, 3)), "TWO_THIRDS": R(F(2, 3)),
        "EXP2_SCALE": R(2 ** man), "EXP2_ONE": R(bias * 2 ** man), "EXP2_MIN": R(-bias), "EXP2_MAX": R(bias), "LOG2_SHIFT": R(man), "LOG2_OFFSET": R(bias),
        "ONE_BITS": R(bias * 2 ** man), "ONE_MASK": R(2 ** man - 1), "MIN_POSITIVE": A("MIN_POSITIVE"), "NAN": Sp("nan"), "INFINITY": Sp("inf"),
    }


cas.POSITIVE  # noqa


def integral(u):
    """is the value certainly an integer"""
    if not isinstance(u, Rat) or not u.laurent():
        return False
    return all(c.denominator == 1 and all(k in cas.INTEGER and e > 0 and F(e).denominator == 1 for k, e in m) for m, c in u.n.items())


class Eval:
    def __init__(self, bits, items=None, max_leaves=400):
        self.bits = bits
        self.c = consts(bits)
        self.items = items or {}
        self.inline = set()
        self.domains = []
        self.depth = 0
        self.rets = []
        cas.POSITIVE.add(cas.atom_id("MIN_POSITIVE"))

    # ---- plumbing: every method returns [(Signs, value)]
    def fn(self, f, S, args):
        """value of a fn item on argument values"""
        env = {}
        ps = f.a[1]
        if len(ps) != len(args):
            raise No("arity of " + str(f.a[0]))
        for p, v in zip(ps, args):
            if p.a[0].op != "pid":
                raise No("parameter pattern")
            env[p.a[0].a[0]] = v
        if f.a[3].op != "xblock":
            raise No("no body")
        self.rets.append([])
        out = self.block(f.a[3], env, S)
        return out + self.rets.pop()

    def block(self, b, env, S):
        return [(s, v) for s, v, _ in self.run(b, env, S)]

    def run(self, b, env0, S):
        """[(Signs, value, environment outside the block)]"""
        env = dict(env0)
        own = set()
        for s in b.a[0]:
            if s.op == "xitem":
                i = s.a[0]
                own.add(i.a[0])
                if i.op == "iconst":
                    env[i.a[0]] = ("lazy", i.a[2])
                elif i.op == "ifn":
                    env[i.a[0]] = ("fn", i)
        sts = [(S, env, frozenset(own))]
        for s in b.a[0]:
            if s.op != "xitem":
                sts = [y for x in sts for y in self.stmt(s, *x)]
                if len(sts) > 400:
                    raise No("too many cases")
        out = []
        for S1, e1, ow in sts:
            vs = [(S1, Tup([]))] if b.a[1] is NONET else self.expr(b.a[1], e1, S1)
            eo = {k: (e1[k] if k not in ow else v) for k, v in env0.items()}
            out += [(s, v, eo) for s, v in vs]
        return out

    def stmt(self, s, S, env, own):
        if s.op == "xlet":
            if s.a[2] is NONET:
                return [(S, env, own)]
            if self.isbool(s.a[2]) and s.a[0].op == "pid":
                e2 = dict(env)
                e2[s.a[0].a[0]] = ("cond", s.a[2], env)
                return [(S, e2, own | {s.a[0].a[0]})]
            out = []
            for S2, v in self.expr(s.a[2], env, S):
                e2 = dict(env)
                o2 = set(own)
                self.bind(s.a[0], v, e2, o2)
                out.append((S2, e2, frozenset(o2)))
            return out
        if s.op not in ("xsemi", "xexpr"):
            raise No("statement " + s.op)
        x = s.a[0]
        if x.op == "xmac":
            return [(S, env, own)]
        if x.op == "xif":
            out = []
            for s2, b in self.cond(x.a[0], env, S):
                br = x.a[1] if b else x.a[2]
                if br is NONET:
                    out.append((s2, env, own))
                elif br.op == "xblock":
                    out += [(s3, e3, own) for s3, _, e3 in self.run(br, env, s2)]
                else:
                    out += self.stmt(T("xsemi", br), s2, env, own)
            return out
        if x.op == "xblock":
            return [(s3, e3, own) for s3, _, e3 in self.run(x, env, S)]
        if x.op in ("xassign", "xopassign"):
            l, rv = (x.a[0], x.a[1]) if x.op == "xassign" else (x.a[1], x.a[2])
            if l.op != "xpath" or l.a[0] not in env:
                raise No("assignment")
            out = []
            for s2, v in self.expr(rv, env, S):
                e2 = dict(env)
                e2[l.a[0]] = v if x.op == "xassign" else self.bin(x.a[0], env[l.a[0]], v)
                out.append((s2, e2, own))
            return out
        if x.op in ("xfor", "xwhile", "xloop"):
            raise No("statement " + x.op)
        return [(s2, env, own) for s2, _ in self.expr(x, env, S)]

    def e_xret(self, e, env, S):
        if not self.rets or e.a[0] is NONET:
            raise No("return")
        self.rets[-1] += self.expr(e.a[0], env, S)
        return []

    def bind(self, p, v, env, own=None):
        if p.op == "pid":
            env[p.a[0]] = v
            if own is not None:
                own.add(p.a[0])
        elif p.op == "ptup" and isinstance(v, Tup) and len(p.a[0]) == len(v.xs):
            for q, x in zip(p.a[0], v.xs):
                self.bind(q, x, env, own)
        elif p.op == "pwild":
            pass
        else:
            raise No("pattern")

    def many(self, es, env, S):
        out = [(S, [])]
        for e in es:
            out = [(S2, vs + [v]) for S1, vs in out for S2, v in self.expr(e, env, S1)]
            if len(out) > 400:
                raise No("too many cases")
        return out

    def expr(self, e, env, S):
        self.depth += 1
        try:
            if self.depth > 200:
                raise No("depth")
            m = getattr(self, "e_" + e.op, None)
            if m is None:
                raise No("expression " + e.op)
            return m(e, env, S)
        finally:
            self.depth -= 1

    def e_xparen(self, e, env, S):
        return self.expr(e.a[0], env, S)

    def e_xblock(self, e, env, S):
        return self.block(e, env, S)

    def e_xlit(self, e, env, S):
        if e.a[0] in ("true", "false"):
            raise No("bool literal")
        return [(S, R(num(e.a[0])))]

    def e_xlitv(self, e, env, S):
        raise No("literal node")

    def e_xpath(self, e, env, S):
        n = e.a[0].replace(" ", "")
        if n in env:
            v = env[n]
            if isinstance(v, tuple) and v[0] == "lazy":
                return self.expr(v[1], env, S)
            if isinstance(v, tuple):
                raise No("path " + n)
            return [(S, v)]
        if n in self.c:
            return [(S, self.c[n])]
        l = n.split("::")[-1]
        if "::" in n:
            h = n.split("::")[-2]
            if l == "NAN":
                return [(S, Sp("nan"))]
            if l == "INFINITY":
                return [(S, Sp("inf"))]
            if l == "NEG_INFINITY":
                return [(S, Sp("-inf"))]
            if l == "MIN_POSITIVE":
                return [(S, A("MIN_POSITIVE"))]
            if h == "consts":
                k = {"PI": PI, "FRAC_PI_2": PI / 2, "FRAC_PI_4": PI / 4, "FRAC_PI_8": PI / 8, "TAU": PI * 2, "LOG2_E": R(1) / ln(R(2)), "LN_2": ln(R(2)), "LN_10": ln(R(10)), "FRAC_1_PI": R(1) / PI,
                     "LOG2_10": ln(R(10)) / ln(R(2)), "LOG10_2": ln(R(2)) / ln(R(10)), "SQRT_2": sqrt(R(2)), "E": exp(R(1)), "FRAC_1_SQRT_2": R(1) / sqrt(R(2))}.get(l)
                if k is not None:
                    return [(S, k)]
        i = self.items.get(n)
        if i is not None and i.op == "iconst" and n not in self.inline:
            self.inline.add(n)
            try:
                return self.expr(i.a[2], {}, S)
            finally:
                self.inline.discard(n)
        raise No("name " + n)

    def e_xhole(self, e, env, S):
        h = hole(e.a[0])
        if h[0] == "approx":
            a = h[1]
            if a.expr is None or a.var is None:
                raise No("approximated expression")
            if a.var not in env:
                raise No("approximation variable %s not in scope" % a.var)
            v = env[a.var]
            self.domains.append((S, v, a))
            return self.host(a.expr, {a.var: v}, S)
        if h[0] == "eval":
            if h[1] is None:
                raise No("evaluated expression")
            return self.host(h[1], {}, S)
        c = h[1]
        if c.op == "int":
            return [(S, R(c.a[0]))]
        if c.op == "float":
            return [(S, R(F(str(c.a[0]))))]
        if c.op == "litof" and c.a[0].op in ("int", "float"):
            return [(S, R(F(str(c.a[0].a[0]))))]
        if c.op == "ts":
            return self.expr(parse_expr(c.a[0]), env, S)
        raise No("interpolated " + show(c)[:100])

    def host(self, e, env, S):
        """an expression the generator evaluates itself: only its variable and PI are known there"""
        c, self.c = self.c, {"PI": PI}
        i, self.items = self.items, {}
        try:
            return Eval.expr(self, e, env, S)
        finally:
            self.c, self.items = c, i

    def e_xtup(self, e, env, S):
        return [(S1, Tup(vs)) for S1, vs in self.many(e.a[0], env, S)]

    def e_xfield(self, e, env, S):
        out = []
        for S1, v in self.expr(e.a[0], env, S):
            if isinstance(v, Tup) and str(e.a[1]).isdigit():
                out.append((S1, v.xs[int(e.a[1])]))
            else:
                raise No("field")
        return out

    def e_xun(self, e, env, S):
        if e.a[0] != "-":
            raise No("operator " + e.a[0])
        return [(S1, self.neg(v)) for S1, v in self.expr(e.a[1], env, S)]

    def neg(self, v):
        if isinstance(v, Sp):
            return Sp({"nan": "nan", "inf": "-inf", "-inf": "inf"}[v.k])
        if isinstance(v, Rat):
            return -v
        raise No("negation")

    def rat(self, v):
        if isinstance(v, Rat):
            return v
        if isinstance(v, Bits) and v.k == "num":
            return A("trunc", v.u) if not integral(v.u) else v.u
        raise No("number expected: " + v.show())

    def e_xbin(self, e, env, S):
        o = e.a[0]
        if o in ("<", "<=", ">", ">=", "==", "!=", "&&", "||"):
            raise No("boolean value")
        out = []
        for S1, (a, b) in self.many(e.a[1:3], env, S):
            out.append((S1, self.bin(o, a, b)))
        return out

    def bin(self, o, a, b):
        if o in ("+", "-"):
            # integer arithmetic on a bit pattern
            a, b = [A("bits_of", v.u) if isinstance(v, Bits) and v.k == "of" else v for v in (a, b)]
        if o in ("+", "-", "*", "/"):
            if isinstance(a, Sp) or isinstance(b, Sp):
                raise No("arithmetic on special values")
            a, b = self.rat(a), self.rat(b)
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o == "*":
                return a * b
            try:
                return a / b
            except ZeroDivisionError:
                raise No("division by zero")
        man = 23 if self.bits == 32 else 52
        if o == ">>" and isinstance(a, Bits) and a.k == "of" and isinstance(b, Rat) and b.const() == man:
            return A("expo", a.u) + self.c["LOG2_OFFSET"]
        if o == "&":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Bits) and x.k == "of" and isinstance(y, Rat) and y == self.c["ONE_MASK"]:
                    return Bits("frac", x.u)
        if o == "|":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Bits) and x.k == "frac" and isinstance(y, Rat) and y == self.c["ONE_BITS"]:
                    return Bits("mant", x.u)
        n = {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr", "%": "rem"}.get(o)
        if n is None:
            raise No("operator " + o)
        xs = [self.bitarg(a), self.bitarg(b)]
        if n in ("and", "or", "xor"):
            xs.sort(key=lambda x: x.show())
        return A(n, *xs)

    def bitarg(self, v):
        if isinstance(v, Rat):
            return v
        if isinstance(v, Bits):
            return A("bits_" + v.k, v.u)
        raise No("bits of " + v.show())

    def e_xcast(self, e, env, S):
        t = e.a[1] if isinstance(e.a[1], str) else show(e.a[1])
        t = t.replace(" ", "").strip("`")
        out = []
        for S1, v in self.expr(e.a[0], env, S):
            out.append((S1, self.cast(v, t)))
        return out

    def cast(self, v, t):
        w = t
        t = {"fty": "f", "f32": "f", "f64": "f", "ity": "i", "i32": "i", "i64": "i", "isize": "i", "uty": "u", "u32": "u", "u64": "u", "usize": "u"}.get(t, t)
        if t == "f":
            if isinstance(v, Bits):
                if v.k == "of":
                    return A("lgb", v.u) * self.c["EXP2_SCALE"] + self.c["EXP2_ONE"]
                return self.rat(v)
            if isinstance(v, Sp):
                return v
            return v
        if t == "i":
            if isinstance(v, Bits):
                return v if v.k != "num" else self.rat(v)
            if isinstance(v, Sp):
                raise No("cast of a special value")
            return v if integral(v) or any(cas.ATOMS[k][0] in ("shl", "shr", "and", "or", "xor", "intcast", "wmul") for k in v.atoms()) else A("trunc", v)
        if t == "u":
            if isinstance(v, Bits):
                return v
            if isinstance(v, Sp):
                raise No("cast of a special value")
            if v.const() is not None and v.const().denominator == 1:
                return v
            ks = {cas.ATOMS[k][0] for k in v.atoms()}
            if ks & {"shl", "shr", "and", "or", "xor", "wmul", "intvar", "lo32"}:
                if w == "u32" or (w == "uty" and self.bits == 32):
                    if len(v.n) == 1 and ks == {"lo32"}:
                        return v
                    return A("lo32", v)
                return v
            return Bits("num", v)
        raise No("cast to " + t)

    # ---- conditions
    def cond(self, e, env, S):
        """[(Signs, bool)]"""
        if e.op == "xparen":
            return self.cond(e.a[0], env, S)
        if e.op == "xun" and e.a[0] == "!":
            return [(s, not b) for s, b in self.cond(e.a[1], env, S)]
        if e.op == "xlit" and e.a[0] in ("true", "false"):
            return [(S, e.a[0] == "true")]
        if e.op == "xpath" and e.a[0] in env and isinstance(env[e.a[0]], tuple) and env[e.a[0]][0] == "cond":
            _, e2, env2 = env[e.a[0]]
            return self.cond(e2, env2, S)
        if e.op == "xbin" and e.a[0] in ("&&", "||"):
            out = []
            for s, b in self.cond(e.a[1], env, S):
                if b == (e.a[0] == "||"):
                    out.append((s, b))
                else:
                    out += self.cond(e.a[2], env, s)
            return out
        if e.op == "xbin" and e.a[0] in ("<", "<=", ">", ">=", "==", "!="):
            out = []
            for s, (a, b) in self.many(e.a[1:3], env, S):
                d = self.rat(a) - self.rat(b)
                if d.d is not None:
                    raise No("comparison of quotients")
                t = {"<": NEG, "<=": NPOS, ">": POS, ">=": NNEG, "==": ZERO, "!=": NZ}[e.a[0]]
                d, t = self.bitcond(d, t)
                for val, sg in ((True, t), (False, frozenset({-1, 0, 1}) - t)):
                    s2 = s.copy()
                    if s2.add(d, sg):
                        out.append((s2, val))
            return out
        raise No("condition " + e.op)

    def bitcond(self, d, t):
        """a comparison of one bit, or of a remainder by two, as a statement about whether that bit is zero"""
        if not d.laurent():
            return d, t
        ks = [m for m in d.n if m != ()]
        if len(ks) != 1 or len(ks[0]) != 1 or ks[0][0][1] != 1:
            return d, t
        a, c, k = ks[0][0][0], d.n[ks[0]], d.n.get((), F(0))
        n, ar = cas.ATOMS[a]
        sgn = lambda v: 0 if v == 0 else 1 if v > 0 else -1
        if n == "and" and len(ar) == 2:
            ms = [x.const() for x in ar if isinstance(x, Rat) and x.const() is not None]
            if len(ms) != 1 or ms[0] <= 0 or ms[0].denominator != 1 or int(ms[0]) & (int(ms[0]) - 1):
                return d, t
            yes = {v for v in (F(0), ms[0]) if sgn(c * v + k) in t}
            bit = Rat({((a, F(1)),): F(1)})
        elif n in ("rem", "rem_euclid") and len(ar) == 2 and isinstance(ar[1], Rat) and ar[1].const() == 2:
            vals = (F(-1), F(0), F(1)) if n == "rem" else (F(0), F(1))
            yes = {v for v in vals if sgn(c * v + k) in t}
            if len(yes - {F(0)}) not in (0, len(vals) - 1):
                return d, t
            bit = A("and", *sorted([R(1), ar[0]], key=lambda x: x.show()))
        else:
            return d, t
        out = frozenset(([0] if F(0) in yes else []) + ([1, -1] if any(v != 0 for v in yes) else []))
        return bit, out

    def isbool(self, e):
        if e.op == "xparen":
            return self.isbool(e.a[0])
        return e.op == "xbin" and e.a[0] in ("<", "<=", ">", ">=", "==", "!=", "&&", "||") or e.op == "xun" and e.a[0] == "!" or e.op == "xlit" and e.a[0] in ("true", "false")

    def e_xif(self, e, env, S):
        if e.a[2] is NONET:
            raise No("if without else")
        out = []
        for s, b in self.cond(e.a[0], env, S):
            out += self.expr(e.a[1] if b else e.a[2], env, s)
        return out

    # ---- calls
    def split(self, S, p, parts):
        """fork on the sign of p"""
        out = []
        k = S.sign(p)
        for t in parts:
            if k <= t:
                return [(S, t)]
        for t in parts:
            s = S.copy()
            if s.add(p, t):
                out.append((s, t))
        return out

    def e_xmcall(self, e, env, S):
        n = e.a[1]
        args = e.a[2] if isinstance(e.a[2], tuple) else ()
        if not isinstance(n, str):
            raise No("method")
        out = []
        for s, vs in self.many((e.a[0],) + tuple(args), env, S):
            out += self.method(n, vs, s)
        return out

    def method(self, n, vs, S):
        if n in ("clone", "into"):
            return [(S, vs[0])]
        if n == "to_bits" and isinstance(vs[0], Rat):
            return [(S, Bits("of", vs[0]))]
        if n in ("wrapping_mul", "wrapping_add"):
            xs = sorted([self.bitarg(v) for v in vs], key=lambda x: x.show())
            return [(S, A("wmul" if n == "wrapping_mul" else "wadd", *xs))]
        if any(isinstance(v, Sp) for v in vs):
            raise No("method of a special value")
        us = [self.rat(v) for v in vs]
        u = us[0]
        one = {
            "recip": lambda: R(1) / u, "exp": lambda: exp(u), "exp2": lambda: exp2(u), "exp_m1": lambda: exp(u) - 1, "ln": lambda: ln(u), "ln_1p": lambda: ln(u + 1), "log2": lambda: ln(u) / ln(R(2)),
            "log10": lambda: ln(u) / ln(R(10)), "sqrt": lambda: sqrt(u), "sin": lambda: trig("sin", u), "cos": lambda: trig("cos", u), "tan": lambda: trig("tan", u),
            "sinh": lambda: (exp(u) - exp(-u)) / 2, "cosh": lambda: (exp(u) + exp(-u)) / 2, "tanh": lambda: (exp(u) - exp(-u)) / (exp(u) + exp(-u)),
            "asinh": lambda: ln(u + sqrt(u * u + 1)), "acosh": lambda: ln(u + sqrt(u * u - 1)), "atanh": lambda: (ln(u + 1) - ln(R(1) - u)) / 2, "negate": lambda: -u,
            "asin": lambda: self.asin(u, S), "acos": lambda: PI / 2 - self.asin(u, S), "atan": lambda: self.atan(u, S), "neg": lambda: -u,
        }
        try:
            if len(us) == 1 and n in one:
                return [(S, one[n]())]
            if n == "abs" and len(us) == 1:
                return [(s, u if t == NNEG else -u) for s, t in self.split(S, u, (NNEG, NEG))]
            if n in ("round", "floor", "ceil", "trunc") and len(us) == 1:
                return [(S, u if integral(u) else A(n, u))]
            if n == "mul_add" and len(us) == 3:
                return [(S, u * us[1] + us[2])]
            if n == "copysign" and len(us) == 2:
                k = S.sign(u)
                m = u if k <= NNEG else -u if k <= NPOS else A("absu", -u if cas.lead_neg(u) and u.laurent() else u)
                return [(s, m if t == NNEG else -m) for s, t in self.split(S, us[1], (NNEG, NEG))]
            if n in ("min", "max") and len(us) == 2:
                return [(s, (u if (t == NNEG) == (n == "max") else us[1])) for s, t in self.split(S, u - us[1], (NNEG, NEG))]
            if n == "powi" and len(us) == 2 and us[1].const() is not None and us[1].const().denominator == 1:
                return [(S, u ** int(us[1].const()))]
            if n in ("powf", "powi", "pow") and len(us) == 2:
                k = us[1].const()
                if k is not None and k.denominator == 1 and abs(k) < 64:
                    return [(S, u ** int(k))]
                return [(S, exp(ln(u) * us[1]))]
            if n == "log" and len(us) == 2:
                return [(S, ln(u) / ln(us[1]))]
            if n == "hypot" and len(us) == 2:
                return [(S, sqrt(u * u + us[1] * us[1]))]
            if n == "atan2" and len(us) == 2:
                return self.atan2(u, us[1], S)
            if n == "qnorm" and len(us) == 3:
                return [(S, A("qnorm", u) * us[2] + us[1])]
            if n == "dnorm" and len(us) == 3:
                y = (u - us[1]) / us[2]
                return [(S, exp(y * y * F(-1, 2)) / us[2] * sqrt(R(1) / (PI * 2)))]
            if n == "pnorm" and len(us) == 3:
                return [(S, A("pnorm", (u - us[1]) / us[2]))]
            if n == "sin_cos" and len(us) == 1:
                return [(S, Tup([trig("sin", u), trig("cos", u)]))]
        except ZeroDivisionError:
            raise No("division by zero in " + n)
        raise No("method " + n)

    def asin(self, u, S):
        # asin(sqrt(1-a^2)) = pi/2 - |asin a|
        if u.laurent() and len(u.n) == 1:
            (m, c), = u.n.items()
            if len(m) == 1 and c == 1 and m[0][1] == F(1, 2) and cas.ATOMS[m[0][0]][0] == "root":
                w = R(1) - cas.ATOMS[m[0][0]][1][0]
                for a in self.candidates(w):
                    if a * a == w:
                        k = S.sign(a)
                        if k <= NNEG:
                            return PI / 2 - odd("asin", a)
                        if k <= NPOS:
                            return PI / 2 + odd("asin", a)
        return odd("asin", u)

    def candidates(self, w):
        out = []
        for k in sorted(w.atoms()):
            out.append(Rat({((k, F(1)),): F(1)}))
        return out

    def atan(self, u, S):
        t = sqrt(R(2)) - 1
        vs = [x for x in self.candidates(u) if not any(cas.ATOMS[k][0] == "prime" for k in x.atoms())]
        qs = [a / b for a in vs for b in vs if a is not b] + vs
        if not u.laurent():
            for q in qs:
                for sg in (1, -1):
                    # atan((q - t)/(1 + t q)) = atan(q) - pi/8   for q >= 0
                    if (q - t * sg) / (q * t * sg + 1) == u and S.sign(q) <= NNEG:
                        return self.atan(q, S) - PI / 8 * sg
                    if (q * -1 - t * sg) / (q * -1 * t * sg + 1) == u and S.sign(q) <= NPOS:
                        return self.atan(-q, S) - PI / 8 * sg
        if u.laurent() and len(u.n) == 1:
            (m, c), = u.n.items()
            if c < 0:
                return -self.atan(-u, S)
            # canonical orientation: the smallest atom has positive exponent
            if m and min(m)[1] < 0:
                k = S.sign(u)
                inv = R(1) / u
                if k <= POS or k <= NNEG:
                    return PI / 2 - A("atan", inv)
                if k <= NPOS:
                    return -(PI / 2) - A("atan", inv)
        return odd("atan", u)

    def atan2(self, y, x, S):
        out = []
        for s, t in self.split(S, x, (POS, ZERO, NEG)):
            for s2, t2 in self.split(s, y, (NNEG, NEG)):
                if t == POS:
                    out.append((s2, self.atan(y / x, s2)))
                elif t == NEG:
                    out.append((s2, self.atan(y / x, s2) + (PI if t2 == NNEG else -PI)))
                else:
                    out.append((s2, PI / 2 if t2 == NNEG else -(PI / 2)))
        return out

    def e_xcall(self, e, env, S):
        f = e.a[0]
        if f.op != "xpath":
            raise No("call")
        n = f.a[0].replace(" ", "")
        out = []
        if n in env and isinstance(env[n], tuple) and env[n][0] == "fn":
            for s, vs in self.many(e.a[1], env, S):
                out += self.fn(env[n][1], s, vs)
            return out
        for s, vs in self.many(e.a[1], env, S):
            out += self.call(n, vs, s)
        return out

    def call(self, n, vs, S):
        l = n.split("::")[-1]
        if "::" in n:
            if l == "from_bits" and len(vs) == 1:
                return [(S, self.from_bits(vs[0]))]
            if l in ("from", "new"):
                raise No("call " + n)
            return self.method(l, vs, S)
        if n == "from_bits" and len(vs) == 1:
            return [(S, self.from_bits(vs[0]))]
        if n == "runif" and len(vs) == 3:
            i, a, b = [self.rat(v) for v in vs]
            return [(S, A("runif01", i) * (b - a) + a)]
        if n == "negate_on_odd" and len(vs) == 2:
            return [(S, A("negate_on_odd", self.rat(vs[0]), self.rat(vs[1])))]
        if n in ("sqrt_approx", "recip_approx", "cbrt_approx") and len(vs) == 1:
            return [(S, A(n, self.rat(vs[0])))]
        if n == "cbrt" and len(vs) == 1:
            return [(S, A("cbrt", self.rat(vs[0])))]
        if n == "nextafter" and len(vs) == 1:
            return [(S, A("nextafter", self.rat(vs[0])))]
        if n in KNOWN and len(vs) == KNOWN[n]:
            return self.method(n, vs, S)
        i = self.items.get(n)
        if i is not None and i.op == "ifn" and n not in self.inline:
            self.inline.add(n)
            try:
                return self.fn(i, S, vs)
            finally:
                self.inline.discard(n)
        raise No("call of " + n)

    def from_bits(self, v):
        if isinstance(v, Bits):
            if v.k == "num":
                q = (v.u - self.c["EXP2_ONE"]) / self.c["EXP2_SCALE"]
                return exp2(q) if integral(q) else A("bits2", q)
            if v.k == "mant":
                return A("mant", v.u)
            if v.k == "of":
                return v.u
            raise No("from_bits")
        return A("frombits", v)


KNOWN = {k: 1 for k in "recip exp exp2 exp_m1 ln ln_1p log2 log10 sqrt sin cos tan sinh cosh tanh asinh acosh atanh asin acos atan abs round floor ceil trunc sin_cos".split()}
KNOWN.update({k: 2 for k in "powf powi log hypot atan2 copysign min max".split()})
KNOWN.update({k: 3 for k in "qnorm dnorm pnorm mul_add".split()})


def same(a, b):
    if isinstance(a, Sp) or isinstance(b, Sp):
        return isinstance(a, Sp) and isinstance(b, Sp) and a.k == b.k
    if isinstance(a, Tup) or isinstance(b, Tup):
        return isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Bits) or isinstance(b, Bits):
        return isinstance(a, Bits) and isinstance(b, Bits) and a.k == b.k and a.u == b.u
    return a == b
