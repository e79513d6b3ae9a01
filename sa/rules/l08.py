from rules.libcommon import *
import cas, nums, models
from cas import R as K, A, var
from denot import No, num

RULE = ("abstract interpretation of the generated tests: (1) the test support function is run over the finite domain {NaN, below, at, above the limit} for the deviation of the next row and for every "
        "accumulator, to a fixpoint over rows, and every reachable final state that saw a NaN or too large deviation must fail an assertion, every other must pass; (2) the rows every specification "
        "generates are evaluated as algebra terms over the loop index: the argument is a rounded affine point inside the range, value plus remainder is exactly the reference expression at that "
        "argument, the tested closure and the limit are the specification's; (3) the same for the histogram tests' buckets")

LT, EQ_, GT, NAN, NEGV = "below", "at", "above", "nan", "negative"
RANK = {NEGV: 0, LT: 1, EQ_: 2, GT: 3}


class Wrong(Exception):
    """a definite contradiction"""


# ------------------------------------------------------------------ terms of the generated numbers
def litnum(s):
    return K(num(s))


class Den:
    """algebra term of an expression of the library's language; round_ieee and the functions are uninterpreted"""

    def __init__(self, env=None):
        self.env = env or {}
        self.digits = set()

    def e(self, x, env=None):
        env = self.env if env is None else env
        o = x.op
        if o == "xparen":
            return self.e(x.a[0], env)
        if o == "xlit":
            return litnum(x.a[0])
        if o == "xlitv":
            raise No("literal value")
        if o in ("xpath", "xpathv"):
            n = x.a[0].replace(" ", "") if isinstance(x.a[0], str) else str(x.a[0])
            if n in env:
                return env[n]
            if n.split("::")[-1] == "PI":
                return cas.PI
            raise No("name " + n)
        if o == "xun" and x.a[0] == "-":
            return -self.e(x.a[1], env)
        if o == "xcast":
            return self.e(x.a[0], env)
        if o == "xbin" and x.a[0] in "+-*/":
            a, b = self.e(x.a[1], env), self.e(x.a[2], env)
            return a + b if x.a[0] == "+" else a - b if x.a[0] == "-" else a * b if x.a[0] == "*" else a / b
        if o == "xmcall" and isinstance(x.a[1], str):
            v = self.e(x.a[0], env)
            if x.a[1] == "round_ieee":
                return A("ieee", v, *[self.e(y, env) for y in x.a[2]])
            return A("m_" + x.a[1], v, *[self.e(y, env) for y in x.a[2]])
        if o == "xcall" and x.a[0].op == "xpath":
            return A("c_" + x.a[0].a[0].replace(" ", ""), *[self.e(y, env) for y in x.a[1]])
        if o == "xhole":
            return self.t(x.a[0], env)
        raise No("expression " + o)

    def kept(self, case):
        """the element a filter hands on; notes how many of the range's indices pass it"""
        els = {x for _, xs in case.a[0] for x in (xs.a[0] if isinstance(xs, T) else xs)}
        if len(els) != 1:
            raise No("value " + show(case)[:120])
        el, = els
        if el.op != "elem" or el.a[0].op != "range" or not all(isT(x, "int") for x in el.a[0].a[:2]):
            raise No("value " + show(case)[:120])
        lo, hi, inc = el.a[0].a[0].a[0], el.a[0].a[1].a[0], bool(el.a[0].a[2])
        idx, n = range(lo, hi + inc), 0
        for i in idx:
            for conds, xs in case.a[0]:
                vs = [num_of(f[1], el, i) for f in conds]
                if any(not isinstance(x, bool) for x in vs):
                    raise No("filter " + show(conds[0][1])[:100])
                if all(x == f[2] for x, f in zip(vs, conds)):
                    n += 1 if (xs.a[0] if isinstance(xs, T) else xs) else 0
                    break
        self.passing = (n, len(idx))
        return el

    def t(self, v, env=None):
        """term interpolated by the generator"""
        c, w = peel_hole(v)
        if w:
            raise No("number type")
        if c.op == "litof":
            return self.t(c.a[0], env)
        if c.op in ("int", "float"):
            return K(cas.F(c.a[0]))
        if c.op == "str":
            return litnum(c.a[0])
        if c.op == "elem" and c.a[0].op == "range":
            return var("i")
        if c.op == "elemof" and isT(c.a[0], "case"):
            return self.t(self.kept(c.a[0]), env)
        if c.op == "interp":
            return self.t(c.a[0], env)
        if c.op == "parsed":
            return self.e(parse_expr(c.a[1].a[0]), env)
        if c.op == "ts":
            return self.e(parse_expr(c.a[0]), env)
        if c.op == "lib":
            n = c.a[0].split("::")[-1]
            if n == "eval" and len(c.a[1]) == 2:
                self.digits.add(show(c.a[1][1]))
                return self.t(c.a[1][0], env)
            if n == "subst" and len(c.a[1]) == 2:
                vl = c.a[1][1]
                e2 = dict(env or self.env)
                for p in pairs(vl):
                    nm = nameof(p[0])
                    if nm is None:
                        raise No("variable name")
                    e2[nm] = self.t(p[1], env)
                return self.t(c.a[1][0], e2)
            raise No("call " + n)
        if c.op == "op" and len(c.a) == 3 and c.a[0] in ("Add", "Sub", "Mul", "Div"):
            a, b = self.t(c.a[1], env), self.t(c.a[2], env)
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a / b}[c.a[0]]()
        if c.op == "call" and c.a[0].endswith(("::powi", "::powf")) and len(c.a[1]) == 2:
            a, b = self.t(c.a[1][0], env), self.t(c.a[1][1], env).const()
            if b is not None and b.denominator == 1:
                return a ** int(b)
        if c.op == "call" and c.a[0].split("::")[-1] in ("max", "min") and len(c.a[1]) == 2:
            a, b = self.t(c.a[1][0], env).const(), self.t(c.a[1][1], env).const()
            if a is not None and b is not None:
                return K(max(a, b) if c.a[0].endswith("max") else min(a, b))
        if c.op == "call" and c.a[0].endswith("::exp2"):
            b = self.t(c.a[1][0], env).const()
            if b is not None and b.denominator == 1:
                return K(2) ** int(b)
        raise No("value " + show(c)[:120])


def pairs(vl):
    s = next((x for _, x in vl.a[2]), None) if vl.op == "ctor" else None
    if s is None or s.op not in ("seq", "arr"):
        raise No("variable list " + show(vl)[:100])
    return [p.a[0] for p in s.a[0]]


# ------------------------------------------------------------------ verdict of the support code
class Verdict:
    """collecting semantics of 'for row in rows { body }; asserts' over deviation classes"""

    def __init__(self, base, limit):
        self.base = base  # function env -> list of Rat that are +/- the deviation
        self.limit = limit  # Rat of the limit, or None: the constant compared with
        self.wrong = None
        self.limits = set()

    # values: Rat | class string | bool | None (unknown)
    def cls(self, v, S):
        """class of a value"""
        if isinstance(v, str):
            return v
        if isinstance(v, cas.Rat):
            if S["E"] is not None:
                b = self.base(S)
                if b is not None:
                    if v == b:
                        return S["E"] if S["sg"] > 0 or S["E"] == NAN else NEGV
                    if v == -b:
                        return S["E"] if S["sg"] < 0 or S["E"] == NAN else NEGV
            if self.limit is not None and v == self.limit:
                return EQ_
            c = v.const()
            if c is not None:
                if c == 0:
                    return LT
                if self.limit is None and c > 0:
                    self.limits.add(c)
                    return EQ_
                if c < 0:
                    return NEGV
        return None

    def expr(self, e, S):
        """-> [(value, S)]"""
        o = e.op
        if o == "xparen":
            return self.expr(e.a[0], S)
        if o == "xlit":
            if e.a[0] in ("true", "false"):
                return [(e.a[0] == "true", S)]
            try:
                return [(litnum(e.a[0]), S)]
            except (No, ValueError):
                return [(None, S)]
        if o == "xpath":
            n = e.a[0].replace(" ", "")
            if n in S["v"]:
                return [(S["v"][n], S)]
            l = n.split("::")[-1]
            if l == "NAN":
                return [(NAN, S)]
            if l in ("NEG_INFINITY", "MIN"):
                return [(NEGV, S)]
            if l in ("INFINITY", "MAX"):
                return [(GT, S)]
            return [(None, S)]
        if o == "xcast":
            return self.expr(e.a[0], S)
        if o == "xref":
            return self.expr(e.a[1], S)
        if o == "xun":
            out = []
            for v, s in self.expr(e.a[1], S):
                if e.a[0] == "!":
                    out.append((None if not isinstance(v, bool) else not v, s))
                elif e.a[0] == "*":
                    out.append((v, s))
                else:
                    out.append((-v if isinstance(v, cas.Rat) else None, s))
            return out
        if o == "xbin":
            p = e.a[0]
            if p in ("&&", "||"):
                out = []
                for v, s in self.expr(e.a[1], S):
                    if v is (p == "||"):
                        out.append((v, s))
                    elif v is None:
                        for w, s2 in self.expr(e.a[2], s):
                            out.append((w if w is (p == "||") else None, s2))
                    else:
                        out += self.expr(e.a[2], s)
                return out
            out = []
            for a, s in self.expr(e.a[1], S):
                for b, s2 in self.expr(e.a[2], s):
                    if p in ("<", "<=", ">", ">=", "==", "!="):
                        out += [(v, s2) for v in self.cmp(p, a, b, s2)]
                    elif isinstance(a, cas.Rat) and isinstance(b, cas.Rat) and p in "+-*/":
                        try:
                            out.append((a + b if p == "+" else a - b if p == "-" else a * b if p == "*" else a / b, s2))
                        except ZeroDivisionError:
                            out.append((None, s2))
                    elif isinstance(a, bool) and isinstance(b, bool) and p in "&|":
                        out.append(((a and b) if p == "&" else (a or b), s2))
                    else:
                        out.append((None, s2))
            return out
        if o == "xmcall" and isinstance(e.a[1], str):
            n = e.a[1]
            out = []
            for v, s in self.expr(e.a[0], S):
                args = [[]]
                for y in e.a[2]:
                    args = [l + [w[0][0]] for l in args for w in [self.expr(y, s)]]
                out += self.method(n, v, args[0], s)
            return out
        if o == "xcall" and e.a[0].op == "xpath":
            n = e.a[0].a[0].replace(" ", "")
            vs = [self.expr(y, S)[0][0] for y in e.a[1]]
            if S["v"].get(n) == "@f" and len(vs) == 1 and isinstance(vs[0], cas.Rat):
                return [(A("f", vs[0]), S)]
            l = n.split("::")[-1]
            if l in ("abs", "max", "is_nan", "min") and vs:
                return self.method(l, vs[0], vs[1:], S)
            if vs and all(isinstance(v, cas.Rat) for v in vs):
                return [(A("c_" + n, *vs), S)]
            return [(None, S)]
        if o == "xif":
            out = []
            for v, s in self.expr(e.a[0], S):
                for t in ([v] if isinstance(v, bool) else [True, False]):
                    s2 = s if isinstance(v, bool) else dict(s, imp=True)
                    br = e.a[1] if t else e.a[2]
                    if br == NONET:
                        out.append((None, s2))
                    else:
                        out += self.block(br, s2) if br.op == "xblock" else self.expr(br, s2)
            return out
        if o == "xblock":
            return self.block(e, S)
        if o in ("xassign", "xopassign"):
            l, r = (e.a[0], e.a[1]) if o == "xassign" else (e.a[1], e.a[2])
            if l.op == "xpath":
                out = []
                x = r if o == "xassign" else T("xbin", e.a[0], l, r)
                for v, s in self.expr(x, S):
                    out.append((None, dict(s, v=dict(s["v"], **{l.a[0]: self.fold(v, s)}))))
                return out
            return [(None, S)]
        if o in ("xbreak", "xcont", "xret"):
            return [(None, dict(S, exit=o))]
        if o == "xmac":
            return self.macro(e, S)
        if o == "xindex":
            a = self.expr(e.a[0], S)[0][0]
            i = self.expr(e.a[1], S)[0][0]
            if e.a[0].op == "xpath" and isinstance(i, cas.Rat):
                return [(A("idx_" + e.a[0].a[0], i), S)]
            return [(None, S)]
        return [(None, S)]

    def fold(self, v, S):
        """a value stored in a variable: deviations become their class"""
        if isinstance(v, cas.Rat) and S["E"] is not None:
            c = self.cls(v, S)
            if c is not None and v.const() is None:
                return c
        return v

    def cmp(self, p, a, b, S):
        if isinstance(a, bool) or isinstance(b, bool):
            return [None]
        x, y = self.cls(a, S), self.cls(b, S)
        if x is None or y is None:
            for v in (a, b):
                self.suspicious(v, S)
            return [None]
        if NAN in (x, y):
            return [p == "!="]
        if RANK[x] != RANK[y]:
            d = RANK[x] - RANK[y]
            return [{"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": False, "!=": True}[p]]
        if x == EQ_:
            return [p in ("<=", ">=", "==")]
        return [True, False]

    def suspicious(self, v, S):
        """a deviation-like number that is not the deviation"""
        if isinstance(v, cas.Rat) and S["E"] is not None and any(cas.ATOMS[k][0] in ("f", "absdev") for k in v.atoms()):
            if self.wrong is None:
                self.wrong = v.show()

    def method(self, n, v, args, S):
        if n in ("clone", "iter", "to_owned"):
            return [(v, S)]
        c = self.cls(v, S)
        if n == "is_nan":
            if c is None:
                self.suspicious(v, S)
                return [(None, S)]
            return [(c == NAN, S)]
        if n in ("is_finite", "is_infinite"):
            if c in (LT, EQ_, NEGV):
                return [(n == "is_finite", S)]
            if c == NAN:
                return [(False, S)]
            return [(True, S), (False, S)] if c == GT else [(None, S)]
        if n == "abs":
            if isinstance(v, cas.Rat):
                b = self.base(S) if S["E"] is not None else None
                if b is not None and (v == b or v == -b):
                    return [(S["E"], S)]
                if v.const() is not None:
                    return [(v if v.const() >= 0 else -v, S)]
                return [(A("absdev", v), S)]
            return [(v if v in (NAN, LT, EQ_, GT) else None, S)]
        if n in ("max", "min") and len(args) == 1:
            d = self.cls(args[0], S)
            if c is None or d is None:
                self.suspicious(v, S)
                self.suspicious(args[0], S)
                return [(None, S)]
            if c == NAN:
                return [(d, S)]
            if d == NAN:
                return [(c, S)]
            f = max if n == "max" else min
            return [(f(c, d, key=lambda z: RANK[z]), S)]
        if isinstance(v, cas.Rat) and all(isinstance(x, cas.Rat) for x in args):
            return [(A("m_" + n, v, *args), S)]
        return [(None, S)]

    def macro(self, e, S):
        n = e.a[0].replace(" ", "")
        toks = e.a[1]
        if n in ("assert", "debug_assert"):
            from rast import exprs
            es = exprs(toks)
            out = []
            for v, s in self.expr(es[0], S):
                if isinstance(v, bool):
                    out.append((None, s if v else dict(s, exit="panic")))
                else:
                    out.append((None, dict(s, imp=True)))
                    out.append((None, dict(s, exit="panic", imp=True)))
            return out
        if n in ("panic", "unreachable", "todo"):
            return [(None, dict(S, exit="panic"))]
        return [(None, S)]

    def block(self, b, S):
        sts = [S]
        for x in b.a[0]:
            nx = []
            for s in sts:
                if s["exit"]:
                    nx.append(s)
                    continue
                nx += self.stmt(x, s)
            sts = self.merge(nx)
        out = []
        for s in sts:
            if s["exit"] or b.a[1] == NONET:
                out.append((None, s))
            else:
                out += self.expr(b.a[1], s)
        return out

    def merge(self, sts):
        seen, out = [], []
        for s in sts:
            k = self.key(s)
            if k not in seen:
                seen.append(k)
                out.append(s)
        if len(out) > 3000:
            raise No("too many states")
        return out

    def key(self, s):
        return (s["exit"], s["E"], s["sg"], s["bad"], s["imp"], tuple(sorted((n, v.show() if isinstance(v, cas.Rat) else str(v)) for n, v in s["v"].items())))

    def stmt(self, x, S):
        if x.op == "xlet":
            pt, ty, init = x.a
            if init == NONET:
                return [S]
            out = []
            for v, s in self.expr(init, S):
                if s["exit"]:
                    out.append(s)
                    continue
                d = dict(s["v"])
                if pt.op == "pid" and isinstance(pt.a[0], str):
                    d[pt.a[0]] = v
                out.append(dict(s, v=d))
            return out
        if x.op in ("xsemi", "xexpr"):
            e = x.a[0]
            if e.op == "xfor":
                return self.loop(e, S)
            if e.op in ("xwhile", "xloop"):
                raise No("loop form " + e.op)
            return [s for _, s in self.expr(e, S)]
        return [S]

    def loop(self, e, S):
        raise No("nested loop")

    def rows(self, e, S, bind):
        """fixpoint over the rows; bind(state) -> state with the row's variables"""
        outer = set(S["v"])
        work, seen, final = [S], {self.key(S)}, [S]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 4000:
                raise No("too many states")
            for c in (NAN, LT, EQ_, GT):
                for sg in (1, -1):
                    s0 = bind(dict(s, E=c, sg=sg))
                    for _, t in self.block(e.a[2], s0):
                        bad = "yes" if s["bad"] == "yes" or c in (NAN, GT) else "edge" if s["bad"] == "edge" or c == EQ_ else "no"
                        v = {k: x for k, x in t["v"].items() if k in outer}
                        for k, x in v.items():
                            if isinstance(x, cas.Rat) and x.const() is None and any(cas.ATOMS[a][0] != "var" or cas.ATOMS[a][1][0] != "limit" for a in x.atoms()):
                                v[k] = None
                        ex = t["exit"]
                        u = dict(t, v=v, bad=bad, E=None, sg=1)
                        if ex in ("xcont", None):
                            u["exit"] = None
                            k = self.key(u)
                            if k not in seen:
                                seen.add(k)
                                work.append(u)
                                final.append(u)
                        elif ex == "xbreak":
                            for b in ({bad, "yes"}):
                                w = dict(u, exit=None, bad=b, early=True)
                                k = self.key(w)
                                if k not in seen:
                                    seen.add(k)
                                    final.append(w)
                        else:
                            final.append(u)
        return final


def fresh(v):
    return {"v": v, "E": None, "sg": 1, "bad": "no", "imp": False, "exit": None}


def judge(r, k, sts, V, w, what):
    miss = spur = None
    imp = False
    for s in sts:
        fails = s["exit"] == "panic"
        if s["exit"] == "xret":
            fails = False
        if s["bad"] == "yes" and not fails:
            if s["imp"]:
                imp = True
            else:
                miss = s
        if s["bad"] == "no" and fails:
            if s["imp"]:
                imp = True
            else:
                spur = s
    if V.wrong:
        r.bad(k + "/deviation", "%s compares %s, which is not the difference between the result and the reference" % (what, V.wrong[:200]), w)
        return
    if miss is not None:
        r.bad(k + "/detects", "%s can pass although a deviation was not a number or above the limit (final state %s)" % (what, {n: v for n, v in miss["v"].items() if isinstance(v, (str, bool))}), w)
    if spur is not None:
        r.bad(k + "/passes", "%s can fail although every deviation was within the limit" % what, w)
    if miss is None and spur is None:
        if imp:
            r.undecided(k + "/detects", "%s branches on values the analysis does not know" % what, w)
        else:
            r.ok(k + "/detects", "%d final states" % len(sts), w)


def rowloop(e, data):
    """does the for loop visit all rows of data? True / False / None unknown; and the pattern"""
    it = e.a[1]
    part = False
    while True:
        if it.op == "xref":
            it = it.a[1]
        elif it.op == "xparen":
            it = it.a[0]
        elif it.op == "xmcall" and it.a[1] in ("iter", "into_iter", "copied", "cloned", "rev"):
            it = it.a[0]
        elif it.op == "xmcall" and it.a[1] in ("skip", "take", "step_by"):
            part = True
            it = it.a[0]
        elif it.op == "xindex" and it.a[1].op == "xrange" and not (it.a[1].a[0] == NONET and it.a[1].a[1] == NONET):
            part = True
            it = it.a[0]
        elif it.op == "xindex" and it.a[1].op == "xrange":
            it = it.a[0]
        else:
            break
    if it.op == "xpath" and it.a[0] == data:
        return not part
    return None


def names(p):
    while p.op == "pref":
        p = p.a[0]
    if p.op == "ptup":
        return [names(x)[0] if names(x) else None for x in p.a[0]]
    if p.op == "pid" and isinstance(p.a[0], str):
        return [p.a[0]]
    return [None]


# ------------------------------------------------------------------ the rule
def run(r):
    models.UNROLL = 4           # the rows of a test are one loop, however short
    g = load(r)
    if g is None:
        return
    sig = {}
    for b in BITS:
        for plots in (False, True):
            k = "support/%d%s" % (b, "/plots" if plots else "")
            try:
                for toks, lf in testlib(g, b, generate_plots=T("bool", plots)):
                    fs = [i for i in parse_items(toks) if i.op == "ifn" and i.a[0] == "test_function"]
                    if not fs:
                        r.undecided(k, "no test_function is emitted", "libmgen/src/auxfuncs.rs")
                        continue
                    sig[b] = support(r, k, fs[0], "libmgen/src/auxfuncs.rs gen_test_function")
            except (NoGen, Undecided, ParseError, No) as x:
                r.undecided(k, str(x)[:300], "libmgen/src/auxfuncs.rs")
    n = 0
    for e, s, t in specs(g):
        for b in BITS:
            for plots in (False, True) if s["test"]["@"] != "Histogram" else (False,):
                k = "%s/%d%s" % (s["test_name"], b, "/plots" if plots else "")
                w = "libmgen/src/test.rs / " + FN
                try:
                    outs = testgen(g, t, b, generate_plots=T("bool", plots))
                except (NoGen, Undecided) as x:
                    r.undecided(k, str(x)[:300], w)
                    continue
                if not outs:
                    r.bad(k, "no test is generated", w)
                for toks, lf in outs:
                    n += 1
                    try:
                        its = [i for i in parse_items(toks) if i.op == "ifn"]
                        if len(its) != 1:
                            r.undecided(k, "%d functions" % len(its), w)
                            continue
                        f = its[0]
                        r.check(k + "/test", re.search(r"\btest\b", show(T("x", f.a[-1])) if not isinstance(f.a[-1], T) else show(f.a[-1])) is not None, "the generated function is not marked #[test]: it never runs", w)
                        at_ = show(T("x", f.a[-1])) if not isinstance(f.a[-1], T) else show(f.a[-1])
                        for bad in ("ignore", "should_panic"):
                            r.check(k + "/" + bad, not re.search(r"\b%s\b" % bad, at_), "the generated test is marked #[%s]" % bad, w)
                        if s["test"]["@"] == "MaxAbs":
                            maxabs(r, k, s, f, b, sig.get(b), w)
                        elif s["test"]["@"] == "Histogram":
                            histogram(r, k, s, f, b, w)
                    except (Undecided, ParseError, No, ZeroDivisionError) as x:
                        r.undecided(k, str(x)[:300], w)
                    except Wrong as x:
                        r.bad(k, str(x)[:400], w)
    r.floor("generated tests", n, 40)
    r.assume("|x| of the emitted arithmetic is taken over the reals: the rounding error of computing the deviation itself is not counted")
    r.assume("rounding to the tested width is symmetric (round half to even), so the sign may be taken out of it")


def support(r, k, f, w):
    """analyse test_function; -> positions of (data, limit, function) among the arguments"""
    pos = {}
    env = {}
    for i, p in enumerate(f.a[1]):
        nm, ty = names(p.a[0])[0], show(p.a[1]) if isinstance(p.a[1], T) else str(p.a[1])
        if "[" in ty:
            pos["data"] = i
            data = nm
            env[nm] = "@data"
        elif ty.strip() in ("fty", "f32", "f64"):
            pos["limit"] = i
            env[nm] = var("limit")
        elif "str" in ty:
            env[nm] = None
        else:
            pos["f"] = i
            env[nm] = "@f"
    if len(pos) != 3:
        raise No("signature of test_function")
    body = f.a[3]
    xs, ys, es = var("x"), var("yref"), var("yerr")

    def base(S):
        return A("f", xs) - ys - es

    class V2(Verdict):
        def loop(self, e, S):
            vis = rowloop(e, data)
            if vis is None:
                raise No("the loop of test_function is over something else")
            if not vis:
                r.bad(k + "/rows", "test_function does not look at every row", w)
            pt = names(e.a[0])
            if len(pt) != 3:
                raise No("row pattern")

            def bind(s):
                return dict(s, v=dict(s["v"], **{n: v for n, v in zip(pt, (xs, ys, es)) if n}))

            self.looped = True
            return self.rows(e, S, bind)

    V = V2(base, var("limit"))
    V.looped = False
    sts = [s for _, s in V.block(body, fresh(env))]
    if not V.looped:
        raise No("no loop over the rows recognised")
    judge(r, k, sts, V, w, "the comparison of a generated test")
    return pos


def has(t, op, ok=lambda x: True):
    if isinstance(t, T):
        if t.op == op and ok(t):
            return True
        if t.op == "xclosure":
            return False
        return any(has(x, op, ok) for x in t.a)
    if isinstance(t, (tuple, list)):
        return any(has(x, op, ok) for x in t)
    return False


def maxabs(r, k, s, f, bits, pos, w):
    body = f.a[3]
    env = {}
    call = None
    for x in list(body.a[0]) + ([T("xsemi", body.a[1])] if body.a[1] != NONET else []):
        if x.op == "xlet" and x.a[0].op == "pid":
            env[x.a[0].a[0]] = x.a[2]
        elif x.op in ("xsemi", "xexpr") and x.a[0].op == "xcall" and x.a[0].a[0].op == "xpath" and x.a[0].a[0].a[0] == "test_function":
            call = x.a[0]
        if call is None and has(x, "xret"):
            if x.op in ("xsemi", "xexpr") and x.a[0].op == "xret":
                raise Wrong("the generated test returns before it looks at any row")
            r.undecided(k + "/reached", "the generated test can return before it looks at any row", w)
    if call is None:
        if has(body, "xcall", lambda c: c.a[0].op == "xpath" and c.a[0].a[0] == "test_function"):
            raise No("test_function is called in a nested expression")
        raise Wrong("the generated test never calls test_function")
    if pos is None:
        raise No("the signature of test_function is not known")
    args = call.a[1]
    data, lim, fn = args[pos["data"]], args[pos["limit"]], args[pos["f"]]
    # the closure
    want = rust_expr(s["rust_expr"])
    if fn.op == "xclosure" and len(fn.a[0]) == 1:
        v = names(fn.a[0][0].a[0])[0]
        d = Den()
        try:
            a, b_ = Den({v: var("x")}).e(fn.a[1]), Den({"x": var("x"), v: var("x")}).e(want)
            r.check(k + "/closure", a == b_, "the test calls %s, the specification says %s" % (show(fn.a[1])[:100], s["rust_expr"]), w, s["rust_expr"])
        except No:
            r.check(k + "/closure", show(fn.a[1]) == show(want), "the test calls %s, the specification says %s" % (show(fn.a[1])[:100], s["rust_expr"]), w, s["rust_expr"])
    else:
        r.undecided(k + "/closure", "the function tested is " + show(fn)[:100], w)
    # the limit
    d = Den()
    lv = d.e(lim).const()
    spec = s["test"]["2"] if bits == 32 else s["test"]["3"]
    if lv is None:
        r.undecided(k + "/limit", "the limit is " + show(lim)[:100], w)
    else:
        scales = [cas.F(1, 2 ** 23), cas.F(1, 2 ** 24)] if bits == 32 else [cas.F(1, 2 ** 53), cas.F(1, 2 ** 52)]
        sp = cas.F(spec)
        r.check(k + "/limit", lv > 0 and any(lv == sp * x for x in scales), "the limit of the %d-bit test is %s, the specification allows %s units of 2^-%d" % (bits, float(lv), spec, 23 if bits == 32 else 53), w, str(float(lv)))
    # the rows
    while data.op in ("xpath", "xref", "xparen"):
        if data.op == "xpath":
            if data.a[0] not in env:
                raise No("rows " + data.a[0])
            data = env[data.a[0]]
        else:
            data = data.a[1] if data.op == "xref" else data.a[0]
    rows = []
    loops(data, rows)
    lo, hi = cas.F(0), None
    if not rows:
        raise No("rows are " + show(data)[:100])
    mn, mx = Den().e(rust_expr(s["test"]["0"])), Den().e(rust_expr(s["test"]["1"]))
    d = Den()
    for rng, row in rows:
        if rng is None:
            r.undecided(k + "/rows", "a row outside the loop", w)
            continue
        lo_, hi_, inc = rng
        n = hi_ - lo_ + (1 if inc else 0)
        r.check(k + "/count", n >= s["test"]["4"], "%d of the %d specified points are tested" % (n, s["test"]["4"]), w, "%d points" % n)
        e = parse_expr(row)
        while e.op == "xparen":
            e = e.a[0]
        if e.op != "xtup" or len(e.a[0]) != 3:
            raise No("row " + show(e)[:100])
        d.passing = None
        X, Y, E = [d.e(x) for x in e.a[0]]
        if d.passing:
            r.check(k + "/count", d.passing[0] >= s["test"]["4"], "only %d of the %d specified points are tested: the others are filtered out" % (d.passing[0], s["test"]["4"]), w, "%d points" % d.passing[0])
        # x = round(affine in i)
        ra = as_ieee(X)
        if ra is None:
            r.bad(k + "/point", "the test points are not rounded to the %d-bit format: the function sees another argument than the reference" % bits, w)
        else:
            if ra[1] != bits:
                r.bad(k + "/point", "the test points are rounded to %s bits in a %d-bit test" % (ra[1], bits), w)
            else:
                r.ok(k + "/point", "rounded to %d bits" % bits, w)
            g_ = ra[0]
            p0, p1, p2 = [at(g_, v) for v in (lo_, lo_ + 1, lo_ + 2)]
            pl = at(g_, hi_ if inc else hi_ - 1)
            a, b_ = nums.rat(mn), nums.rat(mx)
            v0, vl = nums.rat(p0), nums.rat(pl)
            eps = abs(b_ - a) / 2 ** 20
            if not (p2 - p1 == p1 - p0):
                r.undecided(k + "/range", "the points are not equally spaced", w)
            else:
                inside = min(v0, vl) >= min(a, b_) - eps and max(v0, vl) <= max(a, b_) + eps
                spread = abs(vl - v0) >= abs(b_ - a) * 3 / 4
                r.check(k + "/range", inside and spread, "the points run from %.6g to %.6g, the specified range is %.6g to %.6g" % (float(v0), float(vl), float(a), float(b_)), w, "%.6g .. %.6g" % (float(v0), float(vl)))
        ref = Den({"x": X}).e(rust_expr(s["ref_expr"]))
        r.check(k + "/reference", Y + E == ref, "value plus remainder of a row is %s, the reference at the row's point is %s" % ((Y + E).show()[:160], ref.show()[:160]), w, "value + remainder = " + s["ref_expr"])
        ry = as_ieee(Y)
        if ry is None:
            r.bad(k + "/rounded", "the expected value is not rounded to the format: converting the literal loses what the remainder was computed against", w)
        else:
            r.check(k + "/rounded", ry[1] == bits and ry[0] == ref, "the expected value is %s" % Y.show()[:160], w, "rounded to %d bits" % bits)
    for x in d.digits:
        if x.isdigit():
            r.check(k + "/digits", int(x) >= (9 if bits == 32 else 17) + 3, "rows are computed with %s digits: the remainder is lost in the %d-bit test" % (x, bits), w, x + " digits")
        else:
            r.undecided(k + "/digits", "precision " + x[:80], w)


def num_of(t, el, i):
    """value of a condition on a loop index"""
    if t == el:
        return i
    if not isinstance(t, T):
        return t if isinstance(t, (int, bool)) else None
    if t.op in ("int", "bool"):
        return t.a[0]
    op, args = (t.a[0].lower(), t.a[1:]) if t.op == "op" else (t.op, t.a)
    if op == "as":
        args = t.a[:1]
        op = "id"
    xs = [num_of(x, el, i) for x in args]
    if any(x is None for x in xs):
        return None
    try:
        return {"eq": lambda: xs[0] == xs[1], "ne": lambda: xs[0] != xs[1], "lt": lambda: xs[0] < xs[1], "le": lambda: xs[0] <= xs[1], "not": lambda: not xs[0], "rem": lambda: xs[0] % xs[1], "div": lambda: xs[0] // xs[1],
                "add": lambda: xs[0] + xs[1], "sub": lambda: xs[0] - xs[1], "mul": lambda: xs[0] * xs[1], "id": lambda: xs[0]}[op]()
    except (KeyError, ZeroDivisionError, IndexError, TypeError):
        return None


def loops(data, out, rng=None):
    """rows of an array expression: [(range or None, tokens of the row)]"""
    def toks(ts, rng):
        cur = []
        for x in ts:
            if x.op == "tsall":
                if cur:
                    out.append((rng, tuple(cur)))
                    cur = []
                c = x.a[0]
                if c.op == "range" and isT(c.a[0], "int") and isT(c.a[1], "int"):
                    b = x.a[2]
                    if b.op != "ts":
                        raise No("rows depend on " + show(b)[:80])
                    toks(b.a[0], (c.a[0].a[0], c.a[1].a[0], bool(c.a[2])))
                else:
                    raise No("rows over " + show(c)[:80])
            elif x.op == "pu" and x.a[0] == ",":
                if cur:
                    out.append((rng, tuple(cur)))
                    cur = []
            else:
                cur.append(x)
        if cur:
            out.append((rng, tuple(cur)))

    if data.op == "xarr":
        for x in data.a[0]:
            h = x
            if h.op == "xhole":
                v = h.a[0]
                toks((v,) if v.op != "ts" else v.a[0], rng)
            else:
                raise No("array element " + show(x)[:80])
    else:
        raise No("rows are " + show(data)[:80])


def as_ieee(v):
    """(argument, bits) when the term is round_ieee(argument, bits), up to sign"""
    if v.laurent() and len(v.n) == 1:
        (m, c), = v.n.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            n, a = cas.ATOMS[m[0][0]]
            if n == "ieee" and len(a) == 2:
                b = a[1].const()
                return (a[0] * K(c), int(b) if b is not None else None)
    return None


def at(v, i):
    k = next(iter(var("i").atoms()))
    return cas.subst(v, {k: K(i)})


# ------------------------------------------------------------------ histogram
def histogram(r, k, s, f, bits, w):
    body = f.a[3]
    mn, mx = Den().e(rust_expr(s["test"]["0"])), Den().e(rust_expr(s["test"]["1"]))

    class V2(Verdict):
        def loop(self, e, S):
            rg = e.a[1]
            pt = names(e.a[0])
            while rg.op == "xparen":
                rg = rg.a[0]
            if rg.op != "xrange" or pt[0] is None:
                raise No("loop over " + show(rg)[:80])
            a, b = self.expr(rg.a[0], S)[0][0], self.expr(rg.a[1], S)[0][0]
            if not isinstance(a, cas.Rat) or not isinstance(b, cas.Rat) or a.const() is None or b.const() is None:
                raise No("loop bounds")
            n = b.const() - a.const()
            inc = counting(e.a[2])
            if inc is not None:
                self.count(e, S, pt[0], n, inc)
                return [S]
            if a.const() != 0 or (self.buckets is not None and n != self.buckets):
                r.bad(k + "/buckets", "buckets %s..%s of %s are compared" % (a.const(), b.const(), self.buckets), w)
            self.nb = n
            self.looped = True

            def bind(st):
                return dict(st, v=dict(st["v"], **{pt[0]: var("i")}))

            return self.rows(e, S, bind)

        def count(self, e, S, i, n, inc):
            self.samples = n
            self.inc = inc
            env = {}
            gd = []
            self.walk(e.a[2], dict(S["v"], **{i: var("i")}), gd)

        def walk(self, b, env, guards):
            for x in list(b.a[0]) + ([T("xsemi", b.a[1])] if b.a[1] != NONET else []):
                if x.op == "xlet" and x.a[0].op == "pid":
                    try:
                        env = dict(env, **{x.a[0].a[0]: Den(env).e(x.a[2])})
                    except No as z:
                        raise No("counting loop: %s" % z)
                elif x.op in ("xsemi", "xexpr"):
                    e = x.a[0]
                    if e.op == "xif":
                        if e.a[2] != NONET and counting(e.a[2]) is not None:
                            raise No("counting in else")
                        self.walk(e.a[1], env, guards + [e.a[0]])
                    elif e.op == "xopassign" and e.a[1].op == "xindex":
                        if e.a[0] != "+" or Den(env).e(e.a[2]).const() != 1:
                            r.bad(k + "/count", "a bucket is not incremented by one per sample", w)
                        self.idx = Den(env).e(e.a[1].a[1])
                        self.guards = (guards, env)
                        self.hist = e.a[1].a[0].a[0]

        def base(self, S):
            return None

    V = V2(None, None)
    V.looped = False
    V.samples = V.buckets = V.idx = None
    V.hist = None
    V.nb = None
    for x in body.a[0]:
        if x.op == "xlet" and x.a[2].op == "xrep":
            n = x.a[2].a[1]
            V.buckets = Den().e(n).const()

    def base(S):
        if V.samples is None or V.hist is None:
            return None
        nb = V.buckets or V.nb
        dx = (mx - mn) / K(nb)
        mid = (var("i") + K(cas.F(1, 2))) / K(nb) * (mx - mn) + mn
        return A("idx_" + V.hist, var("i")) / (K(V.samples) * dx) - Den({"x": mid}).e(rust_expr(s["ref_expr"]))

    V.base = base
    sts = [t for _, t in V.block(body, fresh({}))]
    if not V.looped:
        raise No("no loop over the buckets recognised")
    if V.idx is None:
        r.undecided(k + "/count", "how samples are counted is not recognised", w)
    else:
        y = Den({"i": var("i")}).e(rust_expr(s["rust_expr"]))
        want = (y - mn) / (mx - mn) * K(V.buckets)
        at_ = V.idx.atoms()
        ok = V.idx == A("m_floor", want)
        if not ok and any(cas.ATOMS[z][0] != "m_floor" for z in at_):
            r.undecided(k + "/count", "the bucket of a sample is " + V.idx.show()[:160], w)
        else:
            r.check(k + "/count", ok, "the bucket of a sample is %s, not %s" % (V.idx.show()[:120], A("m_floor", want).show()[:120]), w, "%s samples in %s buckets" % (V.samples, V.buckets))
    judge(r, k, sts, V, w, "the distribution test %s" % s["test_name"])
    for c in V.limits:
        r.check(k + "/limit", c < cas.F(1, 10), "deviations of the density up to %s pass" % float(c), w, str(float(c)))


def counting(b):
    """does the block increment an array element?"""
    for x in list(b.a[0]) + ([T("xsemi", b.a[1])] if b.a[1] != NONET else []):
        if x.op in ("xsemi", "xexpr"):
            e = x.a[0]
            if e.op == "xopassign" and e.a[1].op == "xindex":
                return e
            if e.op == "xif":
                c = counting(e.a[1])
                if c is not None:
                    return c
    return None
