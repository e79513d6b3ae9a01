import math
from rules.a01 import *
from sem import sem

RULE = ("summary of approx() (paths, node and value sequences, emitted token tree) instantiated for each parity and node count: the nodes must be (lo+hi)/2 - (hi-lo)/2 cos(i pi/(n-1)), "
        "the values those of the expression with only the variable replaced by the node, and the emitted tokens, parsed with Rust's precedences, the requested part of the "
        "interpolation polynomial; impossible requests must reach Err on every path")

AP = "doctor_syn::transformation::approx::approx"
EXPR = "doctor_syn::expression::Expression::"


def hook(ip, st, info, args, ctx):
    n = info.rkey or info.key
    if n in (EXPR + "subst", EXPR + "eval"):
        t = T("h", n[len(EXPR):], tuple(ip.resolve(st, a) for a in args))
        a, b = st.assume_variant(t, RES, "Ok"), st.copy().assume_variant(t, RES, "Err")
        return [Leaf(a, "return", OK(FLD(t, "Ok", "0"))), Leaf(b, "return", ERR(FLD(t, "Err", "0")))]
    if n == PM + "Polynomial::from_points":
        return [Leaf(st, "return", T("poly", tuple(ip.resolve(st, a) for a in args)))]
    if n == PM + "Polynomial::terms":
        return [Leaf(st, "return", FLD(ip.resolve(st, args[0]), None, "terms"))]
    return None


class NumX:
    """an expression that is a number"""

    def __init__(self, v):
        self.v = v


def interpolant(xs, ys):
    """coefficients of the polynomial through the points (independent of the code under analysis)"""
    n = len(xs)
    out = [0] * n
    for i in range(n):
        c, d = [1], 1
        for j in range(n):
            if j != i:
                c = [(c[m - 1] if m else 0) - xs[j] * (c[m] if m < len(c) else 0) for m in range(len(c) + 1)]
                d *= xs[i] - xs[j]
        if d == 0:
            raise Broken("two nodes coincide: division by zero")
        for m in range(n):
            out[m] += ys[i] * c[m] / d
    return out


class Sem:
    def __init__(self, digits, g, var="x"):
        self.digits = digits
        self.g = g
        self.var = var
        self.nodes = None
        self.coef = {}
        self.cache = {}
        self.light = False          # any coefficients: only nodes, refusals and the shape of the polynomial matter
        self.fail = None            # (operation, number of successful ones before it fails)
        self.done = {}

    def digit(self, env, t, what):
        d = env.num(t)
        if d < self.digits:
            raise Broken("%s is computed with %d of %d digits" % (what, d, self.digits))

    def __call__(self, env, t):
        o, a = t.op, t.a
        if o == "bd":
            n, x = a
            if n in CONST:
                return Fraction(CONST[n])
            if n in ("bigd", "bigdf", "bigdf32"):
                v = env.num(x[0])
                if isinstance(v, float) and not math.isfinite(v):
                    raise Broken("a bound that is not finite is converted: panic")
                return Fraction(v)
            if n == "num_digits_for":
                return 20 if env.num(x[0]) == 32 else 40
            if n == "pi":
                self.digit(env, x[0], "pi")
                return Fraction(math.pi)
            if n in ("cos", "sin"):
                self.digit(env, x[1], n)
                return Fraction(getattr(math, n)(float(env.num(x[0]))))
            if n == "round":
                self.digit(env, x[1], "a value")
                return env.num(x[0])
            raise Undecided("kernel " + n)
        if o == "h":
            n, x = a
            if n == "subst":
                e = env.val(x[0])
                v = env.val(x[1])
                if e != "EXPR":
                    raise Undecided("substitution into " + show(x[0])[:80])
                l = v.p[0] if isinstance(v, E) else None
                if not isinstance(l, list) or not all(isinstance(y, tuple) for y in l):
                    raise Undecided("bindings " + show(x[1])[:80])
                l = [(m, y) for m, y in l if m == self.var]
                if not l or not isinstance(l[0][1], NumX):
                    raise Broken("the variable is not replaced by the node: " + show(x[1])[:120])
                if self.failed("subst", l[0][1].v):
                    return E("Err", "failed")
                return E("Ok", ("at", l[0][1].v))
            if n == "eval":
                e = env.val(x[0])
                self.digit(env, x[1], "the value at a node")
                if e == "EXPR":
                    raise Broken("the expression is evaluated without replacing the variable")
                if isinstance(e, NumX):
                    return E("Ok", e)
                if self.failed("eval", e[1]):
                    return E("Err", "failed")
                return E("Ok", NumX(self.g(e[1])))
        if o == "tonum":
            if self.fail and self.fail[0] == "conv":
                v = env.val(a[-1])
                if isinstance(v, E) and len(v.p) == 1:
                    v = v.p[0]
                if isinstance(v, NumX) and self.failed("conv", v.v):
                    return E("Err", "failed")
            return E("Ok")
        if o in ("as", "cast") and isinstance(a[1], T) and isT(a[1], "ty") and a[1].a[0] in ("f32", "f64") or o in ("as", "cast") and str(a[1]) in ("f32", "f64"):
            v = env.num(a[0])
            w = show(a[1]) if isinstance(a[1], T) else str(a[1])
            if "f32" in w and math.isfinite(v):
                import struct
                return struct.unpack("f", struct.pack("f", v))[0]
            return float(v)
        if o == "num" and isinstance(a[0], T):
            v = env.val(a[0])
            if isinstance(v, NumX):
                return v.v
            raise Undecided("number " + show(t)[:80])
        if o == "numexpr":
            return NumX(env.num(a[0]))
        if o == "poly":
            if (id(env), t) in self.cache:
                return self.cache[id(env), t]
            xs, ys = env.lst(a[0][0]), env.lst(a[0][1])
            self.digit(env, a[0][2], "the polynomial")
            if len(xs) != len(ys):
                raise Broken("%d nodes but %d values" % (len(xs), len(ys)))
            self.nodes = xs
            self.cache[id(env), t] = {"terms": interpolant(xs, ys) if not self.light else lightco(len(xs))}
            return self.cache[id(env), t]
        if o == "call":
            n = a[0].split("::")[-1]
            if n in ("with_prec", "with_scale") and len(a[1]) == 2 and "BigDecimal" in a[0]:
                k = env.num(a[1][1])
                if k < self.digits:
                    raise Broken("a value is cut to %d of %d digits" % (k, self.digits))
                return env.num(a[1][0])
            if n == "abs" and len(a[1]) == 1:
                return abs(env.num(a[1][0]))
            if n in ("is_finite", "is_nan", "is_infinite"):
                v = float(env.num(a[1][0]))
                return {"is_finite": math.isfinite(v), "is_nan": math.isnan(v), "is_infinite": math.isinf(v)}[n]
            if n == "span":
                return "span"
            if n == "as_ref":
                return env.val(a[1][0])
        if o == "converr":
            return "failed"
        if o in ("cat", "span", "fmt"):
            return "text"
        if o == "fld" and a[2] in ("inner", "0") and a[1] is None:
            v = env.val(a[0])
            if isinstance(v, (NumX, str)) or isinstance(v, tuple) and v and v[0] == "at":
                return v
        if o == "interp":
            y = a[0]
            v = env.val(y)
            if isinstance(v, NumX):
                return self.tok(v)
        return NotImplemented

    def failed(self, op, v):
        if not self.fail or self.fail[0] != op:
            return False
        seen = self.done.setdefault(op, [])
        if v not in seen:
            seen.append(v)
        return seen.index(v) >= self.fail[1]

    def tok(self, v):
        """a coefficient as tokens: a negated name, so that wrong grouping shows"""
        k = "K%d" % len(self.coef)
        self.coef[k] = -v.v
        return Toks(["-", k])


class Env2(NumEnv):
    def toks(self, items):
        out = Toks()
        for x in items:
            if x.op == "interp":
                y = x.a[0]
                while isT(y, "ctor") and y.a[1] == "RepInterp":
                    y = y.a[2][0][1]
                v = self.val(y)
                if isinstance(v, NumX):
                    out += self.on.tok(v)
                    continue
                if isinstance(v, E) and v.v == "Expression":
                    v = v.p[0]
                    if isinstance(v, NumX):
                        out += self.on.tok(v)
                        continue
            out += NumEnv.toks(self, (x,))
        return out


def lightco(n):
    return [Fraction((7 * i) % 13 - 6 if i < n - 1 else 3, 1 + i % 3) for i in range(n)]


PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


class Rd:
    """value of an expression's tokens under Rust's precedences"""

    def __init__(self, toks, names):
        self.t = [x for x in toks if x != ""]
        self.i = 0
        self.n = names

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, w=None):
        x = self.peek()
        if x is None or w is not None and x != w:
            raise Undecided("token %s instead of %s" % (x, w))
        self.i += 1
        return x

    def whole(self):
        v = self.bin(0)
        if self.peek() is not None:
            raise Undecided("token " + self.peek())
        return v

    def bin(self, p):
        v = self.un()
        while self.peek() in PREC and PREC[self.peek()] > p:
            o = self.take()
            w = self.bin(PREC[o])
            v = v + w if o == "+" else v - w if o == "-" else v * w if o == "*" else v / w
        return v

    def un(self):
        if self.peek() == "-":
            self.take()
            return -self.un()
        return self.post()

    def post(self):
        x = self.take()
        if x == "(":
            v = self.bin(0)
            self.take(")")
        elif x in self.n:
            v = self.n[x]
        elif x.replace(".", "").isdigit():
            v = Fraction(x)
        else:
            raise Undecided("token " + x)
        while self.peek() == ".":
            self.take()
            m = self.take()
            self.take("(")
            args = []
            while self.peek() != ")":
                args.append(self.bin(0))
                if self.peek() == ",":
                    self.take()
            self.take(")")
            if m == "mul_add" and len(args) == 2:
                v = v * args[0] + args[1]
            elif m == "powi" and len(args) == 1:
                v = v ** int(args[0])
            else:
                raise Undecided("method " + m)
        return v


def pick2(leaves, params, on):
    env, (kind, facts, val, outs, folds) = choose(leaves, lambda f: Env2(params, f, on))
    if kind == "panic":
        raise Broken("panics when " + "; ".join(show(f[1])[:80] for f in facts[-2:]))
    if kind != "return":
        raise Undecided(kind)
    return env, val


def close(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def run(r):
    p = prog()
    if not r.anchor("Expression::approx", EXPR + "approx" in p.bodies):
        return
    where = "doctor-syn/src/transformation/approx.rs approx"
    f = EXPR + "approx"
    n = 0
    try:
        raw = leaves_of(p, f, [hook, conv_hook, kernel_hook()], panics=True)
        lv = []
        for kind, facts, val, outs, folds in raw:
            folds = {sem(k): (sem(v[0]), sem(v[1]), sem(v[2]) if v[2] is not None else None, sem(v[3])) for k, v in folds.items()}
            lv.append((kind, [sem_fact(x) for x in facts], sem(val) if isinstance(val, T) else val, outs, folds))
    except interp_Undecided as x:
        r.undecided("approx", str(x)[:200], where)
        return
    r.saw("paths", len(lv))
    digits = 57
    lo, hi = -0.7, 2.3

    def g(x):
        x = Fraction(x)
        return 1 / (x + Fraction(73, 10)) + x**3 / 7 + Fraction(1, 3)

    sizes = list(range(2, 33)) if r.tier == "thorough" else [2, 3, 4, 5, 6, 7, 12, 13, 24, 25]
    cases = [(par, k) for par in ("Odd", "Even", "Neither") for k in sizes]
    cs = {c + d for c in bounds([(l[1], l[2]) for l in lv], hi=300) for d in (-1, 0, 1)} | {41, 42}
    cases = [(par, k, lo, hi, "") for par, k in cases]
    cases += [(par, k, lo, hi, "size/") for k in sorted(cs) if k >= 2 for par in ("Odd", "Even", "Neither") if not (par == "Odd" and k % 2 or par == "Even" and k % 2 == 0)]
    cases += [("Neither", 5, 2.3, -0.7, "reversed/"), ("Neither", 20, -0.7, 2.3, "zeros/"), ("Odd", 20, -0.7, 2.3, "zeros/"), ("Even", 21, -0.7, 2.3, "zeros/"), ("Neither", 4, 1.0, 1.0 + 2.0**-44, "narrow/"), ("Odd", 6, -1e-9, 1e-9, "narrow/"), ("Neither", 5, -3e5, 7e8, "wide/"), ("Even", 5, -1.7, 1.7, "symmetric/")]
    for par, k, lo, hi, kind in cases:
        n += 1
        key = "polynomial/%s%s/%d" % (kind, par, k)
        bad_parity = par == "Odd" and k % 2 or par == "Even" and k % 2 == 0
        on = Sem(digits, g)
        on.light = kind != ""
        params = {"p1": "EXPR", "p2": k, "p3": lo, "p4": hi, "p5": "x", "p6": E(par), "p7": digits}
        try:
            env, val = pick2(lv, params, on)
            v = env.val(val)
            if not isinstance(v, (E, Toks)):
                raise Undecided("result " + show(val)[:100])
            if isinstance(v, E) and v.v == "Err":
                r.check(key, bad_parity, "%s with %d nodes is refused" % (par, k), where, "Err: this node count has no %s polynomial" % par.lower())
                continue
            if bad_parity:
                r.bad(key, "%s parity with %d nodes is accepted: its highest coefficient has the other parity" % (par, k), where)
                continue
            while isinstance(v, E) and len(v.p) == 1:
                v = v.p[0]
            if not isinstance(v, Toks):
                raise Undecided("result is not a token tree: " + show(val)[:100])
            a, c = (Fraction(lo) + Fraction(hi)) / 2, (Fraction(hi) - Fraction(lo)) / 2
            want = [float(a) - float(c) * math.cos(i * math.pi / (k - 1)) for i in range(k)]
            got = sorted(float(x) for x in on.nodes or ())
            if on.nodes is None:
                raise Undecided("no interpolation on this path")
            tol = 1e-9 * abs(float(c)) + 4e-16 * abs(float(a))
            if len(got) != k or not all(abs(x - y) <= tol + 1e-15 * abs(y) for x, y in zip(got, sorted(want))):
                r.bad(key, "the nodes of %d over [%s, %s] are %s, not %s" % (k, lo, hi, [round(x, 4) for x in got], [round(x, 4) for x in sorted(want)]), where)
                continue
            co = interpolant(on.nodes, [g(x) for x in on.nodes]) if not on.light else lightco(k)
            bad = None
            for x in (Fraction(-3, 5), Fraction(1, 2), Fraction(7, 3)):
                names = dict(on.coef)
                names["x"] = x
                y = Rd(v, names).whole()
                w = sum(cc * x**i for i, cc in enumerate(co) if par == "Neither" or (i % 2 == 1) == (par == "Odd"))
                if not close(y, w, 1e-6):
                    bad = "at x=%s the emitted expression %s is %.8g, the %s interpolation polynomial %.8g" % (x, " ".join(v)[:120], float(y), par, float(w))
                    break
            r.check(key, bad is None, bad or "", where, "nodes, values and emitted polynomial agree")
        except Broken as x:
            r.bad(key, "%s with %d nodes: %s" % (par, k, x), where)
        except (Undecided, NoElem) as x:
            r.undecided(key, str(x)[:200], where)
    inf, nan = math.inf, math.nan
    bads = [("no nodes", 0, 0.0, 1.0), ("one node", 1, 0.0, 1.0), ("an infinite upper bound", 4, 0.0, inf), ("an infinite lower bound", 4, -inf, 1.0), ("NaN as lower bound", 4, nan, 1.0),
            ("NaN as upper bound", 4, 0.0, nan), ("an empty interval", 4, 1.0, 1.0)]
    for what, k, a, b in bads:
        n += 1
        key = "refused/" + what.replace(" ", "-")
        try:
            env, val = pick2(lv, {"p1": "EXPR", "p2": k, "p3": a, "p4": b, "p5": "x", "p6": E("Neither"), "p7": digits}, Sem(digits, g))
            v = env.val(val)
            if isinstance(v, E) and v.v == "Err":
                r.ok(key, "Err", where)
            elif isinstance(v, E):
                r.bad(key, "a request with %s is accepted" % what, where)
            else:
                raise Undecided("result " + show(val)[:100])
        except Broken as x:
            r.bad(key, "a request with %s panics: %s" % (what, x), where)
        except (Undecided, NoElem) as x:
            r.undecided(key, str(x)[:200], where)
    for op, what in (("subst", "substitution"), ("eval", "evaluation"), ("conv", "conversion")):
        for after in (0, 2):
            n += 1
            key = "failing/%s/%d" % (what, after)
            on = Sem(digits, g)
            on.fail = (op, after)
            on.light = True
            try:
                env, val = pick2(lv, {"p1": "EXPR", "p2": 5, "p3": -0.7, "p4": 2.3, "p5": "x", "p6": E("Neither"), "p7": digits}, on)
                v = env.val(val)
                if isinstance(v, E) and v.v == "Err":
                    r.ok(key, "Err", where)
                elif isinstance(v, (E, Toks)) and len(on.done.get(op, ())) > after:
                    r.bad(key, "yields a polynomial although the %s at %s fails" % (what, "the first node" if not after else "a later node"), where)
                else:
                    raise Undecided("result " + show(val)[:100])
            except Broken as x:
                r.bad(key, "when the %s at a node fails: %s" % (what, x), where)
            except (Undecided, NoElem) as x:
                r.undecided(key, str(x)[:200], where)
    # a failing substitution, evaluation or conversion must not panic, nor be ignored
    for kind, facts, val, outs, folds in lv:
        fail = [x for x in facts if x[0] == "is" and x[2] == "Err" and (isT(x[1], "h") or isT(x[1], "tonum"))]
        if not fail:
            continue
        n += 1
        t = fail[0][1]
        what = {"subst": "substitution", "eval": "evaluation"}.get(t.a[0], "conversion")
        key = "failure/" + what
        if kind == "panic":
            r.bad(key, "panics when the %s at a node fails" % what, where)
        elif kind == "return" and isT(val, "ctor"):
            r.check(key, val.a[1] == "Err", "succeeds although the %s at a node fails" % what, where, "Err")
        else:
            r.undecided(key, show(val)[:100], where)
    r.floor("requests", n, 20)


def sem_fact(x):
    return tuple(sem(y) if isinstance(y, (T, tuple)) else y for y in x)
