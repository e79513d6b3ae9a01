from rules.k01 import *
from rules.evalcommon import *
from numev import Undecided, Broken, NoElem, E

RULE = ("one-step transfer function of Eval including its aborting paths, composed with the extracted kernel formulas: at every boundary of every operation's domain the path that applies must be Ok exactly where "
        "the operation is defined and Err elsewhere, and neither it nor any kernel path it calls may unwrap a missing value, index out of range or divide by zero")

X = ["-2", "-1.5", "-1", "-0.5", "0", "0.5", "1", "1.5", "2", "5"]
A = ["-2", "-1", "0", "0.5", "1", "2", "32", "64"]
ND_ = 57


def defined(n, v):
    """True, False or None (either is fine)"""
    x = v[0]
    if n in ("round", "abs", "signum", "exp", "exp2", "sin", "cos", "atan", "erf", "erfc", "tan"):
        return True
    if n == "recip":
        return x != 0
    if n in ("powi", "powf"):
        y = v[1]
        return True if x > 0 else False if (x == 0 and y < 0) or (x < 0 and y != int(y)) else None
    if n == "sqrt":
        return x >= 0
    if n in ("ln", "log2", "log10"):
        return x > 0
    if n == "log":
        return x > 0 and v[1] > 0 and v[1] != 1
    if n in ("asin", "acos"):
        return -1 <= x <= 1
    if n in ("dnorm", "pnorm"):
        return v[2] > 0
    if n == "qnorm":
        return 0 < x < 1 and v[2] > 0
    if n == "round_ieee":
        return v[1] in (32, 64)
    return None


ARITY = dict(powi=1, powf=1, log=1, dnorm=2, pnorm=2, qnorm=2, round_ieee=1)
METHODS = ["round", "abs", "signum", "recip", "powi", "powf", "sqrt", "exp", "exp2", "ln", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "erf", "erfc", "dnorm", "pnorm", "qnorm", "round_ieee"]


class Deep(KEnv):
    """called kernels are their own formulas, evaluated down to the decimal library"""

    def __init__(self, ks, hostile=()):
        KEnv.__init__(self, ks, 0)
        self.hostile = dict(hostile)
        self.memo = {}
        self.kernels = set()

    def __call__(self, env, t):
        if t.op == "bd":
            n, x = t.a
            if n in self.hostile:
                return self.hostile[n]
            if n == "round_ieee":
                b = env.num(x[1])
                return E("Ok", env.num(x[0])) if b in (32, 64) else E("Err", None)
            if n in DIG or n in ("sqrt",):
                args = [env.num(y) for y in x]
                key = (n, tuple(str(y) for y in args))
                if key not in self.memo:
                    try:
                        self.memo[key] = self.kernel(n, args)
                    except Broken as b:
                        self.memo[key] = b
                v = self.memo[key]
                if isinstance(v, Broken):
                    raise v
                return v
        return KEnv.__call__(self, env, t)

    def kernel(self, n, args):
        f = BD + n
        if f not in self.ks.p.bodies:
            raise Undecided("kernel " + n)
        self.kernels.add(n)
        if f not in self.ks.lv:
            self.ks.lv[f] = self.ks.leaves(f)
        lv, backs, ip = self.ks.lv[f]
        params = {"p%d" % (i + 1): num_mp(v) if i < len(args) - 1 or n == "bigd" else v for i, v in enumerate(args)}
        try:
            env, l = choose([l for l in lv if not mentions_loop(l)], lambda fo: NumEnv(params, fo, self))
        except Undecided as u:
            if not backs or "no path applies" not in str(u):
                raise
            v = self.ref[n](*[num_mp(y) for y in args[:-1]])
            if v is None and not returns_none_from_loop(lv):
                raise Broken("%s(%s) enters a loop that only ends with a value" % (n, ", ".join(mpmath.nstr(num_mp(y), 6) for y in args[:-1])))
            return (E("None") if v is None else E("Some", v)) if n in OPTION else v
        if l[0] == "panic":
            raise Broken("%s aborts on %s: %s" % (n, ", ".join(mpmath.nstr(num_mp(y), 6) for y in args[:-1]), "; ".join(show(y[1])[:80] for y in l[1][-1:])))
        try:
            return env.val(l[2])
        except Broken as b:
            raise Broken("%s(%s): %s" % (n, ", ".join(mpmath.nstr(num_mp(y), 6) for y in args[:-1]), b))


BADLIT = "unreadable"


def lit(v):
    if v == BADLIT:
        return E("Lit", {"lit": E("Float"), "num": None})
    if v == "bool":
        return E("Lit", {"lit": E("Bool"), "num": None})
    if isinstance(v, str) and "." not in v:
        return E("Lit", {"lit": E("Int"), "num": num_mp(Fraction(v))})
    return E("Lit", {"lit": E("Float"), "num": num_mp(Fraction(v) if isinstance(v, str) else v)})


class NodeEnv:
    """the node under evaluation: its kind, and the literals its children evaluate to"""

    def __init__(self, deep, kind, kids, method=None, op=None):
        self.deep = deep
        self.kind = kind
        self.kids = kids
        self.method = method
        self.op = op
        base = FLD(NODE, kind, "0")
        self.fix = {NODE: E(kind, None)}
        for name, v in kids.items():
            self.fix[FLD(base, None, name)] = v
        if op:
            self.fix[FLD(base, None, "op")] = E(op, None)
        self.fix[ND] = ND_
        self.meth = FLD(base, None, "method")

    def __call__(self, env, t):
        o, a = t.op, t.a
        if t in self.fix:
            v = self.fix[t]
            return v
        if o == "visit":
            v = env.val(a[0])
            if v == "err":
                return E("Err", None)
            return E("Ok", lit(v))
        if o == "tonum":
            v = env.val(a[1])
            return E("Ok", v) if isinstance(v, E) and v.v == "Lit" and v.p[0]["num"] is not None else E("Err", None)
        if o == "num":
            v = env.val(a[0])
            if isinstance(v, E) and v.v == "Lit" and v.p[0]["num"] is not None:
                return v.p[0]["num"]
            raise NoElem()
        if o == "numexpr":
            return env.num(a[0])
        if self.method and o in ("cat", "disp") and any(x is self.meth for x in subterms(t)):
            return self.method
        return self.deep(env, t)


def result(env, l):
    if l[0] == "panic":
        raise Broken("aborts (%s)" % "; ".join(show(tuple(y))[:100] for y in l[1][-2:]))
    v = sem(l[2])
    if isT(v, "ctor") and v.a[1] == "Err":
        return None
    if isT(v, "ctor") and v.a[1] == "Ok":
        y = v.a[2][0][1]
        if isT(y, "numexpr"):
            return env.num(y.a[0])
        y = env.val(y)
        return y
    if isT(v, "numexpr"):
        return env.num(v.a[0])
    w = env.val(v)
    if isinstance(w, E) and w.v in ("Ok", "Err"):
        return None if w.v == "Err" else w.p[0]
    raise Undecided("result " + show(v)[:100])


def run(r):
    nums.need()
    mpmath.mp.dps = 90
    p = prog()
    ip, ls = transfer(p, EVAL, hooks=[opaque_bd, conv_hook], want_panics=True)
    if not r.anchor("impl Visitor for Eval", ls is not None):
        return
    ks = Kernels(p)
    ks.lv = {}
    deep = Deep(ks)
    leaves = {}
    names = set()
    for l in ls:
        fs = [y for y in l.st.order if y[0] in ("b", "is", "isnot", "forall")]
        v = ip.resolve(l.st, l.val) if isinstance(l.val, T) else l.val
        leaves.setdefault(node_kind(l, NODE), []).append((l.kind, fs, v, {}, l.st.folds))
        for y in fs:
            if y[0] == "b" and isT(y[1], "eq"):
                names |= {z.a[0] for z in y[1].a if isT(z, "str")}
    n = 0
    where = "doctor-syn/src/transformation/eval.rs Eval::visit_method_call"

    def ask(key, kind, env_of, want, where, lv=None):
        nonlocal n
        n += 1
        try:
            env, l = choose(leaves.get(kind, []), lambda fo: env_of(fo))
            got = result(env, l)
            if want is None:
                r.ok(key, "a value or an error", where)
            elif want and got is None:
                r.bad(key, "is refused although it is defined", where)
            elif not want and got is not None:
                r.bad(key, "yields %s although it is undefined" % (mpmath.nstr(num_mp(got), 8) if not isinstance(got, E) else got), where)
            else:
                r.ok(key, "value" if want else "error", where)
        except Broken as x:
            r.bad(key, str(x)[:300], where)
        except (Undecided, NoElem) as x:
            r.undecided(key, str(x)[:200], where)

    def mk(kind, kids, method=None, op=None, hostile=()):
        d = Deep(ks, hostile) if hostile else deep
        ne = NodeEnv(d, kind, kids, method, op)
        return lambda fo: NumEnv({}, fo, ne)

    for m in sorted(set(METHODS) | names):
        ar = ARITY.get(m, 0)
        if m in METHODS:
            combos = [[]] if not ar else [[a] for a in A] if ar == 1 else [[a, b] for a in ("0", "-1", "2") for b in ("-1", "0", "0.5", "1", "3")]
        else:
            combos = [[], ["0"], ["1", "0"]]
        for x in X:
            if m in ("dnorm", "pnorm", "qnorm") and x not in ("-1", "0", "0.5", "1", "2"):
                continue
            for args in combos:
                vals = [Fraction(x)] + [Fraction(a) for a in args]
                want = defined(m, vals) if m in METHODS else None
                ask("%s(%s)" % (m, ",".join([x] + args)), "MethodCall", mk("MethodCall", {"receiver": x, "args": list(args)}, m), want, where)
        # operands that are no numbers, or whose evaluation failed
        for b in (BADLIT, "bool", "err"):
            ask("%s/%s receiver" % (m, b), "MethodCall", mk("MethodCall", {"receiver": b, "args": ["1"] * ar}, m), False, where)
            for i in range(ar):
                ask("%s/%s argument %d" % (m, b, i), "MethodCall", mk("MethodCall", {"receiver": "0.5", "args": [b if j == i else "1" for j in range(ar)]}, m), False, where)
        # a number of arguments no operation takes
        for k in range(4):
            if m not in METHODS or k != ar:
                ask("%s/%d arguments" % (m, k), "MethodCall", mk("MethodCall", {"receiver": "0.5", "args": ["1"] * k}, m), False if m in METHODS else None, where)
    # the cosine can round to zero
    ask("tan/cosine zero", "MethodCall", mk("MethodCall", {"receiver": "1.5", "args": []}, "tan", hostile={"cos": num_mp(0), "sin": num_mp(1)}.items()), False, where)
    where = "doctor-syn/src/transformation/eval.rs Eval::visit_binary"
    for op in ("Add", "Sub", "Mul", "Div", "Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        for a in ("-1", "0", "2.5"):
            for b in ("-1", "0", "2.5"):
                ask("%s %s %s" % (a, op, b), "Binary", mk("Binary", {"left": a, "right": b}, None, op), not (op == "Div" and b == "0"), where)
        for bad in (BADLIT, "bool", "err"):
            for k in ({"left": bad, "right": "1.5"}, {"left": "1.5", "right": bad}, {"left": "0", "right": bad}):
                ask("%s %s %s" % (k["left"], op, k["right"]), "Binary", mk("Binary", k, None, op), False, where)
    for op in ("Rem", "And", "Or", "BitXor", "Shl", "AddEq"):
        ask("1 %s 0" % op, "Binary", mk("Binary", {"left": "1", "right": "0"}, None, op), None, where)
    where = "doctor-syn/src/transformation/eval.rs Eval::visit_unary"
    for op in ("Neg", "Not", "Deref"):
        for v in ("0", "-1.5", BADLIT, "bool", "err"):
            ask("%s %s" % (op, v), "Unary", mk("Unary", {"expr": v}, None, op), (v in ("0", "-1.5")) if op == "Neg" else None, where)
    # the series loop must not give up
    f = BD + "maclaurin"
    if f in p.bodies:
        ip2 = p.interp(hooks=[lambda ip, st, info, args, ctx: [Leaf(st, "return", T("bd", (info.rkey or info.key)[len(BD):], tuple(ip.resolve(st, a) for a in args)))] if (info.rkey or info.key).startswith(BD) and (info.rkey or info.key)[len(BD):] in KERNEL else None], want_panics=True)
        b = p.bodies[f]
        st = St()
        gave = 0
        for l in ip2.run_body(b, [ip2.wrap_refs(st, b["crate"], b["locals"][i + 1], SYM("p%d" % (i + 1))) for i in range(b["argc"])], st):
            if l.kind == "panic" and "panic!" in show(l.val):
                gave += 1
        n += 1
        r.check("series/abort", not gave, "%d paths of the series loop abort with a panic when too many terms were added (arguments above about 11000)" % gave, "doctor-syn/src/bdmath.rs maclaurin", "no aborting path")
    r.saw("kernel formulas composed", len(deep.kernels))
    r.floor("domain instances", n, 300)
    r.assume("decimal arithmetic fails only on division by zero; memory and time are not bounded")
