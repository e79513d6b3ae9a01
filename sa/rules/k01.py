from rules.a01 import *
import nums
from nums import mpmath
from interp import Ctx

RULE = ("kernel formulas extracted from MIR: each return path is a term over uninterpreted kernels and power series; a series' coefficients are the terms its closure adds, "
        "for every index; a loop is its exit formula together with the transfer function of one iteration. Every path must equal the mathematical function at generic points "
        "of its region, every loop step must leave the exit formula unchanged, and every digit count passed on must be at least the requested one")

OPTION = {"ln", "log", "pow", "sqrt", "qnorm"}
DIG = {"sin", "cos", "tan", "exp", "asin", "acos", "atan", "ln", "log", "pow", "sqrt", "erf", "erfc", "dnorm", "pnorm", "qnorm", "pi", "sqrt_two", "one_over_root_two_pi"}


def refs():
    m = mpmath
    dn = lambda x, mu, s: m.exp(-(((x - mu) / s) ** 2) / 2) / (s * m.sqrt(2 * m.pi))
    pn = lambda x, mu, s: (1 + m.erf((x - mu) / s / m.sqrt(2))) / 2
    qn = lambda p, mu, s: mu + s * m.sqrt(2) * m.erfinv(2 * p - 1) if 0 < p < 1 else None
    pos = lambda f: lambda x, *a: f(x, *a) if x > 0 else None
    return {
        "sin": m.sin, "cos": m.cos, "tan": m.tan, "exp": m.exp, "asin": m.asin, "acos": m.acos, "atan": m.atan, "erf": m.erf, "erfc": m.erfc, "dnorm": dn, "pnorm": pn, "qnorm": qn,
        "ln": pos(m.log), "log": lambda x, b: m.log(x) / m.log(b) if x > 0 and b > 0 and b != 1 else None, "pow": pos(lambda x, y: m.exp(y * m.log(x))),
        "sqrt": lambda x: m.sqrt(x) if x >= 0 else None, "pi": lambda: +m.pi, "sqrt_two": lambda: m.sqrt(2), "one_over_root_two_pi": lambda: 1 / m.sqrt(2 * m.pi),
        "zero": lambda: 0, "one": lambda: 1, "two": lambda: 2, "half": lambda: mpmath.mpf(1) / 2, "bigd": lambda x: x,
    }


U = ["-2.3", "-1", "-0.71", "-0.5", "-0.37", "0", "0.13", "0.5", "0.501", "0.83", "1", "1.9", "3.7"]
I1 = ["-0.93", "-0.51", "-0.5", "-0.37", "0", "0.13", "0.5", "0.503", "0.77", "0.98"]
PS = ["0.21", "0.55", "0.62", "0.87", "1", "1.2", "1.6"]
SAMPLES = {
    "sin": [(x,) for x in U], "cos": [(x,) for x in U], "tan": [(x,) for x in U], "exp": [(x,) for x in U], "atan": [(x,) for x in U], "asin": [(x,) for x in I1 + ["1", "-1"]], "acos": [(x,) for x in I1 + ["1", "-1"]],
    "erf": [(x,) for x in U], "erfc": [(x,) for x in U], "ln": [(x,) for x in PS + ["-1.3", "0"]], "log": [(x, b) for x in ("0.4", "1", "2.6", "-1") for b in ("0.3", "2", "10", "-2")],
    "pow": [(x, y) for x in ("0.4", "1", "2.6", "-1.5", "0") for y in ("-1.5", "0", "2", "3.3")], "sqrt": [("2",), ("0.37",), ("0",)],
    "dnorm": [(x, m, s) for x in ("-1.7", "0.4", "-6.5", "13", "-15") for m, s in (("0", "1"), ("0.7", "2.5"), ("-1", "0.3")) if not (x in ("13", "-15") and s == "0.3")], "pnorm": [(x, m, s) for x in ("-1.7", "0.4") for m, s in (("0", "1"), ("0.7", "2.5"), ("-1", "0.3"))],
    "pi": [()], "sqrt_two": [()], "one_over_root_two_pi": [()], "zero": [()], "one": [()], "two": [()], "half": [()], "bigd": [("7",), ("-3",)],
}


class Series:
    def __init__(self, leaves, init, folds):
        self.leaves = leaves
        self.init = init
        self.co = []
        self.caps = None

    def coef(self, i, env0):
        while len(self.co) <= i:
            n = len(self.co)
            if self.caps is None:
                self.caps = {k: env0.val(v) for k, v in self.init.items()}
            f = Fraction(1)
            for j in range(2, n + 1):
                f *= j
            c, nxt = self.term(n, Fraction(0), Fraction(1), f, env0)
            t, p = Fraction(3, 7), Fraction(-5, 11)
            d, _ = self.term(n, t, p, f, env0)
            if (c is None) != (d is None) or c is not None and d != t + c * p:
                raise Broken("term %d of the series is not added to the sum as coefficient times power" % n)
            self.co.append(c)
            self.caps = nxt
        return self.co[i]

    def term(self, n, tot, power, fact, env0):
        params = dict(env0.p)
        params.update({"#i": n, "#tot": tot, "#power": power, "#fact": fact})
        params.update(self.caps)
        env, l = choose(self.leaves, lambda f: NumEnv(params, f, env0.on))
        if l[0] == "panic":
            raise Broken("term %d of the series panics" % n)
        v = env.val(l[2])
        if not isinstance(v, E) or v.v not in ("Some", "None"):
            raise Undecided("term of a series")
        return (v.p[0] if v.v == "Some" else None), {k: env.val(l[3][k]) if k in l[3] else self.caps[k] for k in self.caps}

    def value(self, x, env0):
        eps = mpmath.mpf(10) ** -75
        s, p, quiet = mpmath.mpf(0), mpmath.mpf(1), 0
        for i in range(1200):
            c = self.coef(i, env0)
            if c is not None:
                t = nums.fr(c) * p if isinstance(c, Fraction) else c * p
                s += t
                quiet = quiet + 1 if abs(t) < eps else 0
                if quiet > 6:
                    return s
            p *= x
            if i > 30 and all(y is None for y in self.co[:30]):
                return s
        if abs(x) < 1:
            raise Undecided("slow series")
        raise Broken("the series diverges at %s" % mpmath.nstr(x, 8))


class Kernels:
    """formulas of the kernel functions"""

    def __init__(self, p):
        self.p = p
        self.series = {}

    def hook(self, own):
        def h(ip, st, info, args, ctx):
            n = info.rkey or info.key
            if not n.startswith(BD) or "{" in n:
                return None
            n = n[len(BD):]
            if n == "maclaurin":
                return self.maclaurin(ip, st, args, ctx)
            if n in KERNEL:
                return [Leaf(st, "return", T("bd", n, tuple(ip.resolve(st, a) for a in args)))]
            return None

        return h

    def maclaurin(self, ip, st, args, ctx):
        x, nd, f = ip.resolve(st, args[0]), ip.resolve(st, args[1]), args[2]
        f = ip.deref(st, f)
        if not isT(f, "closure"):
            return None
        s0 = st.copy()
        s0.order, s0.b, s0.v, s0.nv = (), {}, {}, {}
        init, cells = {}, []
        for j, c in enumerate(f.a[1]):
            if isT(c, "ref"):
                k = "#cap%d" % j
                init[k] = ip.resolve(st, ip.read(st, c.a[0], c.a[1]))
                cells.append((k, c))
        sy = []
        for k, c in cells:
            ip.write(s0, c.a[0], c.a[1], SYM(k))
        ref = lambda n: ip.ref_to(s0, SYM(n))
        leaves = []
        for l in ip.call_value(f, [SYM("#i"), ref("#tot"), ref("#power"), ref("#fact")], s0, ctx):
            outs = {k: ip.resolve(l.st, ip.read(l.st, c.a[0], c.a[1])) for k, c in cells}
            leaves.append((l.kind, [y for y in l.st.order if y[0] in ("b", "is", "isnot", "forall")], ip.resolve(l.st, l.val) if isinstance(l.val, T) else l.val, outs, l.st.folds))
        key = len(self.series)
        self.series[key] = Series(leaves, init, None)
        return [Leaf(st, "return", T("series", x, nd, INT(key)))]

    def leaves(self, f):
        ip = self.p.interp(hooks=[self.hook(f)], want_panics=True)
        ip.backs = []
        b = self.p.bodies[f]
        st = St()
        args = [ip.wrap_refs(st, b["crate"], b["locals"][i + 1], SYM("p%d" % (i + 1))) for i in range(b["argc"])]
        out = []
        for l in ip.run_body(b, args, st):
            out.append((l.kind, [y for y in l.st.order if y[0] in ("b", "is", "isnot", "forall")], ip.resolve(l.st, l.val) if isinstance(l.val, T) else l.val, {}, l.st.folds))
        backs = []
        for fr, h, s in ip.backs:
            nxt = {}
            for c, v in s.cells.items():
                if c[0] == fr.id:
                    nxt[T("loopvar", fr.body["path"], h, c[1])] = ip.resolve(s, v)
            backs.append((fr.body["path"], h, [y for y in s.order if y[0] in ("b", "is", "isnot", "forall")], nxt, s.folds))
        return out, backs, ip


class KEnv:
    """meaning of kernel terms: called kernels are the mathematical functions"""

    def __init__(self, ks, digits, own=None):
        self.ks = ks
        self.digits = digits
        self.ref = refs()
        self.exact = True

    def digit(self, env, t, what):
        d = env.num(t)
        if d < self.digits:
            raise Broken("%s is computed with %s of %s digits (%s)" % (what, d, self.digits, show(t)[:60]))

    def __call__(self, env, t):
        o, a = t.op, t.a
        if o == "bd":
            n, x = a
            if n == "round":
                self.digit(env, x[1], "a rounding")
                return env.num(x[0])
            if n == "num_digits_for":
                return 20 if env.num(x[0]) == 32 else 40
            if n in ("bigdf", "bigdf32"):
                return env.num(x[0])
            if n in CONST:
                return Fraction(CONST[n])
            if n == "bigd":
                return Fraction(env.num(x[0]))
            if n in self.ref:
                if n in DIG:
                    self.digit(env, x[-1], n)
                    x = x[:-1]
                v = self.ref[n](*[num_mp(env.num(y)) for y in x])
                if n in OPTION:
                    return E("None") if v is None else E("Some", v)
                if v is None or mpmath.im(v) != 0:
                    raise Undecided("outside the domain of " + n)
                return v
            raise Undecided("kernel " + n)
        if o == "series":
            self.digit(env, a[1], "a series")
            return self.ks.series[a[2].a[0]].value(num_mp(env.num(a[0])), env)
        if o == "call":
            n = a[0].split("::")[-1]
            if n == "sqrt" and len(a[1]) == 1:
                x = num_mp(env.num(a[1][0]))
                return E("None") if x < 0 else E("Some", mpmath.sqrt(x))
            if n == "parse":
                s = env.val(a[1][0])
                if isinstance(s, str):
                    try:
                        return E("Ok", Fraction(s))
                    except ValueError:
                        return E("Err", s)
            if n == "from_i32" or n.startswith("from_") and "FromPrimitive" in a[0]:
                return E("Some", env.num(a[1][0]))
        if o in ("float", "flt"):
            return Fraction(str(a[0])) if not isinstance(a[0], (int, float)) else Fraction(a[0])
        return NotImplemented


def num_mp(x):
    if isinstance(x, Fraction):
        return nums.fr(x)
    return mpmath.mpf(x)


def mentions_loop(l):
    return any(x.op == "loopvar" for x in subterms((tuple(map(tuple, l[1])), l[2] if isinstance(l[2], T) else ())))


def samples(r, name):
    s = list(SAMPLES[name])
    if r.tier == "thorough" and s and s[0]:
        import random

        rnd = random.Random(r.seed)
        lo, hi = {"asin": (-1, 1), "acos": (-1, 1), "ln": (0.1, 1.64), "log": (0.2, 9), "pow": (0.2, 4), "sqrt": (0, 9), "bigd": (1, 9)}.get(name, (-4, 4))
        for _ in range(25):
            if name == "bigd":
                break
            t = tuple("%.6f" % rnd.uniform(lo, hi) for _ in s[0])
            if name in ("dnorm", "pnorm"):
                t = t[:2] + ("%.6f" % rnd.uniform(0.2, 3),)
            s.append(t)
    return s


def edges(lv, name):
    """digit counts and arguments next to the constants the paths compare with"""
    ds, cs = set(), set()
    for l in lv:
        for x in subterms((tuple(map(tuple, l[1])), l[2] if isinstance(l[2], T) else ())):
            if x.op in ("lt", "le", "gt", "ge", "eq", "ne", "min", "max") or x.op == "call" and str(x.a[0]).split("::")[-1] in ("min", "max", "clamp"):
                for y in subterms(x.a):
                    c = None
                    if y.op == "int" and isinstance(y.a[0], int):
                        c = Fraction(y.a[0])
                    elif y.op in ("float", "flt"):
                        try:
                            c = Fraction(y.a[0]) if isinstance(y.a[0], (int, float)) else Fraction(str(y.a[0]))
                        except ValueError:
                            continue
                    elif y.op == "bd" and y.a[0] in CONST:
                        c = Fraction(CONST[y.a[0]])
                    if c is None:
                        continue
                    if y.op == "int" and 2 <= abs(c) <= 300:
                        ds |= {abs(int(c)) + 1, abs(int(c)) + 60}
                    if abs(c) < 50:
                        cs |= {c, c + Fraction(1, 10**13), c - Fraction(1, 10**13), -c + Fraction(1, 10**13), -c}
    lo, hi = {"asin": (-1, 1), "acos": (-1, 1), "sqrt": (0, 9)}.get(name, (-40, 40))
    one = [x for x in SAMPLES[name] if len(x) == 1]
    return tuple(sorted({137} | ds))[:5] if name in DIG else (), [("%s" % plainf(c),) for c in sorted(cs)[:24] if lo <= c <= hi] if one and name != "bigd" else []


def plainf(c):
    """decimal text of a fraction"""
    s = "%.30f" % 0 if c == 0 else str(mpmath.nstr(nums.fr(c), 32, min_fixed=-40, max_fixed=40))
    return s


def run(r):
    nums.need()
    mpmath.mp.dps = 230
    p = prog()
    ks = Kernels(p)
    ref = refs()
    n = 0
    for name in SAMPLES:
        f = BD + name
        if not r.anchor("bdmath::" + name, f in p.bodies):
            continue
        where = "doctor-syn/src/bdmath.rs " + name
        try:
            lv, backs, ip = ks.leaves(f)
        except interp_Undecided as x:
            r.undecided(name, str(x)[:200], where)
            continue
        r.saw("kernel paths", len(lv))
        plain = [l for l in lv if not mentions_loop(l)]
        ds, xs = edges(plain, name)
        for digits in ((20, 57, 99, 100, 130, 160, 200) if name == "pi" else (57,) + ds):
            on = KEnv(ks, digits)
            tol = mpmath.mpf(10) ** (-digits + 2) if name == "pi" else mpmath.mpf(10) ** -50
            for args in samples(r, name) + xs if digits in (57, 20) else SAMPLES[name][::3] or [()]:
                n += 1
                key = "%s(%s)" % (name, ",".join(args)) + ("/%d" % digits if name == "pi" or digits != 57 else "")
                vals = [num_mp(Fraction(x)) for x in args]
                want = ref[name](*vals)
                if name == "log" and want is None and float(args[0]) > 0 and args[1] == "1":
                    continue
                params = {"p%d" % (i + 1): (int(v) if name == "bigd" else v) for i, v in enumerate(vals)}
                if name in DIG:
                    params["p%d" % (len(vals) + 1)] = digits
                try:
                    env, l = choose(plain, lambda fo: NumEnv(params, fo, on))
                    if l[0] == "panic":
                        raise Broken("panics when " + "; ".join(show(y[1])[:80] for y in l[1][-2:]))
                    got = env.val(l[2])
                    if isinstance(got, E):
                        got = None if got.v == "None" else got.p[0] if got.v == "Some" else got
                    if want is None or got is None:
                        r.check(key, want is None and got is None, "is %s, not %s" % ("none" if got is None else mpmath.nstr(num_mp(got), 15), "none" if want is None else mpmath.nstr(want, 15)), where, "outside the domain: none")
                        continue
                    if isinstance(got, E):
                        raise Undecided("result")
                    got = num_mp(got)
                    if name == "dnorm" and abs(want) < mpmath.mpf(10) ** -digits and abs(got) < mpmath.mpf(10) ** -digits:
                        r.ok(key, "nothing to %d digits" % digits, where)
                        continue
                    r.check(key, abs(got - want) <= tol * (1 + abs(want)), "the formula of this path gives %s, the function is %s" % (mpmath.nstr(got, 20), mpmath.nstr(want, 20)), where, "formula = function")
                except Broken as x:
                    r.bad(key, str(x), where)
                except (Undecided, NoElem) as x:
                    if backs and "no path applies" in str(x):
                        if want is None and not returns_none_from_loop(lv):
                            r.bad(key, "enters its loop, which only ends with a value, although there is none", where)
                        continue  # goes through the loop: decided below
                    r.undecided(key, str(x)[:200], where)
        if backs:
            n += loops(r, name, lv, backs, ks, where)
    n += qnorm(r, p, ks)
    r.floor("kernel instances", n, 60)
    r.assume("square root and division of the decimal library are exact to the digits asked for (at most about 90)")


def returns_none_from_loop(lv):
    return any(l[0] == "return" and mentions_loop(l) and not (isT(l[2], "ctor") and l[2].a[1] == "Some") for l in lv)


def looped(env0, lvs):
    """evaluate with loop variables bound"""
    env0.el = dict(lvs)
    return env0


def loops(r, name, lv, backs, ks, where):
    """the exit formula is invariant under one iteration"""
    n = 0
    digits = 57
    exits = [l for l in lv if l[0] == "return" and mentions_loop(l)]
    for path, h, facts, nxt, folds in backs:
        n += 1
        key = "%s/loop%d" % (name, n)
        on = KEnv(ks, digits)
        mine = [l for l in exits if any(x.op == "loopvar" and x.a[1] == h for x in subterms(l[2]))]
        if not mine:
            r.undecided(key, "no exit of this loop reads its state", where)
            continue
        used = {x for x in subterms(mine[0][2]) if x.op == "loopvar"}
        done = 0
        try:
            for base in ("0.31", "0.43", "0.58", "1.66", "1.72", "1.81"):
                for ex in ("0", "1.5", "-2.5"):
                    # the first state variable the loop condition reads is the reduced argument
                    conds = [y for y in facts if any(z.op == "loopvar" for z in subterms(tuple(y)))]
                    arg = {z for y in conds for z in subterms(tuple(y)) if z.op == "loopvar"}
                    st0 = {z: (num_mp(Fraction(base)) if z in arg else num_mp(Fraction(ex))) for z in used | arg}
                    params = {"p1": num_mp(Fraction(base)), "p2": digits}
                    env = looped(NumEnv(params, folds, on), st0)
                    if not all(env.fact(y) for y in facts):
                        continue
                    st1 = {z: env.val(nxt[z]) if z in nxt else st0[z] for z in st0}
                    a = unwrap(looped(NumEnv(params, mine[0][4], on), st0).val(mine[0][2]))
                    b = unwrap(looped(NumEnv(params, mine[0][4], on), st1).val(mine[0][2]))
                    done += 1
                    if abs(a - b) > mpmath.mpf(10) ** -45:
                        raise Broken("one iteration changes the value the loop will yield from %s to %s" % (mpmath.nstr(a, 12), mpmath.nstr(b, 12)))
                    if all(st1[z] == st0[z] for z in arg):
                        raise Broken("an iteration does not advance")
                    want = refs()[name](num_mp(Fraction(base)))
                    if name == "ln" and abs(a - (want + num_mp(Fraction(ex)))) > mpmath.mpf(10) ** -45:
                        raise Broken("the loop yields %s for the reduced argument %s with %s split off" % (mpmath.nstr(a, 12), base, ex))
            if not done:
                raise Undecided("no sample satisfies the loop condition")
            r.ok(key, "%d states: the exit formula is invariant" % done, where)
        except Broken as x:
            r.bad(key, str(x), where)
        except (Undecided, NoElem, KeyError) as x:
            r.undecided(key, str(x)[:200], where)
    return n


def unwrap(v):
    if isinstance(v, E) and v.v == "Some":
        v = v.p[0]
    if isinstance(v, E):
        raise Undecided("value")
    return num_mp(v)


def reached(lvs, guess, backs, params, kenv, at):
    """the state after one iteration from a guess and otherwise small values"""
    mine = {x for x in subterms(guess) if x.op == "loopvar"} if not (isinstance(guess, T) and guess.op == "loopvar") else {guess}
    if len(mine) != 1 or len(backs) != 1:
        raise Undecided("state of the search")
    path, h, facts, nxt, folds = backs[0]
    if not lvs <= set(nxt):
        raise Undecided("state of the search")
    env = NumEnv(params, folds, kenv)
    env.el = {v: at if v in mine else num_mp(Fraction(1, 10**6)) for v in lvs}
    return {v: env.num(nxt[v]) for v in lvs}


def qnorm(r, p, ks):
    f = BD + "qnorm"
    if not r.anchor("bdmath::qnorm", f in p.bodies):
        return 0
    where = "doctor-syn/src/bdmath.rs qnorm"
    digits = 57
    try:
        lv, backs, ip = ks.leaves(f)
    except interp_Undecided as x:
        r.undecided("qnorm", str(x)[:200], where)
        return 0
    n = 0
    m, s = num_mp(Fraction("0.7")), num_mp(Fraction("1.9"))
    ref = refs()
    base = {"p2": m, "p3": s, "p4": digits}
    # outside (0, 1): none
    for x in ("-0.5", "0", "1", "1.5"):
        n += 1
        try:
            env, l = choose([l for l in lv if not mentions_loop(l)], lambda fo: NumEnv(dict(base, p1=num_mp(Fraction(x))), fo, KEnv(ks, digits)))
            v = env.val(l[2]) if l[0] == "return" else None
            r.check("qnorm/outside(%s)" % x, isinstance(v, E) and v.v == "None", "a probability of %s is not refused" % x, where, "none")
        except Broken as e:
            r.bad("qnorm/outside(%s)" % x, str(e), where)
        except (Undecided, NoElem) as e:
            if "no path applies" in str(e) and not returns_none_from_loop(lv):
                r.bad("qnorm/outside(%s)" % x, "enters its search, which only ends with a value, although there is none", where)
            else:
                r.undecided("qnorm/outside(%s)" % x, str(e)[:200], where)
    # inside (0, 1) it is never refused
    pl = [l for l in lv if not mentions_loop(l)]
    ins = {Fraction(1, 10**k) for k in (1, 5, 12, 30, 60)} | {1 - Fraction(1, 10**k) for k in (1, 5, 12, 30)} | {Fraction(1, 2)}
    for x in sorted(ins):
        n += 1
        key = "qnorm/inside(%s)" % mpmath.nstr(nums.fr(x), 5)
        try:
            env, l = choose(pl, lambda fo: NumEnv(dict(base, p1=nums.fr(x)), fo, KEnv(ks, digits)))
            if l[0] == "panic":
                raise Broken("panics when " + "; ".join(show(y[1])[:80] for y in l[1][-2:]))
            v = env.val(l[2])
            r.check(key, not (isinstance(v, E) and v.v == "None"), "a probability inside (0, 1) is refused", where, "searched")
        except Broken as e:
            r.bad(key, str(e), where)
        except (Undecided, NoElem) as e:
            if "no path applies" in str(e):
                r.ok(key, "goes to the search", where)
            else:
                r.undecided(key, str(e)[:200], where)
    # the loop is left only at a solution
    for i, l in enumerate(l for l in lv if l[0] == "return" and isT(l[2], "ctor") and l[2].a[1] == "Some"):
        n += 1
        key = "qnorm/exit%d" % i
        lvs = {x for x in subterms((tuple(map(tuple, l[1])), l[2])) if x.op == "loopvar"}
        try:
            hit = 0
            for g in ("-1.1", "0.7", "2.3", "0"):
                gg = num_mp(Fraction(g))
                for d in (0, 1):
                    x = ref["pnorm"](gg, m, s) + d * num_mp(Fraction(1, 10**9))
                    env = NumEnv(dict(base, p1=x), l[4], QEnv(ks, digits))
                    env.el = {v: gg for v in lvs}
                    if len(lvs) > 1:
                        # a state the loop can be in: the one after an iteration
                        env.el = reached(lvs, l[2], backs, dict(base, p1=x), QEnv(ks, digits), gg)
                    if all(env.fact(y) for y in l[1]):
                        hit += 1
                        v = unwrap(env.val(l[2]))
                        if abs(ref["pnorm"](v, m, s) - x) > mpmath.mpf(10) ** -50:
                            raise Broken("the search ends at %s although pnorm is off by %s there" % (mpmath.nstr(v, 8), mpmath.nstr(abs(ref["pnorm"](v, m, s) - x), 3)))
            r.ok(key, "%d states: left only at a solution" % hit, where)
        except Broken as e:
            r.bad(key, str(e), where)
        except (Undecided, NoElem) as e:
            r.undecided(key, str(e)[:200], where)
    # one step is Newton's: the error shrinks quadratically near the solution
    for path, h, facts, nxt, folds in backs:
        n += 1
        key = "qnorm/step"
        lvs = {x for v in nxt.values() for x in subterms(v) if x.op == "loopvar"}
        try:
            ok = 0
            for target in ("-0.9", "0.4", "2.2"):
                t = num_mp(Fraction(target))
                x = ref["pnorm"](t, m, s)
                d0 = num_mp(Fraction(1, 10**6))
                env = NumEnv(dict(base, p1=x), folds, QEnv(ks, digits))
                env.el = {v: t + d0 for v in lvs}
                found = None
                if len(lvs) > 1:
                    found = {y for l in lv if l[0] == "return" and isT(l[2], "ctor") and l[2].a[1] == "Some" for y in subterms(l[2]) if y.op == "loopvar"} & lvs
                    (g,) = found if len(found) == 1 else (None,)
                    if g is None:
                        raise Undecided("which variable is the guess")
                    env.el = reached(lvs, g, backs, dict(base, p1=x), QEnv(ks, digits), t + d0)
                    if abs(env.el[g] - t) > 10 * d0 or abs(env.el[g] - t) < d0 / 1000:
                        raise Undecided("state of the search")
                for v, term in nxt.items():
                    if v in lvs and (found is None or v in found):
                        y = env.num(term)
                        if abs(y - t) > d0 / 100:
                            raise Broken("one step from %s misses the solution %s: %s" % (mpmath.nstr(t + d0, 9), target, mpmath.nstr(y, 9)))
                        ok += 1
            if not ok:
                raise Undecided("no loop variable")
            r.ok(key, "%d steps converge" % ok, where)
        except Broken as e:
            r.bad(key, str(e), where)
        except (Undecided, NoElem) as e:
            r.undecided(key, str(e)[:200], where)
    # the search, from where it starts, finds the solution
    starts = [l for l in lv if l[0] == "return" and isT(l[2], "ctor") and l[2].a[1] == "Some" and not mentions_loop(l)]
    if backs and starts:
        path, h, facts, nxt, folds = backs[0]
        lvs = {x for v in nxt.values() for x in subterms(v) if x.op == "loopvar"}
        for x, m, s in (("0.3", "5", "0.1"), ("0.999", "0", "1"), ("0.000000001", "0", "1"), ("0.6", "-40", "2"), ("0.9999999", "3", "20")):
            n += 1
            key = "qnorm/search(%s,%s,%s)" % (x, m, s)
            try:
                if len(lvs) != 1:
                    raise Undecided("state of the search")
                (v,) = lvs
                params = {"p1": num_mp(Fraction(x)), "p2": num_mp(Fraction(m)), "p3": num_mp(Fraction(s)), "p4": digits}
                g = unwrap(NumEnv(params, starts[0][4], QEnv(ks, digits)).val(starts[0][2]))
                for i in range(100):
                    if abs(ref["pnorm"](g, params["p2"], params["p3"]) - params["p1"]) < mpmath.mpf(10) ** -25:
                        break
                    env = NumEnv(params, folds, QEnv(ks, digits))
                    env.el = {v: g}
                    g = env.num(nxt[v])
                    if abs(g) > 10**6:
                        raise Broken("the search runs away (step %d)" % i)
                else:
                    raise Broken("the search does not end in 100 steps")
                r.ok(key, "found in %d steps" % i, where)
            except Broken as e:
                r.bad(key, str(e), where)
            except (Undecided, NoElem, KeyError) as e:
                r.undecided(key, str(e)[:200], where)
    return n


class QEnv(KEnv):
    def __call__(self, env, t):
        if t.op == "bd" and t.a[0] == "round":
            d = env.num(t.a[1][1])
            if d < self.digits:
                raise Broken("a rounding is computed with %s of %s digits" % (d, self.digits))
            q = mpmath.mpf(10) ** d
            return mpmath.floor(env.num(t.a[1][0]) * q + mpmath.mpf(1) / 2) / q
        return KEnv.__call__(self, env, t)
