from rules.k01 import *

RULE = ("transfer function of the series loop from MIR: entry state (index 0, sum 0, power 1, factorial 1), each back edge advances index, power and factorial by one and adopts the new sum, "
        "the loop is left only in states where the next term no longer changes the sum, and never by aborting before convergence; rounding's paths over (digits, scale) give the nearest value, ties away")


class Dec(Fraction):
    """a decimal with its number of digits after the point"""

    def __new__(cls, v, scale):
        s = Fraction.__new__(cls, v)
        s.scale = scale
        return s

    @classmethod
    def of(cls, text):
        neg = text.startswith("-")
        a, _, b = text.lstrip("-").partition(".")
        v = Fraction(int(a + b), 10 ** len(b))
        return cls(-v if neg else v, len(b))

    def __add__(self, o):
        return Dec(Fraction(self) + Fraction(o), max(self.scale, getattr(o, "scale", 0)))

    def __sub__(self, o):
        return Dec(Fraction(self) - Fraction(o), max(self.scale, getattr(o, "scale", 0)))

    def __mul__(self, o):
        return Dec(Fraction(self) * Fraction(o), self.scale + getattr(o, "scale", 0))

    def __neg__(self):
        return Dec(-Fraction(self), self.scale)

    def __abs__(self):
        return Dec(abs(Fraction(self)), self.scale)


def trunc(v, d):
    q = abs(v) * 10**d
    n = q.numerator // q.denominator
    return Fraction(n if v >= 0 else -n, 10**d) if d >= 0 else Fraction((n if v >= 0 else -n) * 10**-d)


def decimal_ops(env, t):
    """decimal library calls on Dec values"""
    o, a = t.op, t.a
    if o == "bd":
        n, x = a
        if n in CONST:
            return Dec(Fraction(CONST[n]), 1 if n == "half" else 0)
        if n == "bigd":
            return Dec(Fraction(env.num(x[0])), 0)
        raise Undecided("kernel " + n)
    if o == "call":
        n = a[0].split("::")[-1]
        if n in ("into_bigint_and_exponent", "as_bigint_and_exponent"):
            v = env.num(a[1][0])
            if not isinstance(v, Dec):
                raise Undecided("scale")
            return (int(v * 10**v.scale) if v.scale >= 0 else int(v / 10**-v.scale), v.scale)
        if "FromPrimitive" in a[0] and n.startswith("from_"):
            return E("Some", env.num(a[1][0]))
        if "BigDecimal" in a[0]:
            if n == "new":
                i, s = env.num(a[1][0]), env.num(a[1][1])
                return Dec(Fraction(i) * Fraction(10) ** -s, s)
            if n == "with_scale":
                v, s = env.num(a[1][0]), env.num(a[1][1])
                return Dec(trunc(v, s), s)
            if n == "one":
                return Dec(1, 0)
            if n == "zero":
                return Dec(0, 0)
            if n == "digits":
                v = env.num(a[1][0])
                if isinstance(v, Dec):
                    return max(1, len(str(abs(int(v * 10**v.scale)))))
            if n in ("abs", "signum", "normalized", "is_zero", "is_positive", "is_negative", "is_integer"):
                return NotImplemented
            raise Undecided(n)
        if n == "from" and "BigInt" in a[0]:
            return env.num(a[1][0])
        if n == "pow" and len(a[1]) == 2:
            return env.num(a[1][0]) ** env.num(a[1][1])
    return NotImplemented


ROUND = [("1.23456789", 5), ("1.234", 5), ("1.234", 0), ("1.23456000", 5), ("2.5", 0), ("3.5", 0), ("-2.5", 0), ("-0.5", 0), ("0.5", 0), ("0.4999999999999999", 0), ("-0.49999", 0), ("0.05", 1), ("-0.05", 1), ("0.049", 1),
         ("0", 3), ("0.0000", 2), ("9.995", 2), ("-9.995", 2), ("99.999", 2), ("99.9951", 2), ("123456789.987654321", 4), ("-123456789.98765", 4), ("0.00000000000000000000000000000012345", 33), ("7", 0), ("7", 4), ("-7", 4),
         ("0.1", -1), ("15.7", -1), ("1.000000000000000000000000000000000000000049", 40), ("1.00000000000000000000000000000000000000005", 40), ("-1.00000000000000000000000000000000000000015", 40), ("0.006", 2), ("0.0049", 2)]


def rounding(r, p):
    f = BD + "round"
    where = "doctor-syn/src/bdmath.rs round"
    if not r.anchor("bdmath::round", f in p.bodies):
        return 0
    try:
        lv = leaves_of(p, f, [kernel_hook(tuple(k for k in KERNEL if k != "round"))], True)
    except interp_Undecided as x:
        r.undecided("round", str(x)[:200], where)
        return 1
    cases = list(ROUND)
    if r.tier == "thorough":
        rnd = random.Random(r.seed)
        for _ in range(300):
            s = rnd.randint(0, 45)
            cases.append((("-" if rnd.random() < 0.5 else "") + "%d.%0*d" % (rnd.randint(0, 10 ** rnd.randint(1, 9)), max(s, 1), rnd.randrange(10 ** max(s, 1))), rnd.randint(0, 44)))
    for c in bounds([(l[1], l[2]) for l in lv], hi=400):
        for d in (c - 1, c, c + 1):
            if d >= 0:
                cases += [(sg + "3." + "7" * d + tail, d) for sg in ("", "-") for tail in ("5", "49", "7", "")]
                cases += [("-0." + "0" * d + "5", d), ("1" + "0" * abs(c) + ".06", 1)]
    n = 0
    for text, d in cases:
        n += 1
        key = "round(%s,%d)" % (text, d)
        x = Dec.of(text)
        if d < 0 or x.scale <= d:
            want = Fraction(x)
        else:
            q = trunc(abs(Fraction(x)) + Fraction(1, 2 * 10**d), d)
            want = q if x >= 0 else -q

        def mk(fo):
            e = NumEnv({"p1": x, "p2": d}, fo, decimal_ops)
            e.unsigned = False
            return e

        try:
            env, l = choose(lv, mk)
            if l[0] == "panic":
                raise Broken("panics when " + "; ".join(show(y[1])[:80] for y in l[1][-2:]))
            got = Fraction(env.num(l[2]))
            r.check(key, got == want, "rounds to %s, not %s" % (dec(got), dec(want)), where, "nearest, ties away from zero")
        except Broken as x:
            r.bad(key, str(x), where)
        except (Undecided, NoElem) as x:
            r.undecided(key, str(x)[:200], where)
    return n


def dec(f):
    return mpmath.nstr(nums.fr(f), 45)


class Loop:
    """the series loop: state variables identified by the position in which the term function receives them"""

    def __init__(self, ks, p):
        f = BD + "maclaurin"
        ip = p.interp(hooks=[self.hook], want_panics=True)
        ip.backs = []
        b = p.bodies[f]
        st = St()
        args = [ip.wrap_refs(st, b["crate"], b["locals"][i + 1], SYM("p%d" % (i + 1))) for i in range(b["argc"])]
        order = lambda s: [y for y in s.order if y[0] in ("b", "is", "isnot", "forall")]
        self.lv = [(l.kind, order(l.st), ip.resolve(l.st, l.val) if isinstance(l.val, T) else l.val, {}, l.st.folds) for l in ip.run_body(b, args, st)]
        self.backs = []
        for fr, h, s in ip.backs:
            nxt = {}
            for c, v in s.cells.items():
                if c[0] == fr.id:
                    nxt[T("loopvar", fr.body["path"], h, c[1])] = ip.resolve(s, v)
            self.backs.append((order(s), nxt, s.folds))

    def hook(self, ip, st, info, args, ctx):
        n = info.rkey or info.key
        if n.startswith(BD) and n[len(BD):] in KERNEL:
            return [Leaf(st, "return", T("bd", n[len(BD):], tuple(ip.resolve(st, a) for a in args)))]
        return None


def applies(facts, val=None):
    return {x for x in subterms((tuple(map(tuple, facts)), val if isinstance(val, T) else ())) if isT(x, "call") and x.a[0] == "apply"}


def series(r, p, ks):
    f = BD + "maclaurin"
    where = "doctor-syn/src/bdmath.rs maclaurin"
    if f not in p.bodies:
        r.undecided("maclaurin", "the series loop was not found", where)
        return 1
    try:
        lp = Loop(ks, p)
    except interp_Undecided as x:
        r.undecided("maclaurin", str(x)[:200], where)
        return 1
    apps = set()
    for l in lp.lv:
        apps |= applies(l[1], l[2])
    for b in lp.backs:
        apps |= applies(b[0])
    first = [a for a in apps if not any(x.op == "loopvar" for x in subterms(a))]
    rest = [a for a in apps if any(x.op == "loopvar" for x in subterms(a))]
    roles = None
    for a in rest:
        if len(a.a[1]) == 5 and all(isT(x, "loopvar") for x in a.a[1][1:]):
            roles = a.a[1][1:]
    if roles is None or any(a.a[1][1:] != roles for a in rest) or len(first) != 1 or len(first[0].a[1]) != 5:
        r.undecided("maclaurin/shape", "the term function is not called with (index, sum, power, factorial)", where)
        return 1
    n = 0
    cs = bounds([(l[1], l[2]) for l in lp.lv], [(x[0], tuple(x[1].values())) for x in lp.backs])
    ds = {12, 137} | {d for c in cs if abs(c) <= 400 for d in (c - 1, c + 1) if d > 12}
    idx = (0, 1, 2, 3, 7, 24, 150, 700, 1000)
    for D in sorted(ds)[:8]:
        more = sorted({i for c in cs for i in (c - 1, c, c + 1) if i > 3} - set(idx)) if D == 12 else []
        n += states(r, lp, roles, first, where, D, idx if D == 12 else (1, 7, 24, 150), more)
    return n


def states(r, lp, roles, first, where, D, idx, more):
    """entry, steps and exits at D digits"""
    at = "" if D == 12 else "/%d" % D

    def on(answer, state):
        def h(env, t):
            if t.op == "call" and t.a[0] == "apply":
                if t.a[1][1:] == roles or t is first[0]:
                    return answer
                raise Undecided("term function")
            if t.op == "bd" and t.a[0] == "round":
                d = env.num(t.a[1][1])
                if d < D:
                    raise Broken("rounded to %s of %d digits" % (d, D))
                v = env.num(t.a[1][0])
                q = trunc(abs(v) + Fraction(1, 2 * 10**d), d)
                return q if v >= 0 else -q
            if t.op == "bd" and t.a[0] == "bigd":
                return Fraction(env.num(t.a[1][0]))
            if t.op == "bd" and t.a[0] in CONST:
                return Fraction(CONST[t.a[0]])
            if t.op == "call" and "FromPrimitive" in t.a[0]:
                return E("Some", env.num(t.a[1][0]))
            return NotImplemented

        return h

    n = 0

    def mk(fo, params, answer, el):
        e = NumEnv(params, fo, on(answer, None))
        e.unsigned = False
        e.el = dict(el)
        return e

    # entry
    n += 1
    try:
        got = [mk({}, {"p1": Fraction(1, 3), "p2": D}, None, {}).num(x) for x in first[0].a[1][1:]]
        r.check("maclaurin/entry" + at, got == [0, 0, 1, 1], "the loop starts at index, sum, power, factorial = %s" % got, where, "index 0, sum 0, power 1, factorial 1")
    except Broken as x:
        r.bad("maclaurin/entry" + at, str(x), where)
    except (Undecided, NoElem) as x:
        r.undecided("maclaurin/entry" + at, str(x)[:200], where)
    # steps and exits
    tiny = Fraction(1, 10**D)
    looped_lv = [l for l in lp.lv if any(x.op == "loopvar" for x in subterms((tuple(map(tuple, l[1])), l[2] if isinstance(l[2], T) else ())))]
    plain_lv = [l for l in lp.lv if l not in looped_lv]
    for i in tuple(idx) + tuple(more):
        for x in (Fraction(3, 7), Fraction(-5, 3)):
            power = Fraction(i + 1, i + 3) if i else Fraction(1)
            fact = Fraction(1)
            for j in range(2, min(i, 30) + 1):
                fact *= j
            tot = Fraction(41, 64) if i else Fraction(0)
            for kind, delta in (("none", None), ("half", Fraction(1, 2)), ("1e-6", Fraction(1, 10**6)), ("1e-9", Fraction(-1, 10**9)), ("last", -2 * tiny), ("near", Fraction(2, 5) * tiny), ("same", Fraction(0))):
                n += 1
                key = "maclaurin/step(i=%d,x=%s,%s)%s" % (i, x, kind, at)
                el = dict(zip(roles, (i, tot, power, fact)))
                params = {"p1": x, "p2": D}
                ans = E("None") if delta is None else E("Some", tot + delta)
                try:
                    if i == 0:
                        # first iteration: only the exits are visible
                        try:
                            env, l = choose(plain_lv, lambda fo: mk(fo, params, ans, {}))
                        except Undecided:
                            l = None
                    else:
                        # facts of earlier iterations do not concern this state
                        l, env = None, None
                        for c in looped_lv:
                            e = mk(c[4], params, ans, el)
                            fs = [y for y in c[1] if not any(z is first[0] for z in subterms(tuple(y)))]
                            if all(e.fact(y) for y in fs):
                                l, env = c, e
                                break
                    if l is not None and l[0] == "panic" and i > 5000:
                        r.ok(key, "gives up after %d terms" % i, where)
                        continue
                    if l is not None and l[0] == "panic":
                        raise Broken("aborts at term %d (%s)" % (i, "; ".join(show(y[1])[:60] for y in l[1][-1:])))
                    if l is not None:
                        v = env.num(l[2])
                        if delta is None or abs(delta) > tiny / 20:
                            raise Broken("stops although the term added %s" % (delta,))
                        if abs(v - tot) > 5 * tiny:
                            raise Broken("yields %s for the sum %s" % (float(v), float(tot)))
                        r.ok(key, "stops at the sum", where)
                        continue
                    if kind == "same" and i >= 24:
                        raise Undecided("does not stop at once when a term vanishes")
                    if i == 0:
                        r.ok(key, "goes on", where)
                        continue
                    took = 0
                    for facts, nxt, folds in lp.backs:
                        e = mk(folds, params, ans, el)
                        if not all(z in nxt for z in roles):
                            continue
                        fs = [y for y in facts if not any(z is first[0] for z in subterms(tuple(y)))]
                        if not fs or not all(e.fact(y) for y in fs):
                            continue
                        took += 1
                        g = [e.num(nxt[z]) for z in roles]
                        if g[0] != i + 1:
                            raise Broken("index %d is followed by %s" % (i, g[0]))
                        want = tot if delta is None else tot + delta
                        if abs(g[1] - want) > tiny:
                            raise Broken("the sum becomes %s, not %s" % (float(g[1]), float(want)))
                        if abs(g[2] - power * x) > tiny:
                            raise Broken("the power becomes %s, not %s" % (float(g[2]), float(power * x)))
                        if g[3] != fact * (i + 1):
                            raise Broken("the factorial is multiplied by %s, not %d" % (g[3] / fact, i + 1))
                    if not took:
                        raise Undecided("no back edge applies")
                    r.ok(key, "advances", where)
                except Broken as y:
                    r.bad(key, str(y), where)
                except (Undecided, NoElem) as y:
                    r.undecided(key, str(y)[:200], where)
    return n


def run(r):
    nums.need()
    mpmath.mp.dps = 80
    p = prog()
    n = rounding(r, p)
    n += series(r, p, Kernels(p))
    import rules.k02f

    n += rules.k02f.ieee(r, p)
    r.floor("loop states and roundings", n, 60)
    r.assume("the decimal library's with_scale truncates and its other operations are exact")
