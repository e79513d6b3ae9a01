from rules.libcommon import *
from denot import *
import nums

RULE = ("denotation of the emitted templates: each generated function body is evaluated over the reals to guarded normal forms (lets inlined, interpolated approximations replaced by the function they "
        "approximate, bit tricks by the powers of two they encode) and must equal the reference meaning of its name in every jointly feasible case; iterative functions must be refinements with the exact "
        "value as fixed point and at least quadratic order")

# reference meanings; parameters in order
REF = {
    "exp2": ("x", "if x > EXP2_MAX { INFINITY } else if round(x) < EXP2_MIN { 0.0 } else { x.exp2() }"),
    "exp": ("x", "x.exp()"),
    "exp_m1": ("x", "x.exp() - 1.0"),
    "ln_1p": ("x", "(1.0 + x).ln()"),
    "log2": ("x", "if x < 0.0 { NAN } else if x < MIN_POSITIVE { -INFINITY } else { x.log2() }"),
    "ln": ("x", "x.ln()"),
    "log10": ("x", "x.log10()"),
    "log": ("x, b", "x.ln() / b.ln()"),
    "powf": ("x, y", "x.powf(y)"),
    "powi": ("x, y", "if x < 0.0 && (y & 1) != 0 { -((-x).powf(y)) } else { x.abs().powf(y) }"),
    "sinh": ("x", "x.sinh()"),
    "cosh": ("x", "x.cosh()"),
    "tanh": ("x", "x.tanh()"),
    "asinh": ("x", "x.asinh()"),
    "acosh": ("x", "if x < 1.0 { NAN } else { x.acosh() }"),
    "atanh": ("x", "x.atanh()"),
    "sin": ("x", "x.sin()"),
    "cos": ("x", "x.cos()"),
    "tan": ("x", "x.tan()"),
    "sin_cos": ("x", "(x.sin(), x.cos())"),
    "asin": ("x", "x.asin()"),
    "acos": ("x", "x.acos()"),
    "atan": ("x", "x.atan()"),
    "atan2": ("y, x", "y.atan2(x)"),
    "hypot": ("x, y", "x.hypot(y)"),
    "dnorm": ("x, m, s", "x.dnorm(m, s)"),
    "qnorm": ("p, m, s", "p.qnorm(m, s)"),
    "rnorm": ("i, m, s", "runif(i, A, B).qnorm(m, s)"),
    "runif": ("index, a, b", "index"),
    "round": ("x", "(x + (0.5).copysign(x)) as ity as fty"),
    "negate_on_odd": ("x, y", "fty::from_bits(((((x as ity) & 1) << SIGNSHIFT) as uty) ^ y.to_bits())"),
    "nextafter": ("x", "fty::from_bits(x.to_bits() + 1)"),
    "sqrt_approx": ("x", "sqrt"),
    "recip_approx": ("x", "recip"),
    "cbrt_approx": ("x", "cbrt"),
}
REFINE = {"sqrt": 2, "cbrt": 2, "recip": 2}
POWER = {"sqrt_approx": F(1, 2), "recip_approx": F(-1), "cbrt_approx": F(1, 3)}


def run(r):
    g = load(r)
    if g is None:
        return
    n = 0
    for e, b, it, k in each(r, g, "means"):
        if e["name"] not in REF and e["name"] not in REFINE:
            continue
        fs = [i for i in it if i.op == "ifn" and i.a[0] == e["name"]]
        if len(fs) != 1:
            r.undecided(k, "no single function %s" % e["name"], where(g, e))
            continue
        items = {}
        for d in g.entries:
            if d["gen"] and d["name"] not in REF and d["name"] not in REFINE:
                try:
                    for i in g.items(d, b):
                        if isinstance(i.a[0], str):
                            items.setdefault(i.a[0], i)
                except NoGen:
                    pass
        for i in it:
            if i is not fs[0] and isinstance(i.a[0], str):
                items[i.a[0]] = i
        n += 1
        try:
            if e["name"] in REFINE:
                refine(r, g, e, b, fs[0], items, k)
            elif e["name"] in POWER:
                power(r, g, e, b, fs[0], items, k)
            else:
                compare(r, g, e, b, fs[0], items, k)
                if e["name"] == "atan2":
                    for z in (0, 1):
                        compare(r, g, e, b, fs[0], items, k + "/axis", {z: R(0)})
        except (No, OverflowError, ParseError) as x:
            r.undecided(k, "not in the modelled subset: %s" % x, where(g, e))
    r.floor("function denotations", n, 30)
    r.assume("real arithmetic: rounding, overflow and NaN inputs are not modelled")
    r.assume("an interpolated polynomial equals the function it approximates on the requested domain")


def args_for(f, names, b):
    out = []
    for p, n in zip(f.a[1], names):
        t = p.a[1] if isinstance(p.a[1], str) else show(p.a[1])
        t = t.strip("` ")
        out.append(A("intvar", n) if t in ("usize", "ity", "i32", "i64", "u32", "u64") else var_(n))
    return out


def var_(n):
    return cas.var(n)


def compare(r, g, e, b, f, items, k, at={}):
    names, text = REF[e["name"]]
    names = [x.strip() for x in names.split(",")]
    if len(f.a[1]) != len(names):
        r.bad(k, "%s takes %d parameters instead of %d (%s)" % (e["name"], len(f.a[1]), len(names), ", ".join(names)), where(g, e))
        return
    vals = [at.get(i, x) for i, x in enumerate(args_for(f, names, b))]
    ev = Eval(b, items)
    leaves = ev.fn(f, Signs(), vals)
    ref = rust_expr("{ " + text + " }" if not text.startswith("{") else text)
    if e["name"] == "runif":
        return runif(r, g, e, b, leaves, vals, k)
    if e["name"] == "rnorm":
        return rnorm(r, g, e, b, f, leaves, vals, k)
    bad = open_ = None
    m = 0
    for S, v in leaves:
        rv = Eval(b, items)
        env = dict(zip(names, vals))
        env["SIGNSHIFT"] = R(b - 1)
        for S2, w in rv.expr(ref, env, S):
            # both re-evaluated under everything that is known
            v2s = Eval(b, items).fn(f, S2, vals)
            for S3, v2 in v2s:
                for S4, w2 in Eval(b, items).expr(ref, env, S3):
                    m += 1
                    try:
                        same_ = equal(v2, w2, S4)
                    except No as x:
                        same_ = x
                    if same_ is True:
                        continue
                    a = agree(v2, w2, S4, vals, b)
                    if a == "no" or a == "open" and same_ is False:
                        bad = (S4, v2, w2)
                    elif a == "open":
                        open_ = same_
    if bad is None and open_ is not None:
        raise open_
    r.check(k, bad is None and m > 0, bad and "%s must be %s but is %s%s" % (e["name"], bad[2].show()[:300], bad[1].show()[:400], cases(bad[0])) or "no case", where(g, e), "%d cases equal" % m)


def cases(S):
    sg = {frozenset({-1}): "< 0", frozenset({1}): "> 0", frozenset({0}): "= 0", frozenset({-1, 0}): "<= 0", frozenset({0, 1}): ">= 0", frozenset({-1, 1}): "!= 0"}
    return "" if not S.f else " when " + " and ".join("%s %s" % (p.show()[:80], sg.get(t, t)) for p, t in S.f)


def equal(v, w, S):
    if same(v, w):
        return True
    z = {}
    for p, t in S.f:
        if t == frozenset({0}) and p.laurent() and len(p.n) == 1 and len(list(p.n)[0]) == 1:
            z[list(p.n)[0][0][0]] = R(0)
    if z and isinstance(v, Rat) and isinstance(w, Rat):
        try:
            v, w = cas.subst(v, z), cas.subst(w, z)
        except ArithmeticError:
            raise No("value at zero")
        if same(v, w):
            return True
    if isinstance(v, Rat) and isinstance(w, Rat):
        # nonnegative square roots of equal squares
        if isroot(w):
            if tiny(v, S):
                return True
            if v * v == w * w and nonneg(v, S):
                return True
    return False


GRID = [F(x) for x in ("0", "1/1000000000", "1/10", "3/10", "1/2", "7/10", "71/100", "9/10", "1", "3/2", "23/10", "77/10", "1003/10")]


def numval(v, env):
    """a number, "nan", or None when the term has no numeric meaning here"""
    if not isinstance(v, Rat):
        return v.show() if isinstance(v, Sp) else None
    try:
        x = nums.rat(v, env)
    except ZeroDivisionError:
        return "div"
    except (No, ValueError, OverflowError, TypeError, KeyError):
        return None
    if not isinstance(x, nums.mpf):
        return "nan" if getattr(x, "imag", 0) else nums.mpf(getattr(x, "real", x))
    if nums.mpmath.isinf(x):
        return "inf" if x > 0 else "-inf"
    return "nan" if nums.mpmath.isnan(x) else x


def agree(v, w, S, vals, b):
    """terms the algebra cannot identify, but which have the same value wherever the conditions of the case hold among the sampled arguments:
    "yes", "no" (a sampled argument of the case tells them apart), or "open" (no argument sampled, or no numeric meaning)"""
    try:
        nums.need()
    except No:
        return "open"
    atoms, cands = [], []
    for x in vals:
        if isinstance(x, Rat) and x.const() is not None:
            continue
        ks = x.atoms() if isinstance(x, Rat) else ()
        if len(ks) != 1:
            return "open"
        a = list(ks)[0]
        atoms.append(a)
        if cas.ATOMS[a][0] == "intvar":
            cands.append([F(k) for k in (0, 1, -1, 2, -2, 3, -3, 6, -7, 40)])
            continue
        c = set(GRID) | {-g for g in GRID}
        for p, _ in S.f:
            if p.laurent() and set(m for m in p.n if m) == {((a, F(1)),)}:
                z = -p.n.get((), F(0)) / p.n[((a, F(1)),)]
                c |= {z, z + F(1, 10 ** 7), z - F(1, 10 ** 7), z * F(9, 10), z * F(11, 10)}
        cands.append(sorted(c, key=lambda q: (abs(q), q)))
    fixed = {cas.atom_id("MIN_POSITIVE"): nums.mpf(2) ** (-126 if b == 32 else -1022)}
    n = sing = 0
    import random
    rnd = random.Random(1)
    pts = [()]
    for c in cands:
        pts = [p + (x,) for p in pts for x in c]
    if len(pts) > 1500:
        keep = [p for p in pts if len(set(map(abs, p))) < len(p)][:300]
        pts = keep + rnd.sample(pts, 1200)
    sgn = lambda x: 0 if x == 0 else 1 if x > 0 else -1
    for pt in pts:
        env = dict(fixed)
        env.update({a: nums.fr(x) for a, x in zip(atoms, pt)})
        ok = True
        for p, t in S.f:
            x = numval(p, env)
            if x is None:
                return "open"
            if isinstance(x, str) or (sgn(x) if abs(x) > nums.mpf(10) ** -45 else 0) not in t:
                ok = False
                break
        if not ok:
            continue
        x, y = numval(v, env), numval(w, env)
        if x is None or y is None:
            return "open"
        if isinstance(x, str) or isinstance(y, str):
            if "div" in (x, y):
                sing += 1
            elif x != y:
                return "no"
        elif abs(x - y) > nums.mpf(10) ** -30 * (1 + abs(y)):
            return "no"
        else:
            n += 1
    return "yes" if n + sing else "open"


def isroot(w):
    return w.laurent() and len(w.n) == 1 and any(cas.ATOMS[a][0] == "root" for a, _ in list(w.n)[0])


def nonneg(v, S):
    return S.sign(v) <= {0, 1}


def tiny(v, S):
    """a case guarded by |v| <= MIN_POSITIVE, where the value is v itself"""
    mp = A("MIN_POSITIVE")
    for p, t in S.f:
        if t <= {-1, 0} and (p == v - mp or p == -v - mp):
            return True
    return False


def bitrange(v, ev):
    """(lowest, highest) of an unsigned integer term made of bit operations; None when unknown"""
    c = v.const()
    if c is not None:
        return (int(c), int(c)) if c.denominator == 1 and c >= 0 else None
    if not v.laurent() or len(v.n) != 1:
        return None
    (m, c), = v.n.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    n, ar = cas.ATOMS[m[0][0]]
    W = 2 ** ev.bits
    if n == "shr":
        s = ar[1].const()
        if s is None or s < 0 or s.denominator != 1:
            return None
        x = bitrange(ar[0], ev)
        hi = x[1] if x else 2 ** 64 - 1
        return (0, hi >> int(s))
    if n == "lo32":
        x = bitrange(ar[0], ev)
        return x if x and x[1] < 2 ** 32 else (0, 2 ** 32 - 1)
    if n == "and":
        hs = [bitrange(x, ev) for x in ar]
        hs = [h[1] for h in hs if h]
        return (0, min(hs)) if hs else None
    if n == "or":
        hs = [bitrange(x, ev) for x in ar]
        if None in hs:
            return None
        lo = max(h[0] for h in hs)
        # a constant operand whose bits cover everything above the other operand's own bits
        for x, h in zip(ar, hs):
            o = hs[1] if x is ar[0] else hs[0]
            if h[0] == h[1]:
                k = h[0]
                low = k & -k if k else 1 << 70
                top = 1 << o[1].bit_length()
                # bits of the other operand at or above the lowest set bit of k are absorbed when k has all of them
                absorbed = all(k >> i & 1 for i in range(low.bit_length() - 1, o[1].bit_length()))
                if absorbed:
                    return (k, k + min(o[1], low - 1))
        return (lo, (1 << max(h[1].bit_length() for h in hs)) - 1)
    return None


def deps(v):
    out = set()
    for a in v.atoms():
        n, ar = cas.ATOMS[a]
        if n in ("var", "intvar"):
            out.add(ar[0])
        for x in ar:
            if isinstance(x, Rat):
                out |= deps(x)
    return out


def runif(r, g, e, b, leaves, vals, k):
    """a + u * (b - a) with u = (a float in [1, 2) made of bits of the index) - 1"""
    ok, msg = bool(leaves), "no value"
    for S, v in leaves:
        if not isinstance(v, Rat):
            ok, msg = False, "runif is " + v.show()
            break
        fb = [a for a in v.atoms() if cas.ATOMS[a][0] == "frombits"]
        if len(fb) != 1:
            raise No("no single float made of bits in " + v.show()[:200])
        t = Rat({((fb[0], F(1)),): F(1)})
        if not v == (t - 1) * (vals[2] - vals[1]) + vals[1]:
            ok, msg = False, "runif must map a mantissa m in [1, 2) to min + (m - 1) * (max - min); is " + v.show()[:400]
            break
        E = cas.ATOMS[fb[0]][1][0]
        ev = Eval(b, {})
        br = bitrange(E, ev)
        if br is None:
            raise No("bit range of " + E.show()[:200])
        one, man = (127 << 23, 23) if b == 32 else (1023 << 52, 52)
        if not (one <= br[0] and br[1] < one + 2 ** man):
            ok, msg = False, "the bits of the uniform variate must encode a number in [1, 2): they range over %#x to %#x" % br
            break
        if br[1] - br[0] < 2 ** man - 1:
            ok, msg = False, "the uniform variate only takes values up to %g of its range" % float(F(br[1] - br[0], 2 ** man))
            break
        if deps(E) != {vals_name(vals[0])}:
            ok, msg = False, "the random bits must depend on the index alone; they depend on %s" % sorted(deps(E))
            break
    r.check(k, ok, msg, where(g, e), "bits within [1, 2)")


def vals_name(v):
    return cas.ATOMS[list(v.atoms())[0]][1][0]


def rnorm(r, g, e, b, f, leaves, vals, k):
    ok = True
    msg = ""
    for S, v in leaves:
        if not isinstance(v, Rat):
            ok, msg = False, "rnorm is " + v.show()
            continue
        q = [a for a in v.atoms() if cas.ATOMS[a][0] == "qnorm"]
        if len(q) != 1:
            ok, msg = False, "rnorm must be one quantile of a uniform variate, is " + v.show()[:300]
            continue
        u = cas.ATOMS[q[0]][1][0]
        U = A("runif01", vals[0])
        Q = Rat({((q[0], F(1)),): F(1)})
        if not v == Q * vals[2] + vals[1]:
            ok, msg = False, "rnorm must scale its quantile by sigma and shift it by the mean, is " + v.show()[:300]
            continue
        # u = U*(hi-lo)+lo inside the open unit interval
        if u.laurent():
            lo = u.n.get((), F(0))
            c = u.n.get(((cas.atom_id("runif01", vals[0]), F(1)),))
            if c is None or len(u.n) - (1 if () in u.n else 0) != 1:
                ok, msg = False, "the uniform variate of rnorm must be runif of the index, is " + u.show()[:200]
            elif not (0 <= lo and lo + c <= 1 and c > 0):
                ok, msg = False, "the uniform variate of rnorm leaves the unit interval: %s to %s" % (fl(lo), fl(lo + c))
            elif not (c > F(9, 10)):
                ok, msg = False, "the uniform variate of rnorm covers only %s of the unit interval" % fl(c)
    r.check(k, ok and leaves, msg, where(g, e))


def fl(x):
    return "%.6g" % float(x)


def power_factor(g, items, n, b):
    """the constant c of an estimate function that returns c * 2^(s*lgb|x|) with the right sign; (c, message)"""
    f = items.get(n)
    if f is None or f.op != "ifn":
        raise No("no function " + n)
    s = POWER[n]
    x = var_("x")
    cs = set()
    for S, v in Eval(b, items).fn(f, Signs(), [x]):
        if not isinstance(v, Rat):
            raise No("value " + v.show())
        at = set(v.atoms())
        for a in list(at):
            m, ar = cas.ATOMS[a]
            if m == "absu" and isinstance(ar[0], Rat):
                at |= ar[0].atoms()
        bs = [a for a in at if cas.ATOMS[a][0] == "bits2"]
        if len(bs) != 1:
            raise No("no single bit-level estimate in " + v.show()[:200])
        q = cas.ATOMS[bs[0]][1][0]
        ax = x if S.sign(x) <= NNEG else -x
        want = A("lgb", ax) * s
        if not q == want:
            return None, "%s must scale the exponent of |x| by %s; its bit pattern encodes 2^(%s)%s" % (n, s, q.show()[:200], cases(S))
        y = Rat({((bs[0], F(1)),): F(1)})
        core, sg = v, 1
        if v.laurent() and len(v.n) == 1:
            (m, c), = v.n.items()
            if len(m) == 1 and cas.ATOMS[m[0][0]][0] == "absu" and abs(c) == 1:
                core, sg = cas.ATOMS[m[0][0]][1][0], int(c)
                if scalar_lead(core, bs[0]) < 0:
                    core = -core
        c = (core / y).const()
        if c is None or c == 0:
            return None, "%s must be a constant multiple of its bit-level estimate (a relative error that does not depend on x), is %s" % (n, v.show()[:200])
        if s != F(1, 2):
            pos = S.sign(x) <= NNEG
            if (c * sg > 0) != pos:
                return None, "%s must have the sign of x, is %s%s" % (n, v.show()[:200], cases(S))
            c = abs(c)
        cs.add(c)
    if len(cs) != 1:
        raise No("different factors")
    c = cs.pop()
    return c, None


DELTA = 0.0860713321  # maximum of log2(1+m) - m on [0, 1]


def estimate_error(n, c):
    s = float(POWER[n])
    lo, hi = (-s * DELTA, DELTA) if s > 0 else (0.0, (1 - s) * DELTA)
    return max(abs(float(c) * 2 ** lo - 1), abs(float(c) * 2 ** hi - 1))


def power(r, g, e, b, f, items, k):
    items = dict(items)
    items[e["name"]] = f
    c, msg = power_factor(g, items, e["name"], b)
    if c is None:
        r.bad(k, msg, where(g, e))
        return
    E = estimate_error(e["name"], c)
    r.check(k, E < 0.15, "the estimate %s can be wrong by %.1f%%" % (e["name"], E * 100), where(g, e), "relative error at most %.1f%%" % (E * 100))


def scalar_lead(p, a):
    return p.n.get(((a, F(1)),), F(0))


def refine(r, g, e, b, f, items, k):
    """substitute estimate := exact*(1+eps); the result must be exact + O(eps^2)"""
    n = e["name"]
    eps = cas.var("eps")
    deg = {"sqrt": 2, "cbrt": 3, "recip": -1}[n]
    worst = None
    lead = 0
    err = 0
    for sg in (1,) if n == "sqrt" else (1, -1):
        for q in (R(1), R(2)):
            X = (q ** deg) * sg
            ev = RefEval(b, items, n, q, q + q * eps, sg, X)
            for S2, v in ev.fn(f, Signs(), [X]):
                if not isinstance(v, Rat):
                    raise No("value " + v.show())
                w = wrong(v)
                if w:
                    r.bad(k, "%s refines an estimate of something else: %s instead of 2^(%s*log2|x|)" % (n, w, ev.s), where(g, e))
                    return
                if v.atoms() - {EPSID()}:
                    v = strip_abs(v, sg)
                want = q * sg
                o = order(v - want)
                if o is None:
                    raise No("order of " + (v - want).show()[:150])
                if not ev.used and not v == want:
                    raise No("no estimate is refined")
                worst = o if worst is None else min(o, worst)
                d = v - want
                err = max(err, ev.err)
                lead = max(lead, bound(d, ev.err) / abs(float(at0(want))))
    if worst is None:
        raise No("no value")
    if worst >= REFINE[n] and err:
        r.check(k + "/precision", lead <= 2.0 ** (-22 if b == 32 else -51), "%s stops refining too early: an estimate with a relative error of up to %.3g leaves a relative error of %.3g in the result" % (n, err, lead),
                where(g, e), "remaining relative error %.2g" % lead)
    r.check(k, worst >= REFINE[n], "%s must refine its estimate towards the exact value with at least quadratic order; with a relative error eps of the estimate the error of the result is O(eps^%s)%s"
            % (n, worst, "" if worst else ", i.e. the exact value is not a fixed point"), where(g, e), "error order eps^%s" % (worst if worst < NSER else "at least %d" % NSER))


def wrong(v, seen=None):
    for a in v.atoms():
        n, ar = cas.ATOMS[a]
        if n.startswith("wrongestimate"):
            return "2^(%s)" % ar[0].show() if n == "wrongestimate" else "%s(%s)" % (n[14:], ar[0].show())
        for x in ar:
            if isinstance(x, Rat):
                w = wrong(x)
                if w:
                    return w
    return None


NSER = 20


def bound(d, E):
    """bound of the truncated error series on |eps| <= E"""
    n = coeffs(d.n)
    if n is None or d.d is not None:
        raise No("error series")
    return sum(abs(float(sum(v.values()))) * E ** k for k, v in n.items())


def EPSID():
    return cas.atom_id("var", "eps")


def series(v):
    """truncated power series in eps of a value in eps alone"""
    if not isinstance(v, Rat) or v.atoms() != {EPSID()}:
        return v
    n, d = coeffs(v.n), coeffs(v.d or cas.ONEP)
    if n is None or d is None:
        return v
    n = [n.get(i, {}).get((), F(0)) for i in range(NSER)]
    d = [d.get(i, {}).get((), F(0)) for i in range(NSER)]
    if d[0] == 0:
        return v
    out = []
    for i in range(NSER):
        out.append((n[i] - sum(out[j] * d[i - j] for j in range(i))) / d[0])
    e = EPSID()
    return Rat({(((e, F(i)),) if i else ()): c for i, c in enumerate(out) if c})


def strip_abs(v, sg):
    """+-|u| where u is a perturbation of a positive number"""
    if v.laurent() and len(v.n) == 1:
        (m, c), = v.n.items()
        if len(m) == 1 and cas.ATOMS[m[0][0]][0] == "absu":
            u = cas.ATOMS[m[0][0]][1][0]
            lead = at0(u)
            if lead is not None:
                return (u if lead > 0 else -u) * c
    raise No("value " + v.show()[:200])


EPS = None


def coeffs(p):
    """polynomial in eps: {power: {rest: c}}"""
    ie = cas.atom_id("var", "eps")
    out = {}
    for m, c in p.items():
        d = dict(m)
        k = d.pop(ie, F(0))
        if k < 0 or k.denominator != 1:
            return None
        out.setdefault(int(k), {})[tuple(sorted(d.items()))] = c
    return {k: {m: c for m, c in v.items() if c} for k, v in out.items()}


def order(q):
    """order of vanishing in eps of a rational function whose denominator does not vanish at eps = 0"""
    n = coeffs(q.n)
    d = coeffs(q.d or cas.ONEP)
    if n is None or d is None:
        return None
    if not q.n:
        return 99
    dn = min(k for k, v in d.items() if v)
    nn = min(k for k, v in n.items() if v)
    return nn - dn


def at0(u):
    n, d = coeffs(u.n), coeffs(u.d or cas.ONEP)
    if n is None or d is None or 0 not in n or 0 not in d:
        return None
    if len(n[0]) != 1 or len(d[0]) != 1:
        return None
    return list(n[0].values())[0] / list(d[0].values())[0]


class RefEval(Eval):
    def __init__(self, b, items, name, rho, est, sg, X):
        super().__init__(b, items)
        self.nm, self.rho, self.est, self.sg, self.X, self.used = name, rho, est, sg, X, 0
        self.s = {"sqrt": F(1, 2), "cbrt": F(1, 3), "recip": F(-1)}[name]
        self.err = 0
        self.fac = {}

    def bin(self, o, a, b):
        return series(super().bin(o, a, b))

    def method(self, n, vs, S):
        return [(s, series(v)) for s, v in super().method(n, vs, S)]

    def call(self, n, vs, S):
        if n in POWER and len(vs) == 1:
            if not (vs[0] == self.X):
                raise No("estimate of another argument")
            if POWER[n] != self.s:
                # the estimate of a different function is not an estimate of this one
                return [(S, A("wrongestimate_" + n, vs[0]))]
            self.used += 1
            try:
                own = {i.a[0]: i for i in gen().items(gen().by[n], self.bits) if isinstance(i.a[0], str)}
            except (KeyError, NoGen, Undecided):
                raise No("no generated " + n)
            c, msg = power_factor(None, {**self.items, **own}, n, self.bits)
            if c is None:
                raise No(msg)
            self.err = max(self.err, estimate_error(n, c))
            return [(S, self.est * (self.sg if n != "sqrt_approx" else 1))]
        return super().call(n, vs, S)

    def from_bits(self, v):
        if isinstance(v, Bits) and v.k == "num":
            q = (v.u - self.c["EXP2_ONE"]) / self.c["EXP2_SCALE"]
            ax = self.X * self.sg
            if q == A("lgb", ax) * self.s:
                self.used += 1
                self.err = max(self.err, estimate_error(self.nm + "_approx", 1))
                return self.est
            if any(cas.ATOMS[k][0] == "lgb" for k in q.atoms()):
                return A("wrongestimate", q)
        return super().from_bits(v)
