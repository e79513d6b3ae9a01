import random
from fractions import Fraction
from rules.evalcommon import *
from interp import Leaf, St
import models
from numev import *
from load import prog
from interp import Undecided as interp_Undecided

RULE = ("loop recurrences of the interpolation code (nested fold/store terms over index ranges, extracted from MIR) as exact rational maps: for k points at generic "
        "rational positions the coefficients must be exactly those of the polynomial through the points, and the evaluation of a coefficient list must be its "
        "polynomial; rounding counts as identity but every rounding keeps at least the requested digits")

PM = "doctor_syn::polynomial::"
KERNEL = ("round", "bigd", "bigdf", "bigdf32", "num_digits_for", "zero", "one", "two", "half", "pi", "sin", "cos", "tan", "exp", "sqrt", "atan", "asin", "acos", "ln", "log", "pow", "erf", "erfc",
          "dnorm", "pnorm", "qnorm", "round_ieee", "sqrt_two", "one_over_root_two_pi")


def kernel_hook(keep=KERNEL):
    """known kernel functions stay uninterpreted; helpers are inlined"""

    def hook(ip, st, info, args, ctx):
        n = info.rkey or info.key
        if n.startswith(BD) and n[len(BD):] in keep:
            return [Leaf(st, "return", T("bd", n[len(BD):], tuple(ip.resolve(st, a) for a in args)))]
        return None

    return hook


def leaves_of(p, f, hooks, panics=False):
    """leaves of f on symbolic parameters with, for each, the final values of its &mut parameters"""
    ip = p.interp(hooks=hooks, want_panics=panics)
    b = p.bodies[f]
    st = St()
    args = [ip.wrap_refs(st, b["crate"], b["locals"][i + 1], SYM("p%d" % (i + 1))) for i in range(b["argc"])]
    out = []
    for l in ip.run_body(b, args, st):
        outs = {}
        for i, a in enumerate(args):
            if isT(a, "ref"):
                v = ip.resolve(l.st, models.val(ip, l.st, a))
                if v is not SYM("p%d" % (i + 1)):
                    outs[i] = v
        facts = [f for f in l.st.order if f[0] in ("b", "is", "isnot", "forall")]
        out.append((l.kind, facts, ip.resolve(l.st, l.val) if isinstance(l.val, T) else l.val, outs, l.st.folds))
    return out


CONST = {"zero": 0, "one": 1, "two": 2, "half": Fraction(1, 2)}


def bounds(*ts, lo=2, hi=100000):
    """the integer constants of terms: behaviour may change at them"""
    out = set()
    todo = list(ts)
    seen = set()
    while todo:
        t = todo.pop()
        if isinstance(t, (tuple, list)):
            todo += list(t)
        elif isinstance(t, T):
            if t in seen:
                continue
            seen.add(t)
            if t.op == "int" and isinstance(t.a[0], int) and lo <= abs(t.a[0]) <= hi:
                out.add(t.a[0])
            todo += list(t.a)
    return sorted(out)


def decimals(digits):
    """meaning of the number kernel used by the interpolation code"""

    def on(env, t):
        if t.op == "bd":
            n, a = t.a
            if n in CONST:
                return Fraction(CONST[n])
            if n == "bigd":
                return Fraction(env.num(a[0]))
            if n in ("bigdf", "bigdf32"):
                return Fraction(env.num(a[0]))
            if n == "num_digits_for":
                return 20 if env.num(a[0]) == 32 else 40
            if n == "round":
                d = env.num(a[1])
                if d < digits:
                    raise Broken("rounded to %d of %d digits: %s" % (d, digits, show(a[1])[:80]))
                return env.num(a[0])
            raise Undecided("kernel " + n)
        return NotImplemented

    return on


def pick(leaves, params, on):
    """(value, outs) of the path that applies"""
    env, (kind, facts, val, outs, folds) = choose(leaves, lambda f: NumEnv(params, f, on))
    if kind == "panic":
        raise Broken("panics when " + "; ".join(show(f[1])[:80] for f in facts[-2:]))
    if kind != "return":
        raise Undecided(kind)
    return env, val, outs


def points(k, seed=7):
    rnd = random.Random(seed * 100 + k)
    xs = []
    while len(xs) < k:
        x = Fraction(rnd.randint(-40, 40), rnd.randint(1, 9))
        if x not in xs:
            xs.append(x)
    return xs, [Fraction(rnd.randint(-60, 60), rnd.randint(1, 9)) for _ in range(k)]


SPECIAL = [("tiny", lambda x, i, k: (x * x - x + 3) * Fraction(1, 10**45)), ("huge", lambda x, i, k: (x * x - x + 3) * 10**45), ("zero", lambda x, i, k: 0), ("constant", lambda x, i, k: 3), ("line", lambda x, i, k: 2 * x - 1), ("last", lambda x, i, k: int(i == k - 1)), ("first", lambda x, i, k: int(i == 0)),
           ("middle", lambda x, i, k: int(i == k // 2)), ("two-last", lambda x, i, k: int(i >= k - 2)), ("cube", lambda x, i, k: x**3), ("square", lambda x, i, k: x**2), ("alternating", lambda x, i, k: (-1) ** i),
           ("one-step", lambda x, i, k: 1 + 4 * int(i == k - 1)), ("one-negative", lambda x, i, k: -2 if i == 1 else 1)]


def capped(t):
    """a constant that bounds a number of points: min(len, 60), take(60)"""
    if isinstance(t, (tuple, list)):
        for y in t:
            q = capped(y)
            if q is not None:
                return q
        return None
    if isinstance(t, dict):
        return capped(list(t.values()))
    if not isinstance(t, T):
        return None
    for y in subterms(t):
        if y.op == "call" and y.a[0] in ("min", "clamp") and any(isT(z, "int") and z.a[0] > 1 for z in y.a[1] if isinstance(z, T)):
            return y
        if y.op == "call" and isinstance(y.a[0], str) and y.a[0].split("::")[-1] in ("min", "clamp", "take") and any(isT(z, "int") and z.a[0] > 1 for z in y.a[1] if isinstance(z, T)):
            return y
        if y.op == "take" and isT(y.a[1], "int") and y.a[1].a[0] > 1:
            return y
    return None


def run(r):
    p = prog()
    f = PM + "Polynomial::from_points"
    if not r.anchor("Polynomial::from_points", f in p.bodies):
        return
    sizes = list(range(1, 37)) if r.tier == "thorough" else [1, 2, 3, 4, 5, 6, 9, 33]
    top = sizes[-1]
    where = "doctor-syn/src/polynomial.rs Polynomial::from_points"
    digits = 57
    n = 0
    try:
        lv = leaves_of(p, f, [kernel_hook()])
    except interp_Undecided as x:
        r.undecided("interpolate", str(x)[:200], where)
        lv = None
    # no loop stops at a constant however many points there are
    for x in lv or []:
        q = capped(x)
        if q is not None:
            r.bad("interpolate/all", "a loop over the points ends after a constant number of them: " + show(q)[:150], where)
            break
    data = [("%d" % k,) + points(k) for k in sizes]
    # data on which differences, products or nodes vanish
    for name, f in SPECIAL:
        for k in (5, 6):
            xs = [Fraction(2 * i - k + 1, 2) for i in range(k)]
            data.append(("%s/%d" % (name, k), xs, [Fraction(f(x, i, k)) for i, x in enumerate(xs)]))
            xs = [x - xs[0] for x in xs]
            data.append(("%s-from-0/%d" % (name, k), xs, [Fraction(f(x, i, k)) for i, x in enumerate(xs)]))
            xs = [-x for x in xs]
            data.append(("%s-down/%d" % (name, k), xs, [Fraction(f(x, i, k)) for i, x in enumerate(xs)]))
    for name, xs, ys in data:
        k = len(xs)
        if lv is None:
            n += 1
            continue
        key = "interpolate/" + name
        n += 1
        try:
            env, val, _ = pick(lv, {"p1": xs, "p2": ys, "p3": digits}, decimals(digits))
            v = env.val(val)
            terms = v.p[0] if isinstance(v, E) else None
            if not isinstance(terms, list):
                raise Undecided("result is not a coefficient list")
            # coefficients may be missing at the top only if they are zero
            bad = []
            for x, y in zip(xs, ys):
                got = sum(c * x**i for i, c in enumerate(terms))
                if got != y:
                    bad.append("at x=%s the polynomial is %s, not %s" % (x, got, y))
            if len(terms) != k:
                bad.append("%d coefficients for %d points" % (len(terms), k))
            r.check(key, not bad, "through %d points: %s" % (k, "; ".join(bad[:2])), where, "P(x_i) = y_i at %d generic points" % k)
        except Broken as x:
            r.bad(key, "through %d points: %s" % (k, x), where)
        except (Undecided, NoElem) as x:
            r.undecided(key, str(x)[:200], where)
    # evaluation
    g = PM + "Polynomial::eval"
    if r.anchor("Polynomial::eval", g in p.bodies):
        where = "doctor-syn/src/polynomial.rs Polynomial::eval"
        lv = None
        try:
            lv = leaves_of(p, g, [kernel_hook()])
        except interp_Undecided as x:
            r.undecided("eval", str(x)[:200], where)
        for k in sizes:
            n += 1
            if lv is None:
                continue
            key = "eval/%d" % k
            xs, ys = points(k, 3)
            x = Fraction(17, 13)
            try:
                env, val, _ = pick(lv, {"p1": {"terms": ys}, "p2": x}, decimals(digits))
                got = env.num(val)
                want = sum(c * x**i for i, c in enumerate(ys))
                r.check(key, got == want, "the value of %d coefficients at %s is %s, not %s" % (k, x, got, want), where, "sum of c_i x^i")
            except Broken as x:
                r.bad(key, "%d coefficients: %s" % (k, x), where)
            except (Undecided, NoElem) as x:
                r.undecided(key, str(x)[:200], where)
    t = PM + "Polynomial::terms"
    if r.anchor("Polynomial::terms", t in p.bodies):
        n += 1
        where = "doctor-syn/src/polynomial.rs Polynomial::terms"
        try:
            lv = leaves_of(p, t, [])
            ok = None
            for kind, facts, val, outs, folds in lv:
                if kind == "return":
                    env = NumEnv({"p1": {"terms": [1, 2, 3]}}, folds)
                    ok = env.val(val) == [1, 2, 3] and ok is not False
            r.check("terms", ok is True, "the coefficients are handed out as " + "; ".join(show(x[2])[:100] for x in lv), where, "coefficients in order")
        except (Undecided, NoElem, Broken, interp_Undecided) as x:
            r.undecided("terms", str(x)[:200], where)
    r.floor("recurrence instances", n, 8)
    r.assume("identities of the extracted recurrences are compared at generic rational points and on degenerate data for %d to %d nodes" % (1, top))
