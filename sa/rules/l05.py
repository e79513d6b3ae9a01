from rules.libcommon import *
from rules.l06 import REF
from denot import *
import cas, nums

RULE = ("every polynomial approximation requested by a template: requested over a proper interval with a node count its parity admits, of an expression in the template's own variable with that parity, in the "
        "configured number type and enough digits; the argument it is applied to stays in the requested interval in every case; and interpolation at that node count reaches the accuracy the entry declares")

LIMIT = 8  # units in the last place, for entries that declare no accuracy
DOMAIN = {"asin": {"x": (-1, 1)}, "acos": {"x": (-1, 1)}, "qnorm": {"p": (0, 1)}, "rnorm": {}, "acosh": {"x": (1, None)}, "atanh": {"x": (-1, 1)}}


def holes(t, out):
    if isinstance(t, T):
        if t.op == "xhole":
            out.append(t.a[0])
            return
        for a in t.a:
            holes(a, out)
    elif isinstance(t, tuple):
        for a in t:
            holes(a, out)


def names(e, out):
    if isinstance(e, T):
        if e.op == "xpath":
            out.add(e.a[0].replace(" ", ""))
        for a in e.a:
            names(a, out)
    elif isinstance(e, tuple):
        for a in e:
            names(a, out)


def real(t):
    """value of an interval end: a number or a standard function of numbers"""
    if t.op in ("float", "int"):
        return nums.mpf(str(t.a[0]))
    if t.op == "lib" or t.op == "call" or t.op == "fcall":
        n = t.a[0].split("::")[-1]
        xs = [real(x) for x in t.a[1]]
        if n in nums.UN:
            return getattr(nums.mpmath, nums.UN[n])(*xs)
    if t.op == "op":
        xs = [real(x) for x in t.a[1:]]
        n = t.a[0]
        if n == "Neg":
            return -xs[0]
        if n in ("Add", "Sub", "Mul", "Div"):
            return {"Add": xs[0] + xs[1], "Sub": xs[0] - xs[1], "Mul": xs[0] * xs[1], "Div": xs[0] / xs[1]}[n] if n != "Div" else xs[0] / xs[1]
    if t.op == "neg":
        return -real(t.a[0])
    if len(t.a) == 2 and isinstance(t.a[0], str) and isinstance(t.a[1], tuple):
        n = t.a[0].split("::")[-1]
        if n in nums.UN:
            return getattr(nums.mpmath, nums.UN[n])(*[real(x) for x in t.a[1]])
    n = t.op.split("::")[-1]
    if n in nums.UN and t.a:
        return getattr(nums.mpmath, nums.UN[n])(real(t.a[0]))
    raise No("interval end " + show(t)[:80])


def run(r):
    g = load(r)
    if g is None:
        return
    lim = {}
    for e, s, t in specs(g):
        fl = [x for _, x in sorted((s.get("test") or {}).items()) if isinstance(x, float)] if isinstance(s.get("test"), dict) else []
        if len(fl) == 2:
            for b, x in zip((32, 64), fl):
                lim.setdefault((e["name"], b), []).append(x)
    n = 0
    for e, b, it, k in each(r, g, "approx"):
        hs = []
        holes(tuple(it), hs)
        hs = [hole(h) for h in hs]
        hs = [h[1] for h in hs if h[0] == "approx"]
        seen = []
        for a in hs:
            if any(a.term == x.term for x in seen):
                continue
            seen.append(a)
            n += 1
            one(r, g, e, b, it, a, "%s/%s" % (k, (etext(a.expr).replace(" ", "") if a.expr is not None else "?")), lim.get((e["name"], b), []))
        if seen:
            ranges(r, g, e, b, it, k, lim.get((e["name"], b), []))
    r.floor("approximations", n, 10)
    r.assume("truncation error is evaluated with 60-digit arithmetic at 161 points of the requested interval")


def one(r, g, e, b, it, a, k, own):
    w = where(g, e)
    if a.expr is None or a.var is None:
        r.undecided(k, "the approximated expression is not a literal template", w)
        return
    fr = set()
    names(a.expr, fr)
    bad = sorted(x for x in fr if x not in (a.var, "PI"))
    r.check(k + "/names", not bad and a.var in fr, "the approximated expression %s must be in %s alone%s" % (etext(a.expr), a.var, ", not " + ", ".join(bad) if bad else ""), w)
    r.check(k + "/parity", a.parity in ("Odd", "Even", "Neither"), "parity", w) if a.parity else r.undecided(k + "/parity", "parity", w)
    if not isinstance(a.terms, int):
        r.undecided(k + "/terms", "number of terms " + show(a.terms)[:80], w)
        return
    ok = a.terms >= 2 and not (a.parity == "Odd" and a.terms % 2) and not (a.parity == "Even" and a.terms % 2 == 0)
    r.check(k + "/terms", ok, "%d terms cannot give a polynomial that is %s" % (a.terms, a.parity), w)
    if a.wraps:
        nt, bits = a.wraps[0][1], a.wraps[0][2]
        r.check(k + "/number_type", len(a.wraps) == 1 and (bits.op != "int" or bits.a[0] == b) and nt.op != "str", "coefficients are emitted as %s %s numbers in a %d-bit function" % (show(nt), show(bits), b), w)
    else:
        r.bad(k + "/number_type", "coefficients are emitted without the configured number type", w)
    if a.digits.op == "int":
        r.check(k + "/digits", a.digits.a[0] >= (8 if b == 32 else 17), "coefficients are computed with %d digits, too few for %d bits" % (a.digits.a[0], b), w)
    else:
        r.undecided(k + "/digits", "digits " + show(a.digits)[:80], w)
    try:
        lo, hi = real(a.xmin), real(a.xmax)
    except (No, ValueError) as x:
        r.undecided(k + "/interval", str(x), w)
        return
    r.check(k + "/interval", lo < hi and (a.parity == "Neither" or abs(lo + hi) <= nums.mpf(10) ** -12), "[%s, %s] is not %s interval" % (nums.mpmath.nstr(lo, 8), nums.mpmath.nstr(hi, 8), "a proper" if a.parity == "Neither" else "a proper symmetric"), w)
    if not lo < hi:
        return
    f = lambda x: nums.ev(a.expr, {a.var: x})
    try:
        # symmetry, symbolically
        if a.parity in ("Odd", "Even"):
            v = cas.var(a.var)
            p = Eval(b, {}).host(a.expr, {a.var: v}, Signs())
            q = Eval(b, {}).host(a.expr, {a.var: -v}, Signs())
            if len(p) == 1 and len(q) == 1:
                want = p[0][1] if a.parity == "Even" else -p[0][1]
                same_ = qn(q[0][1]) == qn(want)
                if not same_:
                    # decided numerically only against: a definite counterexample
                    x = lo + (hi - lo) * nums.mpf(7) / 10
                    d = f(-x) - (f(x) if a.parity == "Even" else -f(x))
                    if abs(d) < nums.mpf(10) ** -30:
                        r.undecided(k + "/symmetry", "symmetry not established symbolically", w)
                    else:
                        r.bad(k + "/symmetry", "%s is not an %s function of %s, so dropping half of the coefficients changes it" % (etext(a.expr), a.parity.lower(), a.var), w)
                else:
                    r.ok(k + "/symmetry", "f(-%s) = %sf(%s)" % (a.var, "" if a.parity == "Even" else "-", a.var), w)
            else:
                r.undecided(k + "/symmetry", "piecewise expression", w)
    except (No, ParseError) as x:
        r.undecided(k + "/symmetry", str(x), w)
    try:
        if a.terms > 80:
            raise No("too many terms")
        m = nums.error(nums.interpolate(f, lo, hi, a.terms, a.parity), f, lo, hi)
        ulp = m * nums.mpf(2) ** (23 if b == 32 else 52)
        limit = max(own) if own else LIMIT
        ak = "%s/accuracy/%d terms over [%s, %s]" % (k, a.terms, nums.mpmath.nstr(lo, 8), nums.mpmath.nstr(hi, 8))
        r.check(ak, m == m and ulp <= limit, "%d terms over [%s, %s] leave a truncation error of %s units in the last place, above %s" % (a.terms, nums.mpmath.nstr(lo, 6), nums.mpmath.nstr(hi, 6), nums.mpmath.nstr(ulp, 4), limit), w, "%s ulp of %s" % (nums.mpmath.nstr(ulp, 3), limit))
    except (No, ZeroDivisionError, ValueError, TypeError) as x:
        r.undecided(k + "/accuracy", str(x)[:200], w)


def qn(v):
    """qnorm(1 - p) = -qnorm(p): orient the argument"""
    m = {}
    for i in v.atoms():
        n, ar = cas.ATOMS[i]
        if n == "qnorm" and isinstance(ar[0], Rat) and ar[0].laurent():
            u = ar[0]
            ms = sorted(x for x in u.n if x != ())
            if ms and u.n[ms[-1]] < 0:
                m[i] = -A("qnorm", R(1) - u)
    return cas.subst(v, m) if m else v


# ---- the reduced argument
def lin(p):
    """{monomial of non-constant atoms: rational} of a polynomial, constants evaluated"""
    out = {}
    for m, c in p.items():
        keep = []
        x = nums.fr(F(c))
        for k, ex in m:
            try:
                x *= nums.rat(Rat({((k, F(1)),): F(1)})) ** nums.fr(F(ex))
            except No:
                keep.append((k, ex))
        out[tuple(keep)] = out.get(tuple(keep), F(0)) + frac(x)
    return {m: c for m, c in out.items() if c}


def frac(x):
    return F(int(nums.mpmath.nint(x * nums.mpf(10) ** 40)), 10 ** 40)


def scale(d, c):
    return {m: x * c for m, x in d.items()}


def add(a, b):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, F(0)) + c
    return {m: c for m, c in out.items() if c}


def axioms(S, atoms, dom):
    rows = []

    def sgn(p, t):
        if p.laurent():
            d = lin(p.n)
            if 1 not in t:
                rows.append((scale(d, -1), 0 not in t))
            if -1 not in t:
                rows.append((d, 0 not in t))

    for p, t in S.f:
        sgn(p, t)
    for k in atoms:
        n, ar = cas.ATOMS[k]
        x = Rat({((k, F(1)),): F(1)})
        if n == "round" and isinstance(ar[0], Rat) and ar[0].laurent():
            d = lin((ar[0] - x).n)
            rows.append((add(d, {(): F(1, 2)}), False))
            rows.append((add(scale(d, -1), {(): F(1, 2)}), False))
        elif n == "floor" and isinstance(ar[0], Rat) and ar[0].laurent():
            d = lin((ar[0] - x).n)
            rows.append((d, False))
            rows.append((add(scale(d, -1), {(): F(1)}), False))
        elif n == "mant":
            rows.append(({((k, F(1)),): F(1), (): F(-1)}, False))
            rows.append(({((k, F(1)),): F(-1), (): F(2)}, False))
        elif n == "root":
            rows.append((lin(ar[0].n), False))
        if k in dom:
            lo, hi = dom[k]
            if lo is not None:
                rows.append(({((k, F(1)),): F(1), (): F(-lo)}, False))
            if hi is not None:
                rows.append(({((k, F(1)),): F(-1), (): F(hi)}, False))
            if lo == -1 and hi == 1:
                rows.append(({((k, F(2)),): F(-1), (): F(1)}, False))
        rows.append(({((k, F(2)),): F(1)}, False))
    # products of the bounds known for one atom (x <= c and x >= 0 give x*x <= c*c)
    lins = {}
    for d, st in rows:
        ms = [m for m in d if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            lins.setdefault(ms[0][0][0], []).append((d.get((), F(0)), d[ms[0]]))
    for k, l in lins.items():
        l = list(dict.fromkeys(l))
        for i, (a, b) in enumerate(l):
            for c, d in l[i:]:
                row = {(): a * c, ((k, F(1)),): a * d + b * c, ((k, F(2)),): b * d}
                rows.append(({m: x for m, x in row.items() if x}, False))
    return rows


POINTS = [0, 1e-3, 0.1, 0.2499, 0.26, 0.3, 0.45, 0.499, 0.501, 0.55, 0.6, 0.68, 0.705, 0.709, 0.75, 0.78, 0.85, 0.9, 0.95, 0.999, 1.0, 1.001, 1.1, 1.24, 1.26, 1.4, 1.5, 1.6, 1.9, 2.1, 2.414, 2.42, 3.0, 3.1, 4.7, 6.2, 7.5, 10.3, 100.4, 1000.7]


def witness(S, v, lo, hi, dom, side):
    """[(text, value)] concrete arguments that satisfy every condition of the case and leave the interval"""
    ats = set(v.atoms())
    for p, t in S.f:
        ats |= set(p.atoms())
    todo = list(ats)
    while todo:
        k = todo.pop()
        for x in cas.ATOMS[k][1]:
            if isinstance(x, Rat):
                for j in x.atoms():
                    if j not in ats:
                        ats.add(j)
                        todo.append(j)
    vs = sorted(k for k in ats if cas.ATOMS[k][0] == "var")
    out = []
    if not vs or len(vs) > 2:
        return out
    pts = sorted({s * x for x in POINTS for s in (1, -1)}, key=abs)
    if len(vs) == 2:
        pts = pts[::3]
    tol = (hi - lo) / 1000
    import itertools

    for c in itertools.product(pts, repeat=len(vs)):
        env = {k: nums.mpf(x) for k, x in zip(vs, c)}
        if any(k in dom and ((dom[k][0] is not None and env[k] < dom[k][0]) or (dom[k][1] is not None and env[k] > dom[k][1])) for k in vs):
            continue
        try:
            if all((0 if x == 0 else 1 if x > 0 else -1) in t for p, t in S.f for x in [nums.rat(p, env)]):
                y = nums.rat(v, env)
                if isinstance(y, nums.mpf) and (y > hi + tol or y < lo - tol):
                    out.append((", ".join("%s = %s" % (cas.ATOMS[k][1][0].replace("rng_", ""), float(x)) for k, x in env.items()), y))
        except (ZeroDivisionError, ValueError, TypeError, OverflowError):
            continue
    return out


def within(S, v, lo, hi, dom):
    """None when v stays in [lo, hi] (with a relative slack of 1/1000); otherwise 'above' / 'below'"""
    tol = F(1, 1000)
    w = frac(hi - lo)
    hi, lo = frac(hi) + w * tol / 2, frac(lo) - w * tol / 2
    ats = set(v.atoms())
    for p, t in S.f:
        ats |= set(p.atoms())
    todo = list(ats)
    while todo:
        k = todo.pop()
        for x in cas.ATOMS[k][1]:
            if isinstance(x, Rat):
                for j in x.atoms():
                    if j not in ats:
                        ats.add(j)
                        todo.append(j)
    base = axioms(S, ats, dom)
    if v.d is None and len(v.n) == 1:
        (m, c), = v.n.items()
        if m and all(ex < 0 for _, ex in m):
            # c / u: multiply out
            u = Rat({tuple((k, -ex) for k, ex in m): F(1)})
            return quotient(base, {(): F(c)}, lin(u.n), lo, hi)
        if m and lo < 0 < hi:
            # by squares
            s = v * v
            if s.laurent() and s.d is None:
                M = min(hi, -lo)
                d = lin(s.n)
                if not cas.fm_feasible(base + [(add(d, {(): -M * M}), True)]):
                    return None
    if v.d is None:
        d = lin(v.n)
        if cas.fm_feasible(base + [(add(d, {(): -hi}), True)]):
            return "above"
        if cas.fm_feasible(base + [(add(scale(d, -1), {(): lo}), True)]):
            return "below"
        return None
    return quotient(base, lin(v.n), lin(v.d), lo, hi)


def quotient(base, n, d, lo, hi):
    out = None
    for sg in (1, -1):
        b = base + [(scale(d, sg), True)]
        if not cas.fm_feasible(b):
            continue
        if cas.fm_feasible(b + [(scale(add(n, scale(d, -hi)), sg), True)]):
            out = "above"
        if cas.fm_feasible(b + [(scale(add(scale(n, -1), scale(d, lo)), sg), True)]):
            out = "below"
    return out


def ranges(r, g, e, b, it, k, own):
    w = where(g, e)
    fs = [i for i in it if i.op == "ifn" and i.a[0] == e["name"]]
    if len(fs) != 1:
        r.undecided(k + "/range", "no single function", w)
        return
    f = fs[0]
    items = {}
    for d in g.entries:
        if d["gen"]:
            try:
                for i in g.items(d, b):
                    if isinstance(i.a[0], str) and not (i.op == "ifn" and d["name"] in REF):
                        items.setdefault(i.a[0], i)
            except NoGen:
                pass
    for i in it:
        if i is not f and isinstance(i.a[0], str):
            items[i.a[0]] = i
    nm = [x.strip() for x in REF[e["name"]][0].split(",")] if e["name"] in REF else []
    ev = Eval(b, items)
    dom = {}
    vals = []
    for j, p in enumerate(f.a[1]):
        n = nm[j] if j < len(nm) else "arg%d" % j
        v = cas.var("rng_" + n)
        vals.append(v)
        if n in DOMAIN.get(e["name"], {}):
            (m, c), = v.n.items()
            dom[m[0][0]] = DOMAIN[e["name"]][n]
    try:
        ev.fn(f, Signs(), vals)
    except (No, ParseError) as x:
        r.undecided(k + "/range", "not in the modelled subset: %s" % x, w)
        return
    bad, m, und = None, 0, None
    for S, v, a in ev.domains:
        try:
            lo, hi = real(a.xmin), real(a.xmax)
            if not isinstance(v, Rat):
                raise No("argument " + v.show())
            t = within(S, v, lo, hi, dom)
        except (No, ValueError, OverflowError) as x:
            und = str(x)
            continue
        m += 1
        if t:
            try:
                wit = witness(S, v, lo, hi, dom, t)
            except No as x:
                wit = []
            if wit:
                worst = None
                limit = max(own) if own else LIMIT
                try:
                    f = lambda x: nums.ev(a.expr, {a.var: x})
                    p = nums.interpolate(f, lo, hi, a.terms, a.parity)
                    for txt, y in wit:
                        err = abs(nums.mpmath.polyval(p, y) - f(y)) * nums.mpf(2) ** (23 if b == 32 else 52)
                        if err == err and err > limit and (worst is None or err > worst[2]):
                            worst = (txt, y, err)
                except (No, ZeroDivisionError, ValueError, TypeError) as x:
                    und = str(x)
                    continue
                if worst:
                    bad = (S, v, a, worst, lo, hi)
                else:
                    und = "%s leaves [%s, %s], where the polynomial is still accurate at the arguments looked at" % (v.show()[:120], nums.mpmath.nstr(lo, 6), nums.mpmath.nstr(hi, 6))
            else:
                und = "%s not shown to stay in [%s, %s]" % (v.show()[:120], nums.mpmath.nstr(lo, 6), nums.mpmath.nstr(hi, 6))
    if bad:
        S, v, a, t, lo, hi = bad
        r.bad(k + "/range", "the approximation requested for [%s, %s] is applied to %s: %s gives %s, where it is off by %s units in the last place" % (nums.mpmath.nstr(lo, 6), nums.mpmath.nstr(hi, 6), v.show().replace("rng_", "")[:200], t[0], nums.mpmath.nstr(t[1], 6), nums.mpmath.nstr(t[2], 4)), w)
    elif und or not m:
        r.undecided(k + "/range", und or "no use found", w)
    else:
        r.ok(k + "/range", "%d uses inside the requested interval" % m, w)
