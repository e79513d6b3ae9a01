"""Arbitrary-precision values of parsed expressions and of algebra terms (mpmath from the tools' Python environment)."""
import sys, glob
from fractions import Fraction as F

try:
    import mpmath
except ImportError:
    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        if p not in sys.path:
            sys.path.append(p)
    try:
        import mpmath
    except ImportError:
        mpmath = None
if mpmath is not None:
    from mpmath import mp, mpf

    mp.dps = 60
import cas
from gen import ParseError
from rast import NONET
from interp import T
from denot import No, num


def need():
    if mpmath is None:
        raise No("mpmath is not available")


def fr(x):
    return mpf(x.numerator) / mpf(x.denominator)


def q_norm(p):
    return mpmath.sqrt(2) * mpmath.erfinv(2 * p - 1)


UN = {
    "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "exp": "exp", "ln": "log", "sqrt": "sqrt", "erf": "erf", "erfc": "erfc", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh",
}


def ev(e, env):
    """value of an expression in the library's expression language"""
    need()
    o = e.op
    if o == "xparen":
        return ev(e.a[0], env)
    if o == "xlit":
        return fr(num(e.a[0]))
    if o == "xpath":
        n = e.a[0].replace(" ", "")
        if n in env:
            return env[n]
        if n.split("::")[-1] == "PI":
            return +mp.pi
        raise No("name " + n)
    if o == "xun" and e.a[0] == "-":
        return -ev(e.a[1], env)
    if o == "xbin" and e.a[0] in "+-*/":
        a, b = ev(e.a[1], env), ev(e.a[2], env)
        return a + b if e.a[0] == "+" else a - b if e.a[0] == "-" else a * b if e.a[0] == "*" else a / b
    if o == "xmcall" and isinstance(e.a[1], str):
        x = ev(e.a[0], env)
        a = [ev(y, env) for y in e.a[2]]
        n = e.a[1]
        if not a and n in UN:
            return getattr(mpmath, UN[n])(x)
        if not a:
            if n == "exp2":
                return mpf(2) ** x
            if n == "log2":
                return mpmath.log(x, 2)
            if n == "log10":
                return mpmath.log(x, 10)
            if n == "abs":
                return abs(x)
            if n == "recip":
                return 1 / x
        if len(a) == 1:
            if n == "powf" or n == "powi":
                return x ** a[0]
            if n == "log":
                return mpmath.log(x) / mpmath.log(a[0])
        if len(a) == 2:
            if n == "qnorm":
                return q_norm(x) * a[1] + a[0]
            if n == "pnorm":
                return mpmath.ncdf(x, a[0], a[1])
            if n == "dnorm":
                return mpmath.npdf(x, a[0], a[1])
        raise No("method %s/%d" % (n, len(a)))
    raise No("expression " + o)


def rat(v, env=None):
    """numeric value of an algebra term; env: {atom: value}"""
    need()

    def atom(k):
        if env and k in env:
            return env[k]
        n, a = cas.ATOMS[k]
        if n == "pi":
            return +mp.pi
        if n == "e":
            return mpmath.e + 0
        if n == "prime":
            return mpf(a[0])
        if not all(isinstance(x, cas.Rat) for x in a):
            raise No("value of " + n)
        xs = [rat(x, env) for x in a]
        if n == "round":
            return mpmath.floor(abs(xs[0]) + mpf(1) / 2) * mpmath.sign(xs[0])
        if n == "floor":
            return mpmath.floor(xs[0])
        if n == "mant":
            return xs[0] / mpf(2) ** mpmath.floor(mpmath.log(xs[0], 2))
        if n in ("and", "or", "xor", "rem", "shl", "shr", "trunc", "ceil", "absu", "expo", "lnr"):
            return integer(n, xs)
        if n in ("ln",):
            return mpmath.log(xs[0])
        if n == "root":
            return xs[0]
        if n == "expm":
            return mpmath.exp(xs[0])
        if n in ("sin", "cos", "tan", "asin", "atan"):
            return getattr(mpmath, n)(xs[0])
        raise No("value of " + n)

    def poly(p):
        s = mpf(0)
        for m, c in p.items():
            t = fr(F(c))
            for k, e in m:
                t *= atom(k) ** fr(F(e))
            s += t
        return s

    return poly(v.n) / (poly(v.d) if v.d is not None else 1)


def integer(n, xs):
    if n == "absu":
        return abs(xs[0])
    if n == "trunc":
        return mpmath.floor(abs(xs[0])) * mpmath.sign(xs[0])
    if n == "ceil":
        return mpmath.ceil(xs[0])
    if n == "expo":
        if not xs[0]:
            raise No("exponent of zero")
        return mpmath.floor(mpmath.log(abs(xs[0]), 2))
    if any(x != mpmath.floor(x) for x in xs):
        raise No("bits of a fraction")
    a, b = (int(x) for x in xs)
    if n == "rem":
        if not b:
            raise No("remainder by zero")
        return mpf(abs(a) % abs(b) * (1 if a >= 0 else -1))
    if n in ("shl", "shr") and not 0 <= b < 128:
        raise No("shift")
    return mpf({"and": a & b, "or": a | b, "xor": a ^ b, "shl": a << b if n == "shl" else 0, "shr": a >> b if n == "shr" else 0}[n])


def interpolate(f, lo, hi, k, parity):
    """the interpolation polynomial through k Chebyshev-Lobatto nodes, keeping terms of one parity (coefficients from the highest)"""
    need()
    a, c = (lo + hi) / 2, (hi - lo) / 2
    xs = [a - c * mpmath.cos(i * mp.pi / (k - 1)) for i in range(k)]
    ys = [f(x) for x in xs]
    dd = list(ys)
    for j in range(1, k):
        for i in range(k - 1, j - 1, -1):
            dd[i] = (dd[i] - dd[i - 1]) / (xs[i] - xs[i - j])
    p = [dd[k - 1]]
    for i in range(k - 2, -1, -1):
        q = [mpf(0)] * (len(p) + 1)
        for t, x in enumerate(p):
            q[t + 1] += x
            q[t] -= x * xs[i]
        q[0] += dd[i]
        p = q
    if parity in ("Odd", "Even"):
        w = 1 if parity == "Odd" else 0
        p = [x if t % 2 == w else mpf(0) for t, x in enumerate(p)]
    p.reverse()
    return p


def error(p, f, lo, hi):
    """largest difference over the interval"""
    m = mpf(0)
    for i in range(161):
        x = lo + (hi - lo) * i / 160
        m = max(m, abs(mpmath.polyval(p, x) - f(x)))
    return m
