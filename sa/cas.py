"""A small computer algebra for the real-number meaning of generated functions.

Values are rational functions over atoms (variables, constants, uninterpreted applications) with rational
exponents.  exp, ln, sqrt and the trigonometric functions are normalised so that the usual identities become
syntactic equality."""
from fractions import Fraction as F

ATOMS = {}  # id -> (name, args)
_key = {}
_generic = []
INTEGER = set()  # atoms that only take integer values
POSITIVE = set()  # atoms that are positive


def _new(name, args):
    i = len(ATOMS)
    ATOMS[i] = (name, args)
    return i


def akey(x):
    if isinstance(x, Rat):
        if x.laurent():
            return ("L", frozenset(x.n.items()))
        return None
    return x


def atom_id(name, *args):
    ks = tuple(akey(a) for a in args)
    if None not in ks:
        k = (name, ks)
        if k not in _key:
            _key[k] = _new(name, args)
            _classify(_key[k])
        return _key[k]
    for n, a, i in _generic:
        if n == name and len(a) == len(args) and all((x == y) for x, y in zip(a, args)):
            return i
    i = _new(name, args)
    _classify(i)
    _generic.append((name, args, i))
    return i


def _classify(i):
    n, a = ATOMS[i]
    if n in ("round", "floor", "trunc", "ceil", "expo", "intvar"):
        INTEGER.add(i)
    if n in ("pi", "prime", "e", "expm", "mant", "bits2", "absu"):
        POSITIVE.add(i)


def mono_mul(a, b):
    """(coefficient, monomial) of the product of two monomials"""
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    c = F(1)
    out = []
    extra = []
    for k, e in d.items():
        if e == 0:
            continue
        n, ar = ATOMS[k]
        if n == "prime":
            w = e.numerator // e.denominator if isinstance(e, F) else e
            c *= F(ar[0]) ** int(w)
            e = F(e) - w
            if e == 0:
                continue
        if n == "root" and (e >= 1 or e < 0):
            w = F(e).numerator // F(e).denominator
            extra.append((ar[0], int(w)))
            e = F(e) - w
            if e == 0:
                continue
        e = F(e)
        out.append((k, e))
    out.sort()
    return c, tuple(out), extra


class Rat:
    """num/den, both dict monomial -> Fraction; den is 1 for Laurent polynomials"""

    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d

    def laurent(self):
        return self.d is None

    def __add__(self, o):
        o = R(o)
        if self.d is None and o.d is None:
            return Rat(padd(self.n, o.n))
        if self.d is not None and o.d is not None and self.d == o.d:
            return mk(padd(self.n, o.n), self.d)
        a, b = self.d or ONEP, o.d or ONEP
        return divp(radd(rmulp(self.n, b), rmulp(o.n, a)), rmulp(a, b))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-R(o))

    def __mul__(self, o):
        o = R(o)
        n = rmulp(self.n, o.n)
        if self.d is None and o.d is None:
            return n
        return divp(n, rmulp(self.d or ONEP, o.d or ONEP))

    def __truediv__(self, o):
        o = R(o)
        if not o.n:
            raise ZeroDivisionError
        return divp(rmulp(self.n, o.d or ONEP), rmulp(self.d or ONEP, o.n))

    def __pow__(self, k):
        if k < 0:
            return R(1) / (self ** -k)
        r = R(1)
        for _ in range(k):
            r = r * self
        return r

    def __eq__(self, o):
        o = R(o)
        if self.d is None and o.d is None:
            return self.n == o.n
        return rmulp(self.n, o.d or ONEP) == rmulp(o.n, self.d or ONEP)

    __hash__ = None

    def const(self):
        if self.d is None:
            if not self.n:
                return F(0)
            if len(self.n) == 1 and () in self.n:
                return self.n[()]
        return None

    def atoms(self):
        s = {k for m in self.n for k, _ in m}
        if self.d:
            s |= {k for m in self.d for k, _ in m}
        return s

    def show(self):
        def p(q):
            if not q:
                return "0"
            out = []
            for m, c in sorted(q.items(), key=str):
                fs = [ashow(k) + ("" if e == 1 else "^%s" % e) for k, e in m]
                if c != 1 or not fs:
                    fs = [fshow(c)] + fs
                out.append("*".join(fs))
            return " + ".join(out)

        return p(self.n) if self.d is None else "(%s)/(%s)" % (p(self.n), p(self.d))


def fshow(c):
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator > 100000:
        return "%.6g" % float(c)
    return str(c)


def ashow(k):
    n, a = ATOMS[k]
    if n in ("var", "prime"):
        return str(a[0])
    if not a:
        return n
    return "%s(%s)" % (n, ", ".join(x.show() if isinstance(x, Rat) else str(x) for x in a))


ONEP = {(): F(1)}


def R(x):
    if isinstance(x, Rat):
        return x
    x = F(x)
    return Rat({(): x} if x else {})


def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def radd(a, b):
    return a + b


def rmulp(a, b):
    """product of two Laurent polynomials -> Rat (roots may expand to rational functions)"""
    r = {}
    rest = []
    if len(a) * len(b) > 200000:
        raise OverflowError("polynomial too large")
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            c, m, extra = mono_mul(m1, m2)
            if extra:
                rest.append((c * c1 * c2, m, extra))
                continue
            v = r.get(m, 0) + c * c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    out = Rat(r)
    for c, m, extra in rest:
        t = Rat({m: c})
        for u, w in extra:
            t = t * (u ** w)
        out = out + t
    return out


def mk(n, d):
    if not n:
        return R(0)
    if len(d) == 1:
        (m, c), = d.items()
        return rmulp(n, {tuple((k, -e) for k, e in m): 1 / c})
    return Rat(n, d)


def divp(a, b):
    """Rat a / Rat b as one Rat"""
    if a.d is not None or b.d is not None:
        n = rmulp(a.n, b.d or ONEP)
        d = rmulp(a.d or ONEP, b.n)
        if n.d is not None or d.d is not None:
            return divp(n, d)
        a, b = n, d
    if not b.n:
        raise ZeroDivisionError
    if a.n == b.n:
        return R(1)
    # common scalar multiple of the denominator?
    if len(a.n) == len(b.n) and set(a.n) == set(b.n):
        qs = {a.n[m] / b.n[m] for m in a.n}
        if len(qs) == 1:
            return R(qs.pop())
    q = exact_div(a.n, b.n)
    if q is not None:
        return Rat(q)
    return mk(a.n, b.n)


def exact_div(a, b):
    """a/b when the division is exact (small cases)"""
    if len(b) == 1 or len(a) > 400 or len(b) > 40:
        return None
    key = lambda m: m
    lb = max(b, key=key)
    r = dict(a)
    q = {}
    for _ in range(400):
        if not r:
            return q
        la = max(r, key=key)
        c, m, extra = mono_mul(la, tuple((k, -e) for k, e in lb))
        if extra:
            return None
        cc = c * r[la] / b[lb]
        if m in q:
            return None
        q[m] = cc
        t = rmulp({m: -cc}, b)
        if t.d is not None:
            return None
        r2 = padd(r, t.n)
        if la in r2:
            return None
        r = r2
    return None


def A(name, *args):
    return Rat({((atom_id(name, *args), F(1)),): F(1)})


def var(n):
    return A("var", n)


PI = A("pi")


def prime_factors(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def ln(u):
    u = R(u)
    if u.laurent() and len(u.n) == 1:
        (m, c), = u.n.items()
        if c > 0:
            ok = all(k in POSITIVE or ATOMS[k][0] == "root" for k, _ in m) or (len(m) == 1 and c == 1 and False)
            if ok:
                r = R(0)
                for p, e in list(prime_factors(c.numerator).items()) + [(p, -e) for p, e in prime_factors(c.denominator).items()]:
                    r = r + A("ln", R(p)) * e
                for k, e in m:
                    r = r + lnatom(k) * e
                return r
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                return lnatom(m[0][0])
    return A("ln", u)


def lnatom(k):
    n, a = ATOMS[k]
    if n == "expm":
        return a[0]
    if n == "e":
        return R(1)
    if n == "prime":
        return A("ln", R(a[0]))
    if n == "root":
        return ln(a[0])
    if n == "mant":
        return ln(a[0]) - A("expo", a[0]) * ln(R(2))
    return A("ln", Rat({((k, F(1)),): F(1)}))


def exp(u):
    u = R(u)
    if not u.laurent():
        return A("expm", u)
    c = R(1)
    for m, q in u.n.items():
        if m == ():
            c = c * Rat({((atom_id("e"), q),): F(1)})
            continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == "ln":
            v = ATOMS[m[0][0]][1][0]
            if v.const() is not None:
                p = int(v.const())
                t = mono_mul((), ((atom_id("prime", p), q),))
                c = c * Rat({t[1]: t[0]})
                continue
            if q.denominator == 1:
                c = c * (v ** int(q))
                continue
        c = c * Rat({((atom_id("expm", Rat({m: F(1)})), q),): F(1)})
    return c


def exp2(u):
    return exp(R(u) * ln(R(2)))


def sqrt(u):
    u = R(u)
    k = u.const()
    if k is not None and k < 0:
        return A("sqrtneg", u)
    if u.laurent() and len(u.n) <= 1:
        if not u.n:
            return R(0)
        (m, c), = u.n.items()
        if all(k in POSITIVE for k, _ in m):
            e = {}
            for p, x in prime_factors(c.numerator).items():
                e[atom_id("prime", p)] = F(x, 2)
            for p, x in prime_factors(c.denominator).items():
                e[atom_id("prime", p)] = F(-x, 2)
            for k, x in m:
                e[k] = e.get(k, 0) + x / 2
            c2, m2, ex = mono_mul((), tuple(e.items()))
            r = Rat({m2: c2})
            for v, w in ex:
                r = r * v ** w
            return r
    return Rat({((atom_id("root", u), F(1, 2)),): F(1)})


def subst(v, m):
    """replace atoms by values (rebuilding applications with their normalising constructors)"""
    memo = {}

    def atom(k):
        if k in m:
            return m[k]
        if k in memo:
            return memo[k]
        n, ar = ATOMS[k]
        new = tuple(go(x) if isinstance(x, Rat) else x for x in ar)
        if all(x is y for x, y in zip(ar, new)):
            r = None
        elif n in ("sin", "cos", "tan"):
            r = trig(n, new[0])
        elif n in ("asin", "atan", "cbrt"):
            r = R(0) if not new[0].n else odd(n, new[0])
        elif n == "ln":
            r = ln(new[0])
        elif n == "expm":
            r = exp(new[0])
        elif n == "root":
            r = new[0]
        elif n in ("round", "floor", "trunc", "ceil") and not new[0].n:
            r = R(0)
        else:
            r = A(n, *new)
        memo[k] = r
        return r

    def poly(p):
        if all(atom(k) is None for mono in p for k, _ in mono):
            return None
        out = R(0)
        for mono, c in p.items():
            t = Rat({(): c})
            for k, e in mono:
                a = atom(k)
                if a is None:
                    t = t * Rat({((k, e),): F(1)})
                elif ATOMS[k][0] == "root":
                    q = sqrt(a)
                    t = t * q ** int(e * 2)
                elif F(e).denominator == 1:
                    t = t * a ** int(e)
                else:
                    raise ArithmeticError("fractional power")
            out = out + t
        return out

    def go(v):
        n, d = poly(v.n), poly(v.d) if v.d is not None else None
        if n is None and d is None:
            return v
        n = Rat(v.n) if n is None else n
        d = (Rat(v.d) if v.d is not None else R(1)) if d is None else d
        return n / d

    return go(v)


def lead_neg(u):
    if not u.n:
        return False
    return u.n[min(u.n)] < 0


def trig(f, u):
    u = R(u)
    if u.laurent():
        keep = {}
        for m, c in u.n.items():
            d = dict(m)
            pi = d.pop(atom_id("pi"), 0)
            if pi == 1 and all(k in INTEGER and e > 0 and F(e).denominator == 1 for k, e in d.items()) and c.denominator == 1 and (f == "tan" or c % 2 == 0) :
                continue
            keep[m] = c
        u = Rat(keep)
        if not u.n:
            return R({"sin": 0, "cos": 1, "tan": 0}[f])
        s = 1
        if lead_neg(u):
            u = -u
            s = -1
        if f == "cos":
            s = 1
        if f == "tan" and u == PI / 8:
            return (sqrt(R(2)) - 1) * s
        return A(f, u) * s
    return A(f, u)


def odd(name, u):
    u = R(u)
    if u.laurent() and lead_neg(u):
        return -A(name, -u)
    return A(name, u)


# ---------------------------------------------------------------- sign knowledge
class Signs:
    """what is known about the sign of polynomials; intervals of variables"""

    def __init__(self):
        self.f = []  # (Rat, set of signs)

    def copy(self):
        s = Signs()
        s.f = list(self.f)
        return s

    def add(self, p, signs):
        """assume sign(p) in signs; False when contradictory"""
        p = R(p)
        k = p.const()
        if k is not None:
            return (0 if k == 0 else 1 if k > 0 else -1) in signs
        cur = self.sign(p) & set(signs)
        if not cur:
            return False
        self.f.append((p, frozenset(cur)))
        return self.feasible()

    def sign(self, p):
        """set of possible signs"""
        p = R(p)
        k = p.const()
        if k is not None:
            return {0 if k == 0 else 1 if k > 0 else -1}
        s = {-1, 0, 1}
        for q, t in self.f:
            c = scalar(p, q)
            if c is not None:
                s &= t if c > 0 else {-x for x in t}
        if len(s) > 1 and p.laurent() and len(p.n) == 1:
            (m, c), = p.n.items()
            r = {1 if c > 0 else -1}
            for a, e in m:
                r = {x * y for x in r for y in self.asign(a, e)}
            s &= r or s
        if len(s) > 1 and p.laurent() and len(p.n) > 1:
            # all terms of one sign
            ss = [self.sign(Rat({m: c})) for m, c in p.n.items()]
            for g in (1, -1):
                if all(x <= {0, g} for x in ss):
                    s &= {g} if any(x == {g} for x in ss) else {0, g}
        return s

    def asign(self, a, e):
        n, ar = ATOMS[a]
        if e.denominator == 2:
            return {1}
        if e.numerator % 2 == 0 and e.denominator == 1:
            z = {1}
            if e > 0 and a not in POSITIVE and n != "root":
                base = {-1, 0, 1}
                for q, t in self.f:
                    c = scalar(Rat({((a, F(1)),): F(1)}), q)
                    if c is not None:
                        base &= t
                z = {0, 1} if 0 in base else {1}
            return z
        if a in POSITIVE:
            return {1}
        if n == "ln" and ar[0].const() is not None:
            return {1}
        s = {-1, 0, 1}
        x = Rat({((a, F(1)),): F(1)})
        for q, t in self.f:
            c = scalar(x, q)
            if c is not None:
                s &= t if c > 0 else {-v for v in t}
        return s

    def feasible(self):
        """interval reasoning over conditions that are linear in one atom (round(u) stays within 1/2 of u)"""
        iv = {}
        for p, t in self.f:
            if not p.laurent() or len(p.n) > 2:
                continue
            ks = [m for m in p.n if m != ()]
            if len(ks) != 1:
                continue
            m = ks[0]
            c, k = p.n[m], p.n.get((), F(0))
            if len(m) != 1:
                continue
            a, e = m[0]
            if e == 2:
                continue
            if e != 1:
                continue
            slack = F(0)
            n, ar = ATOMS[a]
            if n == "round" and isinstance(ar[0], Rat) and ar[0].laurent() and len(ar[0].n) == 1 and list(ar[0].n)[0] != () and len(list(ar[0].n)[0]) == 1 and list(ar[0].n)[0][0][1] == 1:
                m2 = list(ar[0].n)[0]
                a, slack = m2[0][0], F(1, 2)
                cc = ar[0].n[m2]
                bound = -k / c / cc
                slack = abs(slack / cc)
                c = c * cc
            else:
                bound = -k / c
            # c*a + k  has sign in t
            lo, hi, lo_s, hi_s = iv.get(a, (None, None, False, False))
            up = c > 0
            if 1 not in t:  # p <= 0
                b, strict = bound, 0 not in t
                if up:
                    if hi is None or b + slack < hi or (b + slack == hi and strict):
                        hi, hi_s = b + slack, strict
                else:
                    if lo is None or b - slack > lo or (b - slack == lo and strict):
                        lo, lo_s = b - slack, strict
            if -1 not in t:
                b, strict = bound, 0 not in t
                if up:
                    if lo is None or b - slack > lo or (b - slack == lo and strict):
                        lo, lo_s = b - slack, strict
                else:
                    if hi is None or b + slack < hi or (b + slack == hi and strict):
                        hi, hi_s = b + slack, strict
            iv[a] = (lo, hi, lo_s, hi_s)
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (lo_s or hi_s))):
                return False
        return linear_feasible(self.f)


def linear_feasible(facts):
    """Fourier-Motzkin over the monomials of the polynomial facts (sound: True when unsure)"""
    l = []
    for p, t in facts:
        if not p.laurent() or len(p.n) > 5:
            continue
        if 1 not in t:
            l.append(({m: -c for m, c in p.n.items()}, 0 not in t))
        if -1 not in t:
            l.append((dict(p.n), 0 not in t))
    return fm_feasible(l)


def fm_feasible(l):
    """l: [({monomial: coefficient}, strict)] meaning sum >= 0 (> 0 when strict); False only when contradictory"""
    rows = []  # (coefficients {monomial: c}, constant, strict)

    def push(d, strict):
        k = d.pop((), F(0))
        lead = abs(d[min(d)]) if d else F(1)
        row = (tuple(sorted((m, c / lead) for m, c in d.items())), k / lead, strict)
        if row not in rows:
            rows.append(row)

    for d, st in l:
        push(dict(d), st)
    while True:
        for d, k, st in rows:
            if not d and (k < 0 or (k == 0 and st)):
                return False
        rows = [r for r in rows if r[0]]
        if not rows:
            return True
        if len(rows) > 60:
            return True
        cnt = {}
        for d, k, st in rows:
            for m, c in d:
                x = cnt.setdefault(m, [0, 0])
                x[c > 0] += 1
        m = min(cnt, key=lambda v: (cnt[v][0] * cnt[v][1], str(v)))
        old, rows = rows, []
        pos, neg = [], []
        for d, k, st in old:
            c = dict(d).get(m)
            if c is None:
                rows.append((d, k, st))
            else:
                (pos if c > 0 else neg).append((dict(d), k, st, c))
        for d1, k1, s1, c1 in pos:
            for d2, k2, s2, c2 in neg:
                d = {}
                for v, c in d1.items():
                    d[v] = d.get(v, 0) + c / c1
                for v, c in d2.items():
                    d[v] = d.get(v, 0) - c / c2
                d = {v: c for v, c in d.items() if c}
                d[()] = k1 / c1 - k2 / c2
                push(d, s1 or s2)


def scalar(p, q):
    """c with p == c*q (c a nonzero rational), or None"""
    if p.d is None and q.d is None:
        if len(p.n) != len(q.n) or set(p.n) != set(q.n):
            return None
        c = None
        for m, x in p.n.items():
            y = x / q.n[m]
            if c is None:
                c = y
            elif c != y:
                return None
        return c
    if p == q:
        return F(1)
    if p == -q:
        return F(-1)
    return None
