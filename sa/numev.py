"""Exact instances of extracted recurrences: the loop summaries of the abstract interpreter (fold / each / store / range terms) over
rational numbers, so that an algebraic identity between them can be decided at generic points."""
from fractions import Fraction
from interp import *
from cgen import Undecided, Broken, E, NoElem


class Toks(list):
    """a list of token texts"""


class Below(Broken):
    """an index below zero"""


def alike(x, y):
    """a fraction next to a floating number becomes one"""
    if type(x).__name__ == "mpf" and isinstance(y, Fraction):
        return x, type(x)(y.numerator) / y.denominator
    if type(y).__name__ == "mpf" and isinstance(x, Fraction):
        return type(y)(x.numerator) / x.denominator, y
    return x, y


class Skip(Exception):
    """this element was filtered out"""


class NumEnv:
    unsigned = True  # index arithmetic must not go below zero

    def __init__(self, params, folds, on=None):
        self.p = params
        self.folds = folds
        self.on = on or (lambda self, t: NotImplemented)
        self.el = {}
        self.exits = {}

    def fact(self, f):
        k = f[0]
        if k == "b":
            return bool(self.val(f[1])) is f[2]
        if k in ("is", "isnot"):
            t = f[1]
            names = f[2] if isinstance(f[2], (tuple, frozenset, set, list)) else (f[2],)
            if t.op == "call" and "FromPrimitive::from_" in t.a[0]:
                return ("Some" in names) is (k == "is")
            v = self.val(t)
            if not isinstance(v, E):
                raise Undecided("variant of " + show(t)[:100])
            return (v.v in names) if k == "is" else (v.v not in names)
        if k == "forall":
            return self.forall(f[1], f[2], f[3])
        raise Undecided("fact " + str(k))

    def forall(self, coll, elem, alts):
        """does the loop run to its end; otherwise remember the state in which it is left"""
        accs = self.group(coll, elem, alts, {})
        if not any(a for a in alts):
            return True
        saved = dict(self.el)
        cur = {c: self.val(i) for c, (i, _) in accs.items()}
        idx = T("idx", coll, elem.a[1]) if elem.op == "elem" else None
        # the state at an exit may involve accumulators the conditions do not
        more = {}
        for c in self.folds:
            fc, fe, old, b = self.folds[c]
            if fc is coll and fe is elem and c not in accs and c not in self.el:
                try:
                    more.update(self.group(coll, elem, b, {c: (old, b)}))
                except (Undecided, NoElem):
                    pass
        for c, (i, b) in more.items():
            if c not in accs:
                try:
                    cur[c] = self.val(i) if i is not None else None
                    accs[c] = (i, b)
                except (Undecided, NoElem):
                    pass
        for i, x in enumerate(self.lst(coll)):
            self.el = dict(saved)
            self.el[elem] = x
            if idx is not None:
                self.el[idx] = i
            self.el.update(cur)
            if not any(all(self.fact(f) for f in a) for a in alts):
                self.exits[elem] = dict(self.el)
                self.el = saved
                return False
            nxt = {}
            for c, (_, b) in accs.items():
                try:
                    nxt[c] = self.val(b)
                except Undecided as u:
                    nxt[c] = u
            cur = nxt
        self.el = saved
        return True

    def num(self, t):
        v = self.val(t)
        if isinstance(v, bool) or not (isinstance(v, (int, Fraction, float)) or type(v).__name__ == "mpf"):
            raise Undecided("number " + show(t)[:120])
        return v

    def lst(self, t):
        v = self.val(t)
        if not isinstance(v, list):
            raise Undecided("list " + show(t)[:120])
        return v

    def val(self, t):
        if not isinstance(t, T):
            return t
        if t in self.el:
            v = self.el[t]
            if isinstance(v, Undecided):
                raise v
            return v
        r = self.on(self, t)
        if r is not NotImplemented:
            return r
        o, a = t.op, t.a
        if o in ("int", "bool", "str"):
            return a[0]
        if o == "sym":
            if a[0] in self.p:
                return self.p[a[0]]
            raise Undecided(show(t))
        if o == "elem":
            raise NoElem(t)
        if o == "idx":
            raise NoElem(T("elem", *a))
        if o == "ctor":
            return E(a[1], *[self.val(v) for _, v in a[2]])
        if o == "tuple":
            return tuple(self.val(x) for x in a[0])
        if o == "op" and a[0] == "Neg":
            return -self.num(a[1])
        if o == "op":
            k = a[0]
            if k in ("BitAnd", "BitOr", "BitXor"):
                x, y = self.val(a[1]), self.val(a[2])
                if isinstance(x, bool) and isinstance(y, bool):
                    return x and y if k == "BitAnd" else x or y if k == "BitOr" else x != y
            x, y = self.num(a[1]), self.num(a[2])
            x, y = alike(x, y)
            ints = isinstance(x, int) and isinstance(y, int)
            if k == "Add":
                return x + y
            if k == "Sub":
                if ints and self.unsigned and isusize(t):
                    if x < y:
                        raise Below("subtraction %d - %d below zero" % (x, y))
                return x - y
            if k == "Mul":
                return x * y
            if k in ("Div", "Rem"):
                if y == 0:
                    raise Broken("division by zero: " + show(t)[:200])
                if ints and isidx(t):
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return q if k == "Div" else x - q * y
                if k == "Div":
                    return Fraction(x) / y if isinstance(x, int) and not isinstance(y, float) and type(y).__name__ != "mpf" else x / y
                return x % y
            if k in ("BitAnd", "BitOr", "Shr", "Shl") and ints:
                return {"BitAnd": x & y, "BitOr": x | y, "Shr": x >> y, "Shl": x << y}[k]
            raise Undecided(show(t)[:120])
        if o in ("neg", "Neg"):
            return -self.num(a[0])
        if o == "un":
            if a[0] == "Neg":
                return -self.num(a[1])
            if a[0] == "Not":
                return not self.val(a[1])
        if o in ("lt", "le", "gt", "ge", "eq", "ne"):
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, E) and isinstance(y, E):
                x, y = x.v, y.v
            x, y = alike(x, y)
            return {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[o]()
        if o == "not":
            return not self.val(a[0])
        if o in ("and", "or"):
            return all(self.val(x) for x in a) if o == "and" else any(self.val(x) for x in a)
        if o == "ovf":
            try:
                v = self.num(a[0])
                return v < 0 if self.unsigned else not -(2**63) <= v < 2**63
            except Below:
                return True
        if o == "len":
            return len(self.lst(a[0]))
        if o == "index":
            l, i = self.lst(a[0]), self.num(a[1])
            if not 0 <= i < len(l):
                raise Broken("index %d of %d elements: %s" % (i, len(l), show(t)[:120]))
            return l[i]
        if o == "store":
            l, i, v = self.lst(a[0]), self.num(a[1]), self.val(a[2])
            if not 0 <= i < len(l):
                raise Broken("index %d of %d elements: %s" % (i, len(l), show(a[1])[:120]))
            return l[:i] + [v] + l[i + 1:]
        if o == "range":
            lo, hi = self.num(a[0]), self.num(a[1])
            return list(range(lo, hi + (1 if a[2] is True or isT(a[2], "bool") and a[2].a[0] else 0)))
        if o == "rev":
            return list(reversed(self.lst(a[0])))
        if o == "stepby":
            return self.lst(a[0])[:: self.num(a[1])]
        if o == "skip":
            return self.lst(a[0])[self.num(a[1]):]
        if o == "take":
            return self.lst(a[0])[: self.num(a[1])]
        if o == "zip":
            return list(zip(self.lst(a[0]), self.lst(a[1])))
        if o == "enumerate":
            return list(enumerate(self.lst(a[0])))
        if o == "slice":
            l = self.lst(a[0])
            lo, hi = self.num(a[1]), self.num(a[2])
            if not 0 <= lo <= hi <= len(l):
                raise Broken("slice %d..%d of %d elements" % (lo, hi, len(l)))
            return l[lo:hi]
        if o in ("tail", "init"):
            l = self.lst(a[0])
            return l[1:] if o == "tail" else l[:-1]
        if o == "seq":
            out = []
            for x in a[0]:
                if x.op == "each":
                    out += self.each(x)
                elif x.op == "spread":
                    out += self.lst(x.a[0])
                else:
                    out.append(self.val(x))
            return out
        if o == "each":
            return self.each(t)
        if o == "case":
            err = None
            for facts, b in a[0]:
                try:
                    if all(self.fact(f) for f in facts):
                        return self.val(b)
                except NoElem:
                    continue
            raise Undecided("case " + show(t)[:80])
        if o == "fold":
            return self.fold(t)
        if o == "elemof":
            v = self.val(a[0])
            if isinstance(v, list) and not isinstance(v, Toks):
                if not v:
                    raise Skip()
                if len(v) == 1:
                    return v[0]
            raise Undecided(show(t)[:120])
        if o == "contains":
            return self.val(a[1]) in self.lst(a[0])
        if o in ("float", "flt"):
            return float(a[0])
        if o == "fld":
            if a[1] == "Some" and isT(a[0], "call") and "FromPrimitive::from_" in a[0].a[0]:
                return self.val(a[0].a[1][0])
            x = self.val(a[0])
            if isinstance(x, E):
                if a[1] is not None and x.v != a[1]:
                    raise NoElem()
                if a[2].isdigit():
                    return x.p[int(a[2])]
            if isinstance(x, tuple) and a[2].isdigit():
                return x[int(a[2])]
            if isinstance(x, dict) and a[2] in x:
                return x[a[2]]
            raise Undecided(show(t)[:120])
        if o in ("conv", "owned", "disp"):
            return self.val(a[-1] if o == "conv" else a[0])
        if o == "call":
            n = a[0].split("::")[-1]
            if n in ("zero", "one") and not a[1]:
                return Fraction(0 if n == "zero" else 1)
            if n in ("clone", "to_owned", "into", "to_vec", "normalized", "as_slice", "into_iter", "iter", "borrow"):
                return self.val(a[1][0])
            if n in ("is_zero", "is_one", "is_positive", "is_negative", "abs", "signum", "double", "half", "square", "cube", "inverse", "is_integer") and len(a[1]) == 1:
                x = self.num(a[1][0])
                if n == "inverse" and x == 0:
                    return x
                return {"is_zero": x == 0, "is_one": x == 1, "is_positive": x > 0, "is_negative": x < 0, "abs": abs(x), "signum": (x > 0) - (x < 0), "double": 2 * x, "half": x / 2, "square": x * x,
                        "cube": x**3, "inverse": 1 / x if x else x, "is_integer": x == int(x)}[n]
            if n in ("is_empty",):
                return not self.lst(a[1][0])
            if n in ("min", "max") and len(a[1]) == 2:
                return (min if n == "min" else max)(self.num(a[1][0]), self.num(a[1][1]))
            if n == "pow" and len(a[1]) == 2:
                return self.num(a[1][0]) ** self.num(a[1][1])
            raise Undecided(show(t)[:160])
        if o == "ts":
            return self.toks(a[0])
        if o == "tsall":
            return self.toks((t,))
        if o == "parsed":
            return self.val(a[-1])
        if o == "interp":
            return self.toks((t,))
        raise Undecided("%s: %s" % (o, show(t)[:160]))

    def toks(self, items):
        out = Toks()
        for x in items:
            o, a = x.op, x.a
            if o in ("id", "pu", "li"):
                out.append(str(a[0]) if not isinstance(a[0], T) else str(self.val(a[0])))
            elif o == "gr":
                l, r = {"Parenthesis": "()", "Brace": "{}", "Bracket": "[]"}.get(a[0], ("", ""))
                out += [l] + self.toks(a[1].a[0] if isT(a[1], "ts") else (a[1],)) + [r]
            elif o == "tsall":
                for v in self.loop(a[0], a[1], a[2], True):
                    out += v
            elif o == "interp":
                y = a[0]
                while isT(y, "ctor") and y.a[1] == "RepInterp":
                    y = y.a[2][0][1]
                v = self.val(y)
                if isinstance(v, Toks):
                    out += v
                elif isinstance(v, list) and all(isinstance(z, Toks) for z in v):
                    for z in v:
                        out += z
                elif isinstance(v, str):
                    out.append(v)
                else:
                    raise Undecided("tokens of " + show(y)[:100])
            elif o == "sep":
                raise Undecided("separator")
            else:
                v = self.val(x)
                if not isinstance(v, Toks):
                    raise Undecided("tokens " + show(x)[:100])
                out += v
        return out

    def each(self, t):
        out = []
        for v in self.loop(t.a[0], t.a[1], t.a[2]):
            out += v
        return out

    def loop(self, coll, elem, body, tok=False):
        """values of the body for each element; accumulators of the same loop advance alongside"""
        accs = self.group(coll, elem, body, {})
        saved = dict(self.el)
        cur = {c: self.val(i) if i is not None else None for c, (i, _) in accs.items()}
        out = []
        idx = T("idx", coll, elem.a[1]) if elem.op == "elem" else None
        for i, x in enumerate(self.lst(coll)):
            self.el = dict(saved)
            self.el[elem] = x
            if idx is not None:
                self.el[idx] = i
            self.el.update(cur)
            try:
                out.append(self.val(body))
            except Skip:
                pass
            cur = {c: self.val(b) for c, (_, b) in accs.items()}
        self.el = saved
        return out

    def group(self, coll, elem, body, known):
        """accumulators of the loop (coll, elem) that body depends on"""
        accs = dict(known)
        todo = [body] + [b for _, b in known.values()]
        while todo:
            for x in subterms(todo.pop()):
                if x.op == "acc" and x not in accs and x not in self.el and x in self.folds:
                    c, e, old, b = self.folds[x]
                    if c is coll and e is elem:
                        accs[x] = (old, b)
                        todo.append(b)
        return accs

    def fold(self, t):
        coll, elem, init, acc, body = t.a
        accs = self.group(coll, elem, body, {acc: (init, body)})
        saved = dict(self.el)
        cur = {c: self.val(i) for c, (i, _) in accs.items()}
        idx = T("idx", coll, elem.a[1]) if elem.op == "elem" else None
        for i, x in enumerate(self.lst(coll)):
            self.el = dict(saved)
            self.el[elem] = x
            if idx is not None:
                self.el[idx] = i
            self.el.update(cur)
            cur = {c: self.val(b) for c, (_, b) in accs.items()}
        self.el = saved
        return cur[acc]


def isidx(t):
    """integer (index) arithmetic: no decimal number below"""
    return not any(x.op in ("num", "round", "bd", "index") for x in subterms(t))


isusize = isidx


def choose(leaves, mk):
    """the path that applies: leaves are (kind, facts, value, outs, folds); mk(folds) makes an environment.
    A path that leaves a loop early is judged in the state in which the loop is left."""
    exits = {}
    early = []
    for l in leaves:
        env = mk(l[4])
        try:
            if all(env.fact(f) for f in l[1]):
                return env, l
        except NoElem as x:
            early.append((l, x.args[0] if x.args else None))
        exits.update(env.exits)
    for l, elem in early:
        for e, el in exits.items():
            env = mk(l[4])
            env.el = dict(el)
            try:
                if e is elem and all(env.fact(f) for f in l[1]):
                    return env, l
            except NoElem:
                continue
    raise Undecided("no path applies")
