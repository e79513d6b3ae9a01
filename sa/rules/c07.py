from rules.travcommon import *
from cg import *

RULE = ("polynomial denotation of the expression lists and trees built by Expand: by induction over the recursive calls, the terms collected for (e, negated) sum to +e or -e, "
        "the sum builder returns the sum of its terms, and each visited Unary/Binary node is mapped to a tree with the same polynomial; sums, differences and products are distributed")

W = "doctor-syn/src/transformation/expand.rs"
TW = "doctor-syn/src/transformation/tools.rs"


class Unk(Exception):
    pass


class Wrong(Exception):
    pass


class Lost(Exception):
    pass


class Poly(dict):
    """{monomial (sorted tuple of atoms): coefficient}; the sign atom S squares to 1"""

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    def add(self, o, k=1):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + k * c
            if r[m] == 0:
                del r[m]
        return r

    def mul(self, o):
        r = Poly()
        for m, c in self.items():
            for n, d in o.items():
                q = sorted(m + n, key=repr)
                while q.count(SGN) >= 2:
                    q.remove(SGN)
                    q.remove(SGN)
                q = tuple(q)
                r[q] = r.get(q, 0) + c * d
                if r[q] == 0:
                    del r[q]
        return r

    def show(self):
        return " + ".join("%s%s" % ("" if c == 1 else "%d*" % c, "*".join(show(a[1]) if isinstance(a[1], T) else str(a[1]) for a in m) or "1") for m, c in self.items()) or "0"


SGN = ("S", "sign")


class Den:
    def __init__(self, lf, ip, neg=None):
        self.lf, self.ip, self.neg = lf, ip, neg

    def kind(self, e):
        return self.lf.st.v.get(e)

    def opname(self, o):
        if o.op == "ctor":
            return o.a[1]
        return self.lf.st.v.get(o)

    def sign(self, n):
        n = self.ip.resolve(self.lf.st, n)
        if n.op == "bool":
            return Poly.const(-1 if n.a[0] else 1)
        if n.op == "not":
            return Poly.const(-1).mul(self.sign(n.a[0]))
        if self.neg is not None and n is self.neg:
            f = dict(facts_true(self.lf.st)).get(n)
            if f is not None:
                return Poly.const(-1 if f else 1)
            return Poly.atom(SGN)
        raise Unk("sign " + show(n))

    def den(self, e):
        if e.op == "case":
            raise Unk("case")
        if e.op == "fold" and len(e.a) >= 5:
            return self.foldtree(e)
        if e.op == "sumof":
            return self.ls(e.a[0])
        if e.op == "parsed":
            raise Unk("parsed tokens")
        if e.op == "ctor" and e.a[0] == EXPR:
            k, x = e.a[1], e.a[2][0][1]
            if isT(x, "fld") and x.a[1] == k and x.a[2] == "0":
                return self.den(x.a[0])
            g = lambda n: get(x, n) if x.op == "ctor" else FLD(x, None, n)
        elif e.op == "ctor":
            raise Unk(show(e))
        else:
            k = self.kind(e)
            if k is None:
                return Poly.atom(("e", self.canon(e)))
            x = FLD(e, k, "0")
            g = lambda n: FLD(x, None, n)
        if k == "Paren":
            return self.den(g("expr"))
        if k == "Binary":
            o = self.opname(g("op"))
            l, r = g("left"), g("right")
            if o == "Add":
                return self.den(l).add(self.den(r))
            if o == "Sub":
                return self.den(l).add(self.den(r), -1)
            if o == "Mul":
                return self.den(l).mul(self.den(r))
        if k == "Unary" and self.opname(g("op")) == "Neg":
            return Poly().add(self.den(g("expr")), -1)
        if e.op == "ctor":
            # rebuilt node of another kind: an atom only if it is the same node
            if x.op == "ctor":
                src = {y.a[0] for n, y in x.a[2] if y.op == "fld" and n == y.a[2]}
                if len(src) == 1:
                    s = src.pop()
                    if s.op == "fld" and all(y is FLD(s, None, n) or n in ("attrs", "paren_token") for n, y in x.a[2]):
                        return self.den(s.a[0])
            raise Unk(show(e))
        return Poly.atom(("e", self.canon(e)))

    def foldtree(self, e):
        """a tree grown by one term per element: the accumulated tree gains +element or -element on every path"""
        coll, el, init, acc, body = e.a[:5]
        alts = [(f, v) for f, v in body.a[0]] if body.op == "case" else [((), body)]
        had = dict(self.lf.st.v)
        forms = []
        try:
            for facts, v in alts:
                self.lf.st.v.clear()
                self.lf.st.v.update(had)
                for f in facts:
                    if f[0] == "is":
                        self.lf.st.v[f[1]] = f[2]
                    elif f[0] != "isnot":
                        raise Unk("condition in a loop " + str(f)[:80])
                got = self.den(v).add(self.den(acc), -1)
                one = self.den(el)
                if got == one:
                    forms.append(1)
                elif got == Poly().add(one, -1):
                    forms.append(-1)
                else:
                    forms.append(got.show())
        finally:
            self.lf.st.v.clear()
            self.lf.st.v.update(had)
        if len(set(forms)) == 1 and forms[0] in (1, -1):
            return self.den(init).add(self.ls(coll), forms[0])
        if all(x in (1, -1) for x in forms):
            raise Wrong("some terms are added and some subtracted whatever their own sign: %s" % forms)
        raise Unk("loop body " + str(forms)[:100])

    def canon(self, e):
        """one name for the i-th element from the end / start"""
        if e.op == "index_end":
            return T("index", e.a[0], T("op", "Sub", T("len", e.a[0]), e.a[1] if isinstance(e.a[1], T) else INT(e.a[1])))
        if e.op == "last" and len(e.a) == 1:
            return self.last(e.a[0])
        if e.op == "first" and len(e.a) == 1:
            return T("index", e.a[0], INT(0))
        return e

    def ls(self, s):
        """sum of the denotations of the elements of a list term"""
        if s.op == "seq":
            t = Poly()
            for y in s.a[0]:
                if y.op == "spread":
                    t = t.add(self.ls(y.a[0]))
                elif y.op == "each":
                    t = t.add(self.over(y.a[0], y.a[1], self.ls(y.a[2])))
                else:
                    t = t.add(self.den(y))
            return t
        if s.op == "terms":
            return self.sign(s.a[1]).mul(self.den(s.a[0]))
        if s.op == "init":
            return self.ls(s.a[0]).add(self.den(self.last(s.a[0])), -1)
        if s.op in ("tail", "rest"):
            return self.ls(s.a[0]).add(self.den(T("index", s.a[0], INT(0))), -1)
        if s.op == "fold" and len(s.a) >= 5:
            coll, el, init, acc, body = s.a[:5]
            b = self.ls(body)
            key = (("L", acc),)
            if b.get(key) != 1:
                raise Unk("accumulator " + b.show())
            g = Poly(b)
            del g[key]
            if any(("L", acc) in m for m in g):
                raise Unk("accumulator")
            return self.ls(init).add(self.over(coll, el, g))
        if s.op in ("acc", "sym", "fld", "elem", "index"):
            one = self.lf.st.v
            return Poly.atom(("L", s))
        if s.op in ("take", "skip", "stepby") and len(s.a) > 1 and isT(s.a[1], "int") and s.a[1].a[0] > (s.op == "stepby"):
            raise Lost(show(s))
        raise Unk("list " + show(s))

    def last(self, s):
        return T("index", s, T("op", "Sub", T("len", s), INT(1)))

    def over(self, coll, el, g):
        """sum over the elements of coll of g (linear in the element)"""
        a = ("e", el)
        r = Poly()
        l = None
        for m, c in g.items():
            if m.count(a) != 1:
                raise Unk("element occurs %d times in a term" % m.count(a))
            q = list(m)
            q.remove(a)
            l = l or self.ls(coll)
            r = r.add(Poly({tuple(q): c}).mul(l))
        return r

    def norm(self, p):
        """apply len(S) == 1  =>  sum(S) = last(S) = S[0]"""
        for t, val in facts_true(self.lf.st):
            if t.op == "eq" and val and INT(1) in t.a:
                for y in t.a:
                    if y.op == "len":
                        s = y.a[0]
                        r = Poly()
                        for m, c in p.items():
                            m2 = tuple(("e", T("index", s, INT(0))) if a in (("L", s), ("e", self.last(s))) else a for a in m)
                            r[m2] = r.get(m2, 0) + c
                            if r[m2] == 0:
                                del r[m2]
                        p = r
        return p


class Conc(Den):
    """the same for a list S of n terms"""

    def __init__(self, lf, ip, S, n):
        Den.__init__(self, lf, ip)
        self.S, self.n = S, n
        self.at = {}
        for k in list(lf.st.v) + list(lf.st.nv):
            if isinstance(k, T) and k.op in ("index", "index_end", "first", "last") and k.a[0] is S:
                k2 = self.canon(k)
                self.at[self.num(k2.a[1])] = k

    def num(self, t):
        if isT(t, "int"):
            return t.a[0]
        if t.op == "len":
            return len(self.lst(t.a[0]))
        if t.op == "op" and t.a[0] in ("Add", "Sub", "Mul", "Div", "Rem", "Shr"):
            x, y = self.num(t.a[1]), self.num(t.a[2])
            if t.a[0] in ("Div", "Rem") and y == 0 or t.a[0] == "Sub" and x < y:
                raise Unk("arithmetic")
            return {"Add": x + y, "Sub": x - y, "Mul": x * y, "Div": y and x // y, "Rem": y and x % y, "Shr": x >> min(y, 64)}[t.a[0]]
        if t.op == "call" and t.a[0] in ("max", "min"):
            return (max if t.a[0] == "max" else min)(self.num(t.a[1][0]), self.num(t.a[1][1]))
        raise Unk("number " + show(t))

    def lst(self, s):
        if s is self.S:
            return [self.at.get(i, T("index", s, INT(i))) for i in range(self.n)]
        if s.op == "seq":
            o = []
            for y in s.a[0]:
                if y.op == "spread":
                    o += self.lst(y.a[0])
                elif y.op == "each":
                    raise Unk("each")
                else:
                    o.append(y)
            return o
        l = self.lst(s.a[0]) if s.op in ("init", "tail", "rest", "take", "skip", "stepby", "slice", "rev") else None
        if s.op == "init":
            return l[:-1]
        if s.op in ("tail", "rest"):
            return l[1:]
        if s.op == "rev":
            return l[::-1]
        if s.op == "slice":
            a, b = self.num(s.a[1]), self.num(s.a[2])
            if not 0 <= a <= b <= len(l):
                raise Unk("range")
            return l[a:b]
        if s.op in ("take", "skip", "stepby"):
            k = self.num(s.a[1])
            return l[:k] if s.op == "take" else l[k:] if s.op == "skip" else l[:: max(k, 1)]
        raise Unk("list " + show(s))

    def ls(self, s):
        t = Poly()
        for y in self.lst(s):
            t = t.add(self.den(y))
        return t

    def den(self, e):
        if e.op in ("index", "index_end", "first", "last") and self.kind(e) is None:
            c = self.canon(e)
            l = self.lst(c.a[0])
            i = self.num(c.a[1])
            if not 0 <= i < len(l):
                raise Unk("index")
            e = l[i]
            if self.kind(e) is None:
                return Poly.atom(("e", e))
        return Den.den(self, e)

    def feasible(self):
        for t, val in facts_true(self.lf.st):
            if not any(y.op == "len" for y in subterms(t)):
                continue
            if t.op in ("eq", "lt"):
                a, b = self.num(t.a[0]), self.num(t.a[1])
                if ((a == b) if t.op == "eq" else (a < b)) != val:
                    return False
            else:
                raise Unk("condition " + show(t))
        return True


def instances(lf, ip, v, S):
    """(n, got, want) for concrete lengths the path admits"""
    for n in (1, 2, 3, 4, 5, 8, 65, 102, 300):
        d = Conc(lf, ip, S, n)
        if d.feasible():
            yield n, d.den(v), d.ls(S)


def tyname(c, i):
    return c.types[i]["s"].replace("'_ ", "").replace("'{erased} ", "")


def signature(b):
    return [re.sub(r"'\S+ ", "", tyname(b["crate"], t)) for t in b["locals"][1 : 1 + b["argc"]]]


def classify(p):
    """recursive term collectors and sum builders, by type"""
    coll, summ = {}, []
    for f, b in p.lib.bodies.items():
        if b["kind"] not in ("Fn", "AssocFn"):
            continue
        sg = signature(b)
        if sorted(sg) == sorted(["&syn::Expr", "&mut std::vec::Vec<syn::Expr>", "bool"]) or sorted(sg) == sorted(["&syn::expr::Expr", "&mut alloc::vec::Vec<syn::expr::Expr>", "bool"]):
            coll[f] = [i for i, s in enumerate(sg) if s.endswith("Expr") and "mut" not in s][0], [i for i, s in enumerate(sg) if "mut" in s][0], sg.index("bool")
        ret = tyname(b["crate"], b["locals"][0])
        if len(sg) == 1 and re.match(r"&\[syn::(expr::)?Expr\]$", sg[0]) and re.match(r"syn::(expr::)?Expr$", ret):
            summ.append(f)
    return coll, summ


def hooks(p, coll, summ, top=True):
    def hook(ip, st, info, args, ctx):
        n = info.rkey or info.key
        if n in coll and ctx.fr is not None:
            ie, iv, ib = coll[n]
            e, neg = ip.resolve(st, args[ie]), ip.resolve(st, args[ib])
            v = ip.deref(st, args[iv])
            w = T("seq", (v.a[0] if v.op == "seq" else (T("spread", v),)) + (T("spread", T("terms", e, neg)),))
            ip.write(st, args[iv].a[0], args[iv].a[1], w)
            ret = tyname(p.bodies[n]["crate"], p.bodies[n]["locals"][0])
            if ret == "()":
                return [Leaf(st, "return", UNIT)]
            s2 = st.copy()
            t = T("msum", e, neg)
            a = st.assume_variant(t, RES, "Ok")
            b = s2.assume_variant(t, RES, "Err")
            return [Leaf(a, "return", OK(UNIT)), Leaf(b, "return", ERR(FLD(t, "Err", "0")))]
        if n in summ and ctx.fr is not None:
            return [Leaf(st, "return", T("sumof", ip.resolve(st, args[0])))]
        return None

    return hook


def run(r):
    p = prog()
    coll, summ = classify(p)
    r.saw("term collectors", len(coll))
    r.saw("sum builders", len(summ))
    if not coll:
        r.undecided("collector", "no function (&Expr, &mut Vec<Expr>, bool) found", W)
    h = hooks(p, coll, summ)
    for f, (ie, iv, ib) in coll.items():
        ip = p.interp(hooks=[h])
        b = p.bodies[f]
        st = St()
        args = []
        for i in range(b["argc"]):
            v = SYM("p%d" % (i + 1))
            args.append(v if i == ib else ip.ref_to(st, v))
        E, S, B = SYM("p%d" % (ie + 1)), SYM("p%d" % (iv + 1)), SYM("p%d" % (ib + 1))
        n = 0
        for lf in ip.run_body(b, args, st):
            if lf.kind != "return":
                r.bad("collect/panic", "collecting the terms of an expression panics [%s]" % factstr(lf.st), W)
                continue
            v = sem(ip.resolve(lf.st, lf.val))
            if errval(v) is not None:
                rec = any(isT(x, "msum") and lf.st.v.get(x) == "Err" for x in subterms(v))
                (r.ok if rec else r.undecided if opaque(v) else r.bad)("collect/err", "collecting terms must not fail; got %s [%s]" % (show(v), factstr(lf.st)), W)
                continue
            cell = sem(ip.resolve(lf.st, ip.read(lf.st, args[iv].a[0], args[iv].a[1])))
            d = Den(lf, ip, B)
            k = case_name(d, E)
            n += 1
            try:
                got = d.ls(cell).add(Poly.atom(("L", S)), -1)
                want = d.sign(B).mul(d.den(E))
            except Lost as u:
                r.bad("collect/" + case_name(d, E), "terms are lost: only %s of a list of terms is used" % u, W)
                continue
            except Unk as u:
                r.undecided("collect/" + k, "%s in %s" % (u, show(cell)), W)
                continue
            r.check("collect/" + k, got == want, "for %s the collected terms sum to %s instead of %s [%s]" % (k, got.show(), want.show(), factstr(lf.st)), W, "Σ = " + want.show()[:200])
            # distribution: a sum, difference or product is never kept as a single term
            ek = E
            if d.kind(ek) == "Paren":
                ek = FLD(FLD(ek, "Paren", "0"), None, "expr")
            if d.kind(ek) == "Binary":
                op = d.opname(FLD(FLD(ek, "Binary", "0"), None, "op"))
                items = [y for y in cell.a[0]] if cell.op == "seq" else []
                whole = any(y is ek or y is E or (y.op == "ctor" and y.a[1] == "Unary" and ek in subterms(y)) for y in items)
                if op in ("Add", "Sub", "Mul"):
                    r.check("distribute/" + op, not whole, "a %s is kept as one term instead of being expanded [%s]" % (op, factstr(lf.st)), W, "expanded")
                elif op is None and whole:
                    nv = lf.st.nv.get(FLD(FLD(ek, "Binary", "0"), None, "op"), frozenset())
                    for o in ("Add", "Sub", "Mul"):
                        r.check("distribute/" + o, o in nv, "a %s is kept as one term instead of being expanded [%s]" % (o, factstr(lf.st)), W, "excluded")
        r.floor("collector paths", n, 6)
    for f in summ:
        ip = p.interp(hooks=[h])
        n = 0
        for lf in ip.run(f):
            if lf.kind != "return":
                continue
            v = sem(ip.resolve(lf.st, lf.val))
            d = Den(lf, ip)
            n += 1
            S = SYM("p1")
            key = "sum/%d" % n
            try:
                got = d.norm(d.den(v))
                want = d.norm(Poly.atom(("L", S)))
            except Wrong as u:
                r.bad("sum", str(u), TW)
                continue
            except Lost as u:
                r.bad("sum", "terms are lost: only %s of a list of terms is used" % u, TW)
                continue
            except Unk as u:
                try:
                    k = 0
                    for k, got, want in instances(lf, ip, v, S):
                        if got != want:
                            r.bad("sum", "the sum built from %d terms is %s instead of %s [%s]" % (k, got.show()[:200], want.show()[:200], factstr(lf.st)), TW)
                            break
                    else:
                        if not k:
                            raise u
                        r.ok("sum", show(v)[:200], TW)
                except (Unk, RecursionError) as u:
                    r.undecided("sum", "%s in %s" % (u, show(v)), TW)
                continue
            r.check("sum", got == want, "the sum built from the terms is %s instead of their sum %s [%s]" % (got.show(), want.show(), factstr(lf.st)), TW, show(v)[:200])
    # the visited nodes
    ip, sp = walk(r, "doctor_syn::transformation::expand::Expand", {"Unary", "Binary"}, hooks=[h])
    nn = 0
    for k in ("Unary", "Binary"):
        for lf in sp.get(k, []):
            if lf.kind != "return":
                r.undecided(k + "/panic", factstr(lf.st), W)
                continue
            x = okval(lf.val)
            if x is None:
                e = errval(lf.val)
                if e is None:
                    r.undecided(k, show(lf.val), W)
                    continue
                rec = any(y.op in ("msum", "visit") and lf.st.v.get(y) == "Err" for y in subterms(e))
                unop = lf.st.v.get(fld("Unary", "op")) if k == "Unary" else None
                if rec or (k == "Unary" and (unop in ("Not", "Deref") or (unop is None and "Neg" in lf.st.nv.get(fld("Unary", "op"), ())))):
                    r.ok(k + "/err", show(lf.val)[:200], W)
                else:
                    (r.undecided if opaque(lf.val, allow=("span",)) else r.bad)(k + "/err", "expanding must accept a %s node; got %s [%s]" % (k, show(lf.val), factstr(lf.st)), W)
                continue
            if k == "Unary" and lf.st.v.get(fld("Unary", "op")) in ("Not", "Deref"):
                continue
            d = Den(lf, ip)
            try:
                got, want = d.den(x), d.den(NODE)
            except Lost as u:
                r.bad(k, "terms are lost: only %s of a list of terms is used" % u, W)
                continue
            except Unk as u:
                r.undecided(k, "%s in %s" % (u, show(x)), W)
                continue
            got, want = flat(got, lf), flat(want, lf)
            nn += 1
            r.check(k + "/value", got == want, "a %s node with value %s is expanded to an expression with value %s [%s]" % (k, want.show(), got.show(), factstr(lf.st)), W, show(x)[:200])
            # the expansion goes through the distributing collector
            sub = subterms(x)
            r.check(k + "/expanded", bool(coll) is False or any(y.op in ("terms", "visit") for y in sub) or opaque(x), "a %s node is returned without collecting its terms: %s" % (k, show(x)), W)
    r.floor("node paths", nn, 2 if coll else 0)
    r.assume("addition, subtraction and multiplication obey the ring laws (rounding of products is not modelled); every other node is an atom")


def flat(p, lf):
    """visit(x).Ok.0 has the value of x"""
    r = Poly()
    for m, c in p.items():
        q = []
        for a in m:
            t = a[1]
            if isT(t, "fld") and t.a[1] == "Ok" and isT(t.a[0], "visit"):
                a = ("e", t.a[0].a[0])
            q.append(a)
        q = tuple(sorted(q, key=repr))
        r[q] = r.get(q, 0) + c
        if not r[q]:
            del r[q]
    return r


def case_name(d, E):
    pre = ""
    e = E
    if d.kind(e) == "Paren":
        pre, e = "(..) ", FLD(FLD(e, "Paren", "0"), None, "expr")
    k = d.kind(e) or "other"
    if k in ("Binary", "Unary"):
        k += " " + (d.opname(FLD(FLD(e, k, "0"), None, "op")) or "other")
    return pre + k
