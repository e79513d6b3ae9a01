"""Composition of function templates (the leaves of the abstract interpreter) over token trees: what text a formatter writes for a given
token stream, by induction over its nesting."""
import cgen, models
from interp import *
from interp import St
from cgen import E, S, Undecided, NoElem, Broken


class Skip(Exception):
    """this element is filtered out"""


class Tok:
    """payload of a token tree"""

    def __init__(self, **k):
        self.__dict__.update(k)


def G(d, *kids):
    return E("Group", Tok(delim=E(d), kids=list(kids)))


def I(t):
    return E("Ident", Tok(text=t))


def P(c, joint=False):
    return E("Punct", Tok(ch=c, sp=E("Joint" if joint else "Alone")))


def L(t):
    return E("Literal", Tok(text=t))


OPEN = {"Parenthesis": "()", "Brace": "{}", "Bracket": "[]", "None": ("", "")}


def display(x):
    """proc_macro2's Display: tokens apart by a space except after a joint punctuation character"""
    if isinstance(x, list):
        o, joint = "", True
        for t in x:
            if not joint:
                o += " "
            joint = t.v == "Punct" and t.p[0].sp.v == "Joint"
            o += display(t)
        return o
    p = x.p[0] if isinstance(x, E) else x
    if hasattr(p, "kids"):
        a, b = OPEN[p.delim.v]
        s = display(p.kids)
        if p.delim.v == "Brace":
            s = " " + s + " " if s else " "
        return a + s + b
    return p.ch if hasattr(p, "ch") else p.text


class Env(cgen.Env):
    def __init__(self, ev, params):
        self.ev = ev
        self.params = params
        self.el, self.flags, self.cache, self.folds = {}, {}, {}, {}

    def text(self, t):
        v = self.val(t)
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            return "".join(v)
        if isinstance(v, bool) or not isinstance(v, (str, int)):
            raise Undecided("text of " + show(t)[:120])
        return str(v)

    def lst(self, t):
        v = self.val(t)
        if isinstance(v, str):
            return [v]
        if not isinstance(v, list):
            raise Undecided("list " + show(t)[:120])
        return v

    def val(self, t):
        if not isinstance(t, T):
            return t
        if t in self.el:
            v = self.el[t]
            if v is cgen.UNKNOWN:
                raise Undecided("state")
            return v
        o, a = t.op, t.a
        if o == "sym":
            if a[0] in self.params:
                return self.params[a[0]]
            raise Undecided(show(t))
        if o == "char":
            return chr(a[0]) if isinstance(a[0], int) else str(a[0])
        if o == "chars":
            return self.text(a[0])
        if o == "fld" and a[1] is not None:
            x = self.val(a[0])
            if isinstance(x, E):
                if x.v != a[1]:
                    raise NoElem()
                return x.p[int(a[2])]
        if o == "ctor":
            return E(a[1], *[self.val(v) for _, v in a[2]])
        if o in ("disp", "owned", "conv"):
            x = self.val(a[0])
            if isinstance(x, (E, Tok)) or (isinstance(x, list) and x and isinstance(x[0], E)):
                return display(x)
            return x
        if o == "eq":
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, E) and isinstance(y, E):
                return x.v == y.v
            if isinstance(x, list):
                x = "".join(x)
            if isinstance(y, list):
                y = "".join(y)
            return x == y
        if o == "after":
            if a[0] in self.ev.p.bodies:
                args = [self.val(x) for x in a[2]]
                return self.ev.call(a[0], args)[1].get(a[1], args[a[1]])
            f = a[0].split("::")[-1]
            raise Undecided(show(t)[:120])
        if o == "catall":
            coll, elem, body = a
            return "".join("".join(x) if isinstance(x, list) else x for x in cgen.Env.loop(self, coll, elem, body, {})[0])
        if o in ("lt", "le", "gt", "ge", "ne") and len(a) == 2:
            x, y = self.val(a[0]), self.val(a[1])
            if type(x) is type(y) and isinstance(x, (int, str)):
                return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "ne": x != y}[o]
            raise Undecided(show(t)[:120])
        if o == "elemof":
            x = self.lst(a[0])
            if not x:
                raise Skip()
            if len(x) == 1:
                return x[0]
            raise Undecided(show(t)[:120])
        if o == "cat":
            return "".join(self.text(x.a[0] if x.op == "spread" else x) for x in a[0])
        if o == "range" and len(a) >= 2:
            lo, hi = self.val(a[0]), self.val(a[1])
            if isinstance(lo, int) and isinstance(hi, int):
                return list(range(lo, hi))
        if o == "slice":
            x, lo, hi = self.text(a[0]), self.val(a[1]), self.val(a[2])
            if isinstance(lo, int) and isinstance(hi, int):
                if not 0 <= lo <= hi <= len(x):
                    raise Broken("a text of length %d is cut at %d..%d" % (len(x), lo, hi))
                return x[lo:hi]
        if o == "ovf":
            x = self.val(a[0].a[1]), self.val(a[0].a[2])
            if all(isinstance(y, int) for y in x):
                v = {"Add": x[0] + x[1], "Sub": x[0] - x[1], "Mul": x[0] * x[1]}.get(a[0].a[0], 0)
                return not 0 <= v < 2 ** 64
            return False
        if o == "op":
            x, y = self.val(a[1]), self.val(a[2])
            if isinstance(x, int) and isinstance(y, int):
                f = {"Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y}.get(a[0])
                if f:
                    return f()
        return cgen.Env.val(self, t)

    def libcall(self, t, n, args):
        last = n.split("::")[-1]
        if n in self.ev.p.bodies:
            return self.ev.call(n, [self.val(x) for x in args])[0]
        v = [self.val(x) for x in args]
        x = v[0] if v else None
        if isinstance(x, E) and len(x.p) == 1 and isinstance(x.p[0], Tok):
            x = x.p[0]
        if isinstance(x, Tok):
            if last == "delimiter":
                return x.delim
            if last == "stream":
                return x.kids
            if last == "spacing":
                return x.sp
            if last == "as_char":
                return x.ch
            if last in ("to_string", "clone"):
                return display(x) if last == "to_string" else v[0]
        if last in ("trim_start_matches", "trim_end_matches") and isinstance(x, str) and isinstance(v[1], str) and v[1]:
            while x.startswith(v[1]) if last == "trim_start_matches" else x.endswith(v[1]):
                x = x[len(v[1]):] if last == "trim_start_matches" else x[:-len(v[1])]
            return x
        if last == "repeat" and isinstance(v[1], int):
            return ("".join(x) if isinstance(x, list) else x) * v[1]
        if last in ("into_iter", "iter", "clone") and isinstance(x, list):
            return x
        if last in ("is_whitespace", "is_ascii_whitespace") and isinstance(x, str):
            return x.isspace()
        return cgen.Env.libcall(self, t, n, args)

    def loop(self, coll, elem, body, folds):
        out = []
        saved = dict(self.el)
        cur = {acc: self.val(init) for acc, (init, _) in folds.items()}
        for x in self.lst(coll):
            self.el[elem] = x
            self.el.update(cur)
            try:
                if body is not None:
                    out += self.body(body)
                cur = {acc: self.val(b) for acc, (_, b) in folds.items()}
            except Skip:
                pass
        self.el = saved
        return out, cur

    def body(self, b, aslist=True):
        if b.op == "case":
            v = self.val(b)
            return v if isinstance(v, list) or not aslist else [v]
        return self.lst(b) if aslist else self.val(b)


class Eval:
    def __init__(self, p):
        self.p = p
        self.lv = {}
        self.used = set()
        self.memo = {}

    def leaves(self, f):
        if f not in self.lv:
            ip = self.p.interp(want_panics=True)
            b = self.p.bodies[f]
            st = St()
            args = []
            for i in range(b["argc"]):
                args.append(ip.wrap_refs(st, b["crate"], b["locals"][i + 1], SYM("p%d" % (i + 1))))
            out = []
            for l in ip.run_body(b, args, st):
                facts = [x for x in l.st.order if x[0] in ("b", "is", "isnot")]
                outs = {}
                for i, a in enumerate(args):
                    if isT(a, "ref"):
                        v = ip.resolve(l.st, models.val(ip, l.st, a))
                        if v is not SYM("p%d" % (i + 1)):
                            outs[i] = v
                out.append((l.kind, facts, ip.resolve(l.st, l.val) if isinstance(l.val, T) else l.val, outs))
            self.lv[f] = out
        self.used.add(f)
        return self.lv[f]

    def call(self, f, args):
        """(result, {index of &mut parameter: value afterwards})"""
        params = {"p%d" % (i + 1): a for i, a in enumerate(args)}
        for kind, facts, val, outs in self.leaves(f):
            env = Env(self, params)
            try:
                if not all(env.fact(x) for x in facts):
                    continue
            except NoElem:
                continue
            if kind == "panic":
                raise Broken("%s panics when %s" % (f, "; ".join(show(x[1])[:80] for x in facts[-2:])))
            if kind != "return":
                raise Undecided(kind)
            o = {}
            for i, v in outs.items():
                x = env.val(v)
                o[i] = "".join(x) if isinstance(x, list) and all(isinstance(y, str) for y in x) else x
            r = None
            if isinstance(val, T):
                try:
                    r = env.val(val)
                except Undecided:
                    if isT(val, "tuple") or not outs:
                        if not outs:
                            raise
            return r, o
        raise Undecided("no path of %s applies" % f)
