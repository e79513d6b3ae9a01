from rules.libcommon import *
from rules import scommon, s02
from rules.scommon import Conv, Den, NoLane, Out, RFILE, sh, typ
from rules import ccommon as cc
import simd
from simd import Undecided as SU, Broken, E, S

RULE = ("the definitions the generators emit (parsed from their token templates), converted with the templates of the SIMD back end: every function with what it needs becomes a method that "
        "denotes it, every name it uses is one of the emitted methods or of the SIMD types' own, and the types of all lanes agree (type inference over the methods)")

# name -> (parameter classes, result): the methods of the SIMD float and integer types
FM = {"abs": ("F", "F"), "recip": ("F", "F"), "to_bits": ("F", "U"), "copysign": ("FF", "F"), "signum": ("F", "F"), "simd_min": ("FF", "F"), "simd_max": ("FF", "F"), "simd_clamp": ("FFF", "F"),
      "is_nan": ("F", "M"), "is_infinite": ("F", "M"), "is_finite": ("F", "M"), "is_sign_negative": ("F", "M"), "is_sign_positive": ("F", "M"), "mul_add": ("FFF", "F"), "sqrt": ("F", "F"),
      "ceil": ("F", "F"), "floor": ("F", "F"), "round": ("F", "F"), "trunc": ("F", "F"), "fract": ("F", "F"), "sin": ("F", "F"), "cos": ("F", "F"),
      "exp": ("F", "F"), "exp2": ("F", "F"), "ln": ("F", "F"), "log": ("FF", "F"), "log2": ("F", "F"), "log10": ("F", "F")}


class Clash(Exception):
    pass


class Var:
    def __init__(self):
        self.to = None


def find(t):
    while isinstance(t, Var) and t.to is not None:
        t = t.to
    return t


NAMES = {"F": "floats", "U": "unsigned integers", "I": "signed integers", "M": "truth values"}


def kind(t):
    t = find(t)
    if isinstance(t, str):
        return t if t in NAMES else {"f": "F", "u": "U", "i": "I"}[t[0]] if t in scommon.PRIM else None
    return None if isinstance(t, Var) else "tuple"


def nm(t):
    t = find(t)
    return NAMES.get(t, "integers" if isinstance(t, Var) else str(t))


class Infer:
    def __init__(self, sigs):
        self.sigs = sigs
        self.memo = {}
        self.need = []

    def same(self, a, b, what):
        a, b = find(a), find(b)
        if a is b or a == b:
            return a
        if isinstance(a, Var) and kind(b) in ("U", "I", None):
            a.to = b
            return b
        if isinstance(b, Var) and kind(a) in ("U", "I", None):
            b.to = a
            return a
        raise Clash("%s has %s and %s" % (what, nm(a), nm(b)))

    def oneof(self, t, cls, what):
        u = find(t)
        if isinstance(u, Var):
            if "U" in cls or "I" in cls:
                return t
        elif kind(u) in tuple(cls):
            return t
        elif isinstance(u, str) and kind(u) is None:
            raise SU("type " + u)
        raise Clash("%s is applied to %s" % (what, nm(u)))

    def t(self, d):
        k = id(d)
        if k not in self.memo:
            self.memo[k] = (d, self.t_(d))
        return self.memo[k][1]

    def t_(self, d):
        o = d[0]
        if o == "self":
            return "F"
        if o == "parameter":
            return self.params[d[1]]
        if o == "lit":
            return Var() if d[2] == "?" else d[2]
        if o == "const":
            return d[1]
        if o == "un":
            x = self.t(d[2])
            return self.oneof(x, "FI" if d[1] == "-" else "UIM", "`%s`" % d[1])
        if o == "bin":
            a, b = self.t(d[2]), self.t(d[3])
            x = self.same(a, b, "`%s`" % d[1])
            if d[1] in ("==", "!=", "<", "<="):
                self.oneof(x, "FUIM" if d[1] in ("==", "!=") else "FUI", "`%s`" % d[1])
                return "M"
            return self.oneof(x, "FUI" if d[1] in "+-*/%" else "UIM" if d[1] in "&|^" else "UI", "`%s`" % d[1])
        if o == "cast":
            self.oneof(self.t(d[2]), "FUI", "a cast")
            return d[1]
        if o == "sel":
            self.oneof(self.t(d[1]), "M", "select")
            return self.same(self.t(d[2]), self.t(d[3]), "select")
        if o == "Tuple":
            return ("tuple",) + tuple(self.t(x) for x in d[1:])
        if o == "fld":
            x = find(self.t(d[2]))
            if isinstance(x, tuple) and x[0] == "tuple":
                return x[d[1] + 1]
            raise SU("part of a value")
        if o == "call":
            a = [self.t(x) for x in d[3]]
            if (d[1], d[2]) == ("F", "from_bits") and len(a) == 1:
                self.same(a[0], "U", "from_bits")
                return "F"
            raise SU("%s::%s" % (d[1], d[2]))
        if o == "app":
            a = [self.t(x) for x in d[2]]
            if d[1] in self.sigs:
                ps, res = self.sigs[d[1]]
            elif d[1] in FM:
                ps, res = FM[d[1]]
            else:
                raise Clash("`%s` is neither an emitted method nor one of the SIMD types" % d[1])
            if len(ps) != len(a):
                raise Clash("`%s` is called with %d instead of %d arguments" % (d[1], len(a), len(ps)))
            for x, p in zip(a, ps):
                self.same(x, p, "an argument of `%s`" % d[1])
            return res
        if o == "var":
            raise Clash("`%s` is not defined" % d[1])
        if o == "unit":
            return ("unit",)
        raise SU("type of " + o)


def run(r):
    g = load(r)
    sg = scommon.load(r)
    if g is None or sg is None:
        return
    order = {id(e): k for k, e in enumerate(g.entries)}
    defs = {}
    for e, b, it, k in each(r, g, "simd"):
        try:
            defs[(e["name"], b)] = [simd.item(i) for i in it]
        except SU as x:
            r.undecided(k, str(x), where(g, e))
    n = 0
    for b in BITS:
        den = Den(b, True)
        for e in g.entries:
            if not e["gen"] or (e["name"], b) not in defs:
                continue
            k = "simd/%s/%d" % (e["name"], b)
            cl = sorted([x for x in g.closure([e["name"]])[0] if x["gen"]], key=lambda x: order[id(x)])
            if any((x["name"], b) not in defs for x in cl):
                r.undecided(k, "a dependency was not analysed", where(g, e))
                continue
            ds = [i for x in cl for i in defs[(x["name"], b)]]
            own = {str(i.p[0].f["sig"].f["ident"]) for i in defs[(e["name"], b)] if i.v == "Fn"}
            if not own:
                continue
            try:
                toks = Conv(sg, b).file(cc.FILEN(*ds))
                o = Out(toks)
            except SU as x:
                r.undecided(k, str(x), where(g, e))
                continue
            except Broken as x:
                r.bad(k, "%s with what it needs cannot be written as SIMD methods at %d bits: %s" % (e["name"], b, x), where(g, e))
                continue
            n += 1
            sigs = {}
            for m in o.methods:
                f = m.p[0].f["sig"].f
                ins = [x for x in f["inputs"]]
                ps = ["F" if x.v == "Receiver" else den.sig_ty(x.p[0].f["ty"]) for x in ins]
                sigs[str(f["ident"])] = (ps, s02.output(f["output"], den))
            for name in sorted(own):
                kk = "%s/%s" % (k, name)
                if name not in sigs:
                    r.bad(kk, "the function %s has no method at %d bits" % (name, b), where(g, e))
                    continue
                m = [x for x in o.methods if str(x.p[0].f["sig"].f["ident"]) == name][0]
                src = [x for x in ds if x.v == "Fn" and str(x.p[0].f["sig"].f["ident"]) == name][0]
                try:
                    env = {"self": ("self",)}
                    for j, p in enumerate(m.p[0].f["sig"].f["inputs"][1:]):
                        env[s02.pname(p.p[0].f["pat"])] = ("parameter", j)
                    d2 = den.block(m.p[0].f["block"], env)
                    lead = s02.leading(src)
                    if lead is None or typ(lead.p[0].f["ty"]) != "fty":
                        r.bad(kk + "/lanes", "%s takes %s first, which the method replaces by float lanes" % (name, "nothing" if lead is None else typ(lead.p[0].f["ty"])), where(g, e))
                    else:
                        r.ok(kk + "/lanes", "", where(g, e))
                    inf = Infer(sigs)
                    inf.params = sigs[name][0][1:]
                    inf.same(inf.t(d2), sigs[name][1], "the result")
                    sd = Den(b, False)
                    e1 = dict(s02.consts(ds, sd))
                    for j, p in enumerate(src.p[0].f["sig"].f["inputs"]):
                        e1[s02.pname(p.p[0].f["pat"])] = ("parameter", j - 1) if j else ("self",)
                    d1 = sd.block(src.p[0].f["block"], e1)
                except SU as x:
                    r.undecided(kk, str(x), where(g, e))
                    continue
                except (Clash, NoLane, Broken) as x:
                    r.bad(kk, "the method %s at %d bits is not valid: %s" % (name, b, x), where(g, e))
                    continue
                r.check(kk, d1 == d2, "the method %s at %d bits computes %s instead of %s" % (name, b, sh(d2), sh(d1)), where(g, e))
    r.saw("selections converted", n)
    r.assume("std's SIMD types have the methods of core::simd and StdFloat: float and bit operations, comparisons, select, mul_add, sqrt and the roundings")
