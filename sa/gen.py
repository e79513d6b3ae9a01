"""The generator crate (libmgen): registry, gen_* functions evaluated to token terms, parsed items."""
from load import *
from rast import *
import re

FUNCS = "libmgen::functions::FUNCTIONS"
BITS = (32, 64)


class NoGen(Exception):
    pass


# ---------------------------------------------------------------- lexer for Rust text
LEX = re.compile(
    r"""\s+|//[^\n]*|/\*.*?\*/
    |(?P<li>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)'|0[xX][0-9a-fA-F_]+(?:[ui](?:8|16|32|64|size))?|\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?|\.(?![\w.])|(?:[eE][+-]?\d+)?)(?:[iuf](?:8|16|32|64|128|size))?)
    |(?P<id>'?[A-Za-z_]\w*)
    |(?P<pu><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~])
    |(?P<op>[(\[{])|(?P<cl>[)\]}])""",
    re.X | re.S,
)
DEL = {"(": "Parenthesis", "[": "Bracket", "{": "Brace"}


def lex(s):
    stack = [[]]
    i = 0
    while i < len(s):
        m = LEX.match(s, i)
        if not m or m.end() == i:
            raise ParseError("lex at %r" % s[i : i + 20])
        i = m.end()
        if m.group("li"):
            stack[-1].append(T("li", m.group("li")))
        elif m.group("id"):
            t = m.group("id")
            stack[-1].append(T("li", t) if t in ("true", "false") else T("id", t))
        elif m.group("pu"):
            stack[-1].append(T("pu", m.group("pu")))
        elif m.group("op"):
            stack.append([m.group("op")])
        elif m.group("cl"):
            g = stack.pop()
            stack[-1].append(T("gr", DEL[g[0]], T("ts", tuple(g[1:]))))
    if len(stack) != 1:
        raise ParseError("unbalanced")
    return tuple(stack[0])


def rust_expr(s):
    return parse_expr(lex(s))


def rust_items(s):
    return parse_items(lex(s))


# ---------------------------------------------------------------- registry
def plain(ip, st, v):
    """python value of a constant term"""
    v = ip.resolve(st, ip.deref(st, v)) if v.op == "ref" else ip.resolve(st, v)
    if v.op in ("str", "int", "bool", "float"):
        return v.a[0]
    if v.op in ("seq", "arr", "tuple"):
        return [plain(ip, st, x) for x in v.a[0]]
    if v.op == "ref":
        return plain(ip, st, v)
    if v.op == "ctor":
        if v.a[0] == OPT:
            return plain(ip, st, v.a[2][0][1]) if v.a[1] == "Some" else None
        d = {n: plain(ip, st, x) for n, x in v.a[2]}
        d["@"] = v.a[1]
        return d
    return v


class Gen:
    def __init__(self, r=None):
        self.p = prog()
        self.ip = self.p.interp()
        self.st = St()
        self.memo = {}
        p = [f for f in self.p.bin.bodies if f.endswith("::FUNCTIONS")]
        if not p:
            raise NoGen("no static FUNCTIONS")
        v = self.ip.eval_static(self.st, p[0])
        self.raw = v
        l = plain(self.ip, self.st, v)
        if not isinstance(l, list) or not all(isinstance(x, dict) for x in l):
            raise NoGen("FUNCTIONS is not a list of constant entries: " + show(v)[:200])
        self.entries = l
        self.by = {}
        for e in l:
            self.by.setdefault(e["name"], e)

    def closure(self, names):
        """dependency closure over the registry (first entry of a name); -> entries, unknown names"""
        seen, unknown, work = {}, [], list(names)
        while work:
            n = work.pop()
            if n in seen:
                continue
            e = self.by.get(n)
            if e is None:
                unknown.append(n)
                continue
            seen[n] = e
            work += e["deps"]
        return list(seen.values()), unknown

    def config(self, bits, **over):
        c = self.p.bin
        adt = next((a for a in c.adts if a.endswith("::config::Config")), None)
        opt = next((a for a in c.adts if a.split("::")[-1] == "Opt"), None)
        if adt is None or opt is None:
            return None

        def mk(a, known):
            fs = c.adts[a]["variants"][0]["fields"]
            names = [f if isinstance(f, str) else f["name"] if isinstance(f, dict) else f[0] for f in fs]
            return CTOR(a, a.split("::")[-1], *[(n, known.get(n, SYM("opt." + n))) for n in names])

        k = {"num_bits": INT(bits, "usize")}
        k.update(over)
        o = mk(opt, k)
        return mk(adt, {"options": o, **k})

    def hook(self, ip, st, info, args, ctx):
        n = info.rkey or info.key
        if n.startswith("doctor_syn::") and ctx.fr is not None and not n.endswith("::clone") and not n.startswith(("doctor_syn::variablelist::", "doctor_syn::name::")):
            b, env = info.target(ip)
            if "num_digits_for" in n and b is not None:
                return None
            return [Leaf(st, "return", T("lib", n[12:], tuple(ip.resolve(st, ip.deref(st, a)) for a in args)))]
        if n.endswith("FromStr>::from_str") or n.split("::")[-1] == "from_str":
            a = ip.resolve(st, ip.deref(st, args[0]))
            if a.op == "str" and "TokenStream" in str(info):
                try:
                    return [Leaf(st, "return", OK(T("ts", lex(a.a[0]))))]
                except ParseError:
                    return [Leaf(st, "return", ERR(T("lexerr", a)))]
        return None

    def run(self, path, args, want_panics=False):
        ip = self.p.interp(hooks=[self.hook], want_panics=want_panics)
        st = St()
        b = self.p.bodies[path]
        return ip, ip.run_body(b, [ip.ref_to(st, a) if a.op == "ctor" else a for a in args], st)

    def tokens(self, e, bits):
        """[(token terms, leaf)] of the normal returns of the entry's generator"""
        k = (e["name"], bits)
        if k not in self.memo:
            self.memo[k] = self._tokens(e, bits)
        r = self.memo[k]
        if isinstance(r, NoGen):
            raise r
        return r

    def genpath(self, e):
        g = e.get("gen")
        if g is None:
            return None
        if isinstance(g, T):
            for x in subterms(g):
                if x.op == "fn":
                    return x.a[0] if isinstance(x.a[0], str) else getattr(x.a[0], "path", str(x.a[0]))
            m = re.search(r"libmgen::[\w:]+", show(g))
            return m.group(0) if m else None
        return None

    def _tokens(self, e, bits):
        g = self.genpath(e)
        if g is None or g not in self.p.bodies:
            return NoGen("generator of %s is not a known function: %s" % (e["name"], show(e.get("gen")) if isinstance(e.get("gen"), T) else e.get("gen")))
        cfg = self.config(bits)
        nt = e["num_terms"][0 if bits == 32 else 1]
        b = self.p.bodies[g]
        args = [INT(nt, "usize"), cfg][: b["argc"]]
        try:
            ip, ls = self.run(g, args)
        except Undecided as u:
            return NoGen("%s: %s" % (g, u))
        out = []
        for lf in ls:
            if lf.kind != "return":
                continue
            v = ip.resolve(lf.st, lf.val)
            if v.op != "ts":
                return NoGen("%s returns %s" % (g, show(v)[:200]))
            out.append((v.a[0], lf))
        return out

    def items(self, e, bits):
        """parsed items of an entry (one normal return expected)"""
        ts = self.tokens(e, bits)
        if len(ts) != 1:
            # same tokens on every path?
            if len({t for t, _ in ts}) != 1:
                raise NoGen("%s has %d different outputs" % (e["name"], len(ts)))
        try:
            return parse_items(ts[0][0])
        except ParseError as x:
            raise NoGen("%s: %s" % (e["name"], x))


_g = None


def gen():
    global _g
    if _g is None:
        _g = Gen()
    return _g
