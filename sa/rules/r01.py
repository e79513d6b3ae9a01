import re, sys

from load import prog
from interp import show
from teval import *

RULE = ("the text each path of the formatter writes for a token (from its MIR), composed over token trees: every kind of token, delimiter and spacing, next to every other "
        "kind, at the top level and inside each kind of group at every depth, must read back (Rust lexical grammar) as the same tokens")
FN = "doctor_syn::codegen::rust::format_token_stream"
FILE = "doctor-syn/src/codegen/rust.rs"

# Rust's multi-character tokens, longest first
GLUE = sorted("<<= >>= ... ..= :: -> => == != <= >= && || += -= *= /= %= ^= &= |= << >> .. <- //".split(), key=len, reverse=True)
NUM = re.compile(r"0x[0-9a-fA-F_]+\w*|0b[01_]+\w*|[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?\w*")


class LexError(Exception):
    pass


def glue(run):
    out = []
    while run:
        for g in GLUE:
            if run.startswith(g):
                break
        else:
            g = run[0]
        out.append(("p", g))
        run = run[len(g):]
    return out


def lex(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c.isspace():
            i += 1
            continue
        m = re.match(r'(?:b|r|br|c)?"(?:[^"\\]|\\.)*"\w*', s[i:]) or re.match(r"b?'(?:[^'\\]|\\.[^']*)'\w*", s[i:])
        if m and not re.match(r"'[A-Za-z_]\w*(?!')", s[i:]):
            out.append(("l", m.group(0)))
        elif re.match(r"'[A-Za-z_]\w*", s[i:]):
            m = re.match(r"'[A-Za-z_]\w*", s[i:])
            out.append(("t", m.group(0)))
        elif c.isdigit():
            m = NUM.match(s[i:])
            out.append(("l", m.group(0)))
        elif c.isalpha() or c == "_":
            m = re.match(r"(?:r#)?\w+", s[i:])
            out.append(("i", m.group(0)))
        elif c in "()[]{}":
            out.append(("d", c))
            i += 1
            continue
        else:
            m = re.match(r"[^\w\s()\[\]{}\"']+", s[i:])
            if not m:
                raise LexError("stray %r" % c)
            if m.group(0).startswith("//") or "/*" in m.group(0):
                raise LexError("a comment starts at `%s`" % s[i:i + 10])
            out += glue(m.group(0))
        i += m.end()
    return out


def flat(ts):
    out = []
    run = ""
    i = 0
    while i < len(ts):
        t = ts[i]
        p = t.p[0]
        if t.v == "Punct":
            if p.ch == "'" and i + 1 < len(ts):
                out.append(("t", "'" + ts[i + 1].p[0].text))
                i += 2
                continue
            run += p.ch
            if p.sp.v == "Alone" or i + 1 == len(ts) or ts[i + 1].v != "Punct":
                out += glue(run)
                run = ""
        elif t.v == "Group":
            a, b = OPEN[p.delim.v]
            out += ([("d", a)] if a else []) + flat(p.kids) + ([("d", b)] if b else [])
        else:
            out.append(("i" if t.v == "Ident" else "l", p.text))
        i += 1
    return out


ATOMS = {"name": I("alpha"), "keyword": I("as"), "raw name": I("r#fn"), "integer": L("1"), "float": L("2.5"), "open float": L("1."), "suffixed": L("1.5f32"),
         "string": L('"a b"'), "character": L("'c'"), "byte string": L('b"x"')}
CH = "+-*/%^!&|=<>@.,;:#$?~"


def run(r):
    sys.setrecursionlimit(50000)
    p = prog()
    r.anchor(FN, FN in p.bodies)
    if FN not in p.bodies:
        return
    ev = Eval(p)
    n = [0]
    und = set()

    def test(key, what, ts):
        try:
            v = ev.call(FN, [ts])[0]
            if isinstance(v, list) and all(isinstance(x, str) for x in v):
                v = "".join(v)
            if not isinstance(v, str):
                raise Undecided("result")
        except Undecided as x:
            if key not in und:
                und.add(key)
                r.undecided(key, "%s: %s" % (what, x), FILE)
            return
        except Broken as x:
            r.bad(key, "%s: %s" % (what, x), FILE)
            return
        except (NoElem, Skip, RecursionError, TypeError, AttributeError, IndexError, KeyError, ValueError) as x:
            if key not in und:
                und.add(key)
                r.undecided(key, "%s: %r" % (what, x), FILE)
            return
        n[0] += 1
        try:
            got = lex(v)
        except LexError as x:
            r.bad(key, "%s is written `%s`: %s" % (what, " ".join(v.split()), x), FILE)
            return
        want = flat(ts)
        if got != want:
            r.bad(key, "%s (%s) is written `%s`, which reads as %s" % (what, " ".join(x[1] for x in want), " ".join(v.split())[:120], " ".join(x[1] for x in got)[:160]), FILE)
        else:
            r.ok(key, "", FILE)

    kinds = dict(ATOMS)
    for c in CH:
        kinds["`%s`" % c] = P(c)
    for d in ("Parenthesis", "Brace", "Bracket", "None"):
        kinds[d.lower() + " group"] = G(d, I("inner"), P("+"), L("3.5"))
        kinds["empty %s group" % d.lower()] = G(d)

    def wrap(ts, k):
        for d in k:
            ts = [I("w")] + [G(d, *ts)]
        return ts

    ctx = {"top": (), "brace": ("Brace",), "brace2": ("Brace", "Brace"), "paren": ("Parenthesis",), "bracket": ("Bracket",), "paren in brace": ("Parenthesis", "Brace"),
           "invisible": ("None",), "brace in paren": ("Brace", "Parenthesis"), "brace3": ("Brace",) * 3, "invisible in brace": ("None", "Brace")}
    for cn, c in ctx.items():
        for a, x in kinds.items():
            for b, y in kinds.items():
                test("pair/%s/%s/%s" % (cn, a, b), "%s before %s (%s)" % (a, b, cn), wrap([x, y, I("z")], c))
        # operators of several characters and lifetimes stay together
        for g in GLUE:
            if g in ("//", "<-"):
                continue
            op = [P(ch, i + 1 < len(g)) for i, ch in enumerate(g)]
            test("operator/%s/%s" % (cn, g), "the operator %s (%s)" % (g, cn), wrap([I("a")] + op + [L("1")], c))
            test("operator2/%s/%s" % (cn, g), "the operator %s before a minus (%s)" % (g, cn), wrap([I("a")] + op + [P("-"), L("1")], c))
        test("lifetime/" + cn, "a lifetime (%s)" % cn, wrap([P("&"), P("'", True), I("a"), I("T")], c))
        test("empty/" + cn, "nothing (%s)" % cn, wrap([], c))
    for d in (1, 2, 5, 29, 30, 31, 32, 63, 64, 65, 100, 130):
        test("depth/%d" % d, "%d nested blocks" % d, wrap([L("1"), P(";"), I("a")], ("Brace",) * d))
    # nothing is cut off, however many tokens there are and however long they are
    for k in (50, 100, 129, 257, 513, 1025, 2050):
        many = [I("a"), P("+"), L("1"), P(";"), P("&", True), P("&")] * (k // 6 + 1)
        for cn in ("top", "brace", "paren", "bracket", "brace2"):
            test("many/%s/%d" % (cn, k), "%d tokens (%s)" % (len(many), cn), wrap(many[:k] + [I("z")], ctx[cn]))
    for k in (20, 33, 65, 129, 300, 1100):
        for cn in ("top", "brace", "paren", "brace2"):
            test("long/%s/%d" % (cn, k), "a name, a literal and a text of %d characters (%s)" % (k, cn),
                 wrap([I("n" * k), P("="), L("3." + "1" * k), P(";"), L('"' + "s t" * (k // 3) + '"'), P(";")], ctx[cn]))
    r.saw("formatter functions", len(ev.used))
    r.saw("formatter paths", sum(len(ev.leaves(f)) for f in sorted(ev.used)))
    r.floor("token contexts", n[0] + len(und), 5000)
    r.saw("token contexts composed", n[0])
    r.assume("proc_macro2 prints a whole group, an identifier and a literal as Rust source of themselves")
