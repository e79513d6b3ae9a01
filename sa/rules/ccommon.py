"""Schemas of Rust syntax, their meaning, and the meaning of C text, for the C back-end rules."""
from cgen import *
import cparse
from cparse import CError

TYPES = ("fty", "uty", "ity", "f32", "f64")
FILE = "doctor-syn/src/codegen/c.rs"

# ------------------------------------------------------------ schema builders
def P(*segs):
    return E("Path", S("ExprPath", attrs=[], qself=NONE, path=S("Path", segs=list(segs), leading_colon=NONE)))


def TY(*segs):
    return E("Path", S("TypePath", qself=NONE, path=S("Path", segs=list(segs), leading_colon=NONE)))


def BIN(op, l, r):
    return E("Binary", S("ExprBinary", attrs=[], left=l, op=E(op, 0), right=r))


def UN(op, e):
    return E("Unary", S("ExprUnary", attrs=[], op=E(op, 0), expr=e))


def CAST(e, t):
    return E("Cast", S("ExprCast", attrs=[], expr=e, ty=TY(t)))


def PAREN(e):
    return E("Paren", S("ExprParen", attrs=[], expr=e))


def CALL(f, *args):
    return E("Call", S("ExprCall", attrs=[], func=f if isinstance(f, E) else P(f), args=list(args)))


def MC(recv, name, *args):
    return E("MethodCall", S("ExprMethodCall", attrs=[], receiver=recv, method=Ident(name), turbofish=NONE, args=list(args)))


def BLK(*stmts):
    return S("Block", stmts=list(stmts))


def IF(c, a, b):
    return E("If", S("ExprIf", attrs=[], cond=c, then_branch=a, else_branch=SOME((0, b)) if b is not None else NONE))


def BLOCK(b):
    return E("Block", S("ExprBlock", attrs=[], label=NONE, block=b))


def ARR(*e):
    return E("Array", S("ExprArray", attrs=[], elems=list(e)))


def ASSIGN(l, r):
    return E("Assign", S("ExprAssign", attrs=[], left=l, right=r))


def ASSIGNOP(op, l, r):
    return E("AssignOp", S("ExprAssignOp", attrs=[], left=l, op=E(op, 0), right=r))


def FLOAT(d, suffix=""):
    return E("Lit", S("ExprLit", attrs=[], lit=E("Float", S("LitFloat", base10_digits=d, suffix=suffix))))


def INTL(d, suffix=""):
    return E("Lit", S("ExprLit", attrs=[], lit=E("Int", S("LitInt", base10_digits=d, suffix=suffix))))


def BOOL(v):
    return E("Lit", S("ExprLit", attrs=[], lit=E("Bool", S("LitBool", value=v))))


def PIDENT(n):
    return E("Ident", S("PatIdent", attrs=[], by_ref=NONE, mutability=NONE, ident=Ident(n), subpat=NONE))


def LET(n, ty, init):
    p = PIDENT(n)
    if ty is not None:
        p = E("Type", S("PatType", attrs=[], pat=p, ty=TY(ty)))
    return E("Local", S("Local", attrs=[], pat=p, init=SOME((0, init)) if init is not None else NONE))


def TAIL(e):
    return E("Expr", e)


def SEMI(e):
    return E("Semi", e, 0)


def FN(name, params, ret, block):
    ins = [E("Typed", S("PatType", attrs=[], pat=PIDENT(n), ty=TY(t))) for n, t in params]
    return E("Fn", S("ItemFn", attrs=[], vis=E("Inherited"), sig=S("Signature", constness=NONE, asyncness=NONE, unsafety=NONE, abi=NONE, ident=Ident(name), inputs=ins, variadic=NONE,
                                  output=E("Type", 0, TY(ret)) if ret else E("Default")), block=block))


def CONST(name, ty, e):
    return E("Const", S("ItemConst", attrs=[], vis=E("Inherited"), ident=Ident(name), ty=TY(ty), expr=e))


def TYPEDEF(name, ty):
    return E("Type", S("ItemType", attrs=[], vis=E("Inherited"), ident=Ident(name), ty=TY(ty)))


def FILEN(*items):
    return S("File", shebang=NONE, attrs=[], items=list(items))


# ------------------------------------------------------------ operators
OPS = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Rem": "%", "And": "&&", "Or": "||", "BitXor": "^", "BitAnd": "&",
       "BitOr": "|", "Shl": "<<", "Shr": ">>", "Eq": "==", "Lt": "<", "Le": "<=", "Ne": "!=", "Ge": ">=", "Gt": ">"}
AOPS = {"AddEq": "+", "SubEq": "-", "MulEq": "*", "DivEq": "/", "RemEq": "%", "BitXorEq": "^", "BitAndEq": "&", "BitOrEq": "|",
        "ShlEq": "<<", "ShrEq": ">>"}
RPREC = {"*": 17, "/": 17, "%": 17, "+": 16, "-": 16, "<<": 15, ">>": 15, "&": 14, "^": 13, "|": 12,
         "==": 11, "!=": 11, "<": 11, ">": 11, "<=": 11, ">=": 11, "&&": 10, "||": 9}
COMM = {"+", "*", "&", "|", "^", "==", "!="}


def rprec(e):
    """Rust precedence of an expression schema"""
    if e.v == "Binary":
        return RPREC[OPS[e.p[0].f["op"].v]]
    if e.v == "Unary":
        return 19
    if e.v == "Cast":
        return 18
    if e.v in ("Assign", "AssignOp"):
        return 2
    return 20


# ------------------------------------------------------------ methods and functions
# Rust method -> meaning; the meaning of C functions
METHODS = {m: m for m in ("round floor ceil trunc sqrt cbrt copysign hypot exp exp2 log2 log10 sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh abs min max ln ln_1p exp_m1 powf powi").split()}
METHODS["powi"] = "powf"
ARITY = {"copysign": 1, "hypot": 1, "atan2": 1, "min": 1, "max": 1, "powf": 1, "powi": 1}
CLIB = {n: n for n in ("round floor ceil trunc sqrt cbrt copysign hypot exp exp2 log2 log10 sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh").split()}
CLIB.update({"fabs": "abs", "fmin": "min", "fmax": "max", "log": "ln", "log1p": "ln_1p", "expm1": "exp_m1", "pow": "powf",
             "rint": "rint", "nearbyint": "rint", "roundeven": "rint", "fmod": "fmod", "remainder": "remainder", "erf": "erf", "fdim": "fdim",
             "lround": "lround", "logb": "logb", "ldexp": "ldexp"})
for k in list(CLIB):
    CLIB.setdefault(k + "f", CLIB[k])
    CLIB["__builtin_" + k] = CLIB[k]
    CLIB["__builtin_" + k + "f"] = CLIB[k]
CLIB.update({"abs": "int abs", "labs": "int abs", "llabs": "int abs"})


def num(text):
    """(value text normalised, type) of a C number, or None"""
    m = cparse.re.match(r"^(0[xX][0-9a-fA-F]+|[0-9]+)([uUlL]*)$", text)
    if m:
        s = m.group(2).lower()
        ty = {"": "int", "u": "u32", "l": "i64", "ll": "i64", "ul": "u64", "ull": "u64", "lu": "u64", "llu": "u64"}.get(s)
        return (float(int(m.group(1), 0) if m.group(1)[:2].lower() == "0x" else int(m.group(1), 8) if len(m.group(1)) > 1 and m.group(1)[0] == "0" and m.group(1).isdigit() and "8" not in m.group(1) and "9" not in m.group(1) else int(m.group(1))), ty)
    m = cparse.re.match(r"^([0-9]*\.?[0-9]*(?:[eE][+-]?[0-9]+)?)([fFlL]?)$", text)
    if m and cparse.re.search(r"[0-9]", m.group(1)) and cparse.re.search(r"[.eE]", m.group(1)):
        return (float(m.group(1)), {"": "f64", "f": "f32", "l": "f80"}[m.group(2).lower()])
    return None


def op2(o, l, r):
    if o == ">":
        o, l, r = "<", r, l
    elif o == ">=":
        o, l, r = "<=", r, l
    return ("op", o, l, r)


def neg(e):
    return ("not", e)


def iff(c, a, b):
    while c[0] == "not":
        c, a, b = c[1], b, a
    return ("if", c, a, b)


def block(stmts):
    """value of a block: a lone tail expression is that expression"""
    if len(stmts) == 1 and stmts[0][0] == "tail":
        return stmts[0][1]
    return ("block", tuple(stmts))


CTYPES = {"bool": ("i32", "bool"), "i8": ("i8",), "i16": ("i16",), "i32": ("i32",), "i64": ("i64",), "u8": ("u8",), "u16": ("u16",), "u32": ("u32",),
          "u64": ("u64",), "f32": ("f32",), "f64": ("f64",), "usize": ("usize", "u64"), "isize": ("isize", "i64")}


def rty(name):
    return CTYPES[name][0] if name in CTYPES else name


def rust(e, prefix=""):
    """meaning of an expression schema"""
    v, s = e.v, e.p[0]
    if v == "Path":
        return ("id", "_".join(s.f["path"].f["segs"]))
    if v == "Paren":
        return rust(s.f["expr"], prefix)
    if v == "Binary":
        return op2(OPS[s.f["op"].v], rust(s.f["left"], prefix), rust(s.f["right"], prefix))
    if v == "Unary":
        x = rust(s.f["expr"], prefix)
        return ("not", x) if s.f["op"].v == "Not" else ("neg", x)
    if v == "Cast":
        return ("cast", rty(s.f["ty"].p[0].f["path"].f["segs"][0]), rust(s.f["expr"], prefix))
    if v == "Lit":
        l = s.f["lit"]
        if l.v == "Bool":
            return ("num", 1.0 if l.p[0].f["value"] else 0.0)
        return ("num", float(l.p[0].f["base10_digits"]))
    if v == "Call":
        segs = s.f["func"].p[0].f["path"].f["segs"]
        args = tuple(rust(x, prefix) for x in s.f["args"])
        if segs[-1] == "from_bits":
            return ("bits", segs[0]) + args
        return ("call", prefix + "_".join(segs), args)
    if v == "MethodCall":
        m = str(s.f["method"])
        a = (rust(s.f["receiver"], prefix),) + tuple(rust(x, prefix) for x in s.f["args"])
        if m == "mul_add":
            return op2("+", op2("*", a[0], a[1]), a[2])
        if m in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
            return op2({"add": "+", "sub": "-", "mul": "*"}[m[9:]], a[0], a[1])
        if m == "recip":
            return op2("/", ("num", 1.0), a[0])
        if m == "to_bits":
            return ("bits", "uty", a[0])
        if m in METHODS:
            return ("m", METHODS[m], a)
        return ("call", m, a)
    if v == "If":
        return iff(rust(s.f["cond"], prefix), rblock(s.f["then_branch"], prefix), rust(s.f["else_branch"].p[0][1], prefix))
    if v == "Block":
        return rblock(s.f["block"], prefix)
    if v == "Assign":
        return ("asg", "=", rust(s.f["left"], prefix), rust(s.f["right"], prefix))
    if v == "AssignOp":
        return ("asg", AOPS[s.f["op"].v], rust(s.f["left"], prefix), rust(s.f["right"], prefix))
    if v == "Array":
        return ("brace", tuple(rust(x, prefix) for x in s.f["elems"]))
    raise Undecided("meaning of " + v)


def rblock(b, prefix=""):
    out = []
    for x in b.f["stmts"]:
        if x.v == "Expr":
            out.append(("tail", rust(x.p[0], prefix)))
        elif x.v == "Semi":
            out.append(("do", rust(x.p[0], prefix)))
        else:
            l = x.p[0]
            p = l.f["pat"]
            ty = "auto"
            if p.v == "Type":
                ty = rty(p.p[0].f["ty"].p[0].f["path"].f["segs"][0])
                p = p.p[0].f["pat"]
            i = l.f["init"]
            out.append(("let", ty, str(p.p[0].f["ident"]), rust(i.p[0][1], prefix) if i.v == "Some" else None))
    return block(out)


CCONST = {
    "__FLT_MIN__": "f32_MIN_POSITIVE", "FLT_MIN": "f32_MIN_POSITIVE", "__DBL_MIN__": "f64_MIN_POSITIVE", "DBL_MIN": "f64_MIN_POSITIVE",
    "__FLT_EPSILON__": "f32_EPSILON", "__DBL_EPSILON__": "f64_EPSILON", "__FLT_MAX__": "f32_MAX", "__DBL_MAX__": "f64_MAX",
}


def cval(e, tail=True):
    """meaning of a C expression tree"""
    k = e[0]
    if k == "par":
        return cval(e[1])
    if k == "id":
        return ("id", CCONST.get(e[1], e[1]))
    if k == "num":
        n = num(e[1])
        if n is None:
            raise CError("number %s" % e[1])
        return ("num", n[0])
    if k == "str":
        return e
    if k == "bin":
        return op2(e[1], cval(e[2]), cval(e[3]))
    if k == "un":
        x = cval(e[2])
        if e[1] == "+":
            return x
        if e[1] in "-!":
            return ("neg" if e[1] == "-" else "not", x)
        return ("un", e[1], x)
    if k == "cast":
        return ("cast", e[1], cval(e[2]))
    if k == "call":
        args = tuple(cval(x) for x in e[2])
        f = e[1]
        while f[0] == "par":
            f = f[1]
        if f[0] == "id":
            n = f[1]
            if n in ("fma", "fmaf", "__builtin_fma", "__builtin_fmaf") and len(args) == 3:
                return op2("+", op2("*", args[0], args[1]), args[2])
            if n in ("__builtin_nanf", "nanf") and len(args) == 1:
                return ("id", "f32_NAN")
            if n in ("__builtin_nan", "nan") and len(args) == 1:
                return ("id", "f64_NAN")
            if n in ("__builtin_inff", "__builtin_huge_valf"):
                return ("id", "f32_INFINITY")
            if n in ("__builtin_inf", "__builtin_huge_val"):
                return ("id", "f64_INFINITY")
            if n in CLIB:
                return ("m", CLIB[n], args)
            return ("call", n, args)
        return ("callx", cval(f), args)
    if k == "cond":
        return iff(cval(e[1]), cval(e[2]), cval(e[3]))
    if k == "stx":
        return cblock(e[1])
    if k == "mem" and e[1][0] in ("lit", "par"):
        x = e[1]
        while x[0] == "par":
            x = x[1]
        if x[0] == "lit" and isinstance(x[1], tuple) and x[1][0] == "union" and len(x[2]) == 1:
            fs = x[1][1]
            i = x[2][0]
            src = fs[0]
            if i[0] == "des":
                src = [f for f in fs if f[1] == i[1]][0]
                i = i[2]
            dst = [f for f in fs if f[1] == e[2]]
            if dst:
                return ("bits", dst[0][0], cval(i))
    if k == "asg":
        return ("asg", e[1] if e[1] == "=" else e[1][:-1], cval(e[2]), cval(e[3]))
    if k == "brace":
        return ("brace", tuple(cval(x) for x in e[1]))
    if k == "lit" and isinstance(e[1], tuple) and e[1][0] == "array":
        return ("brace", tuple(cval(x) for x in e[2]))
    raise CError("C construct %s" % k)


def cstmts(ss, rettail):
    out = []
    for i, s in enumerate(ss):
        last = i == len(ss) - 1
        if s[0] == "decl":
            ty = s[1]
            out.append(("let", "array" if isinstance(ty, tuple) else ty, s[2], cval(s[3]) if s[3] is not None else None))
        elif s[0] == "expr":
            v = cval(s[1])
            out.append((("tail" if last and not rettail else "do"), v))
        elif s[0] == "ret" and rettail and last:
            if s[1] is None:
                continue
            v = cval(s[1])
            if not out and v[0] == "block":
                return list(v[1])
            out.append(("tail", v))
        else:
            raise CError("statement %s" % s[0])
    return out


def cblock(ss):
    return block(cstmts(ss, False))


def alpha(v, env=None, c=False, scope=None, level=0):
    """bound names as binding levels (Rust: an initialiser does not see its own variable; C: it does, and a
    scope declares a name once), then operands of commutative operators in a fixed order"""
    env = env or {}
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "id":
        return ("bound", env[v[1]]) if v[1] in env else v
    if v[0] == "block":
        out = []
        e = dict(env)
        sc = set(scope or ())
        lv = level
        for s in v[1]:
            if s[0] == "let":
                _, ty, n, init = s
                if c:
                    if n in sc:
                        raise CError("%s is declared twice in one scope" % n)
                    sc.add(n)
                    e2 = dict(e)
                    e2[n] = "itself"
                else:
                    e2 = e
                i = alpha(init, e2, c, None, lv) if init is not None else None
                e = dict(e)
                e[n] = lv
                lv += 1
                out.append(("let", ty, lv - 1, i))
            else:
                out.append((s[0], alpha(s[1], e, c, None, lv)))
        return ("block", tuple(out))
    r = tuple(alpha(x, env, c, None, level) for x in v)
    if r[0] == "op" and r[1] in COMM and repr(r[3]) < repr(r[2]):
        r = (r[0], r[1], r[3], r[2])
    return r


def tails(v):
    """a block whose last statement is an expression statement has no value in Rust but has one in C: treat both alike"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "do":
        return ("tail",) + tuple(tails(x) for x in v[1:])
    return tuple(tails(x) for x in v)


def expr_of(tr, e):
    """C meaning of an expression schema; CError when the text is not C, Broken/Undecided from the composition"""
    txt = tr.call("visit_expr", e)
    return alpha(cval(cparse.parse_expr(txt, TYPES)), c=True), txt


def load(r):
    p = prog()
    cg = CGen(p)
    if not r.anchor("the C visitor", cg.impl is not None and cg.stack is not None):
        return None
    return cg


def d(x):
    return repr(x).replace("'", "")[:160]
