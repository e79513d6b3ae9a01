"""Repository-level meaning of value terms: numeric literals, evaluation results, opaque numeric kernels."""
from rast import *

import re

TRYFROM = re.compile(r"(?:<impl core::convert::TryFrom<&?doctor_syn::expression::Expression> for ([\w:]+)>|<([\w:]+) as core::convert::TryFrom<&?doctor_syn::expression::Expression>>)::try_from$")
BD = "doctor_syn::bdmath::"


def opaque_bd(ip, st, info, args, ctx):
    """hook: treat the numeric kernel (doctor_syn::bdmath) as uninterpreted functions"""
    n = info.rkey or info.key
    if n.startswith(BD) and "{" not in n:
        return [Leaf(st, "return", T("bd", n[len(BD):], tuple(ip.resolve(st, a) for a in args)))]
    return None


def conv_hook(ip, st, info, args, ctx):
    """hook: TryFrom<Expression> for numbers (checked on its own by rule C10) as Ok(num(e)) | Err"""
    p = info.fwd["path"] if info.fwd else (info.rpath or info.path)
    m = TRYFROM.search(p)
    if m:
        e = ip.resolve(st, args[0])
        inner = e.a[2][0][1] if e.op == "ctor" and len(e.a[2]) == 1 else FLD(e, None, "inner")
        inner = fold(inner)
        ty = (m.group(1) or m.group(2)).split("::")[-1]
        if numericness(st, inner) is False:
            return [Leaf(st, "return", ERR(T("converr", inner)))]
        t = T("tonum", ty, inner)
        s2 = st.copy()
        a = st.assume_variant(t, RES, "Ok")
        b = s2.assume_variant(t, RES, "Err")
        num = T("num", inner) if ty == "BigDecimal" else T("num" + ty, inner)
        return [Leaf(a, "return", OK(num)), Leaf(b, "return", ERR(T("converr", inner)))]
    return None


def sem(t, memo=None):
    """rewrite: literal <-> number conversions"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(sem(x, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    a = tuple(sem(x, memo) for x in t.a)
    r = t if a == t.a else rebuild(t.op, a)
    r = fold(r)
    memo[t] = r
    return r


def fold(r):
    # parse of a literal's digits
    if r.op == "fld" and r.a[1] == "Ok" and r.a[2] == "0" and isT(r.a[0], "call"):
        n, args = r.a[0].a[0], r.a[0].a[1]
        ty = args[-1].a[0].split("::")[-1] if args and isT(args[-1], "ty") else ""
        num = "num" if ty == "BigDecimal" or not re.match(r"[iuf](8|16|32|64|128|size)$", ty) else "num" + ty
        if n.endswith("::base10_parse"):
            b = litbase(args[0])
            if b is not None:
                return T(num, b)
        if n == "core::str::<impl str>::parse" and isT(args[0], "call") and args[0].a[0].endswith("::base10_digits"):
            b = litbase(args[0].a[1][0])
            if b is not None:
                return T(num, b)
    if r.op == "ctor" and r.a[0] == "syn::expr::Expr" and r.a[1] == "Lit":
        x = get(r, "0")
        if isT(x, "ctor") and x.a[0].endswith("ExprLit"):
            l = get(x, "lit")
            if isT(l, "ctor") and l.a[1] == "Float":
                f = get(l, "0")
                if isT(f, "call") and f.a[0].endswith("LitFloat::new"):
                    s = f.a[1][0]
                    if isT(s, "cat") and len(s.a[0]) == 1 and isT(s.a[0][0], "disp"):
                        return T("numexpr", s.a[0][0].a[0])
                    if isT(s, "disp"):
                        return T("numexpr", s.a[0])
    if r.op == "ctor" and r.a[0] == "doctor_syn::expression::Expression" and len(r.a[2]) == 1:
        # Expression is a transparent wrapper
        return r.a[2][0][1]
    if r.op == "fld" and r.a[1] is None and r.a[2] == "inner" and r.a[0].op in ("numexpr", "parsed"):
        return r.a[0]
    return r


def litbase(x):
    """E for the term  E.Lit.0.lit.Float.0 / E.Lit.0.lit.Int.0"""
    if x.op == "fld" and x.a[1] in ("Float", "Int") and x.a[2] == "0":
        y = x.a[0]
        if y.op == "fld" and y.a[2] == "lit":
            z = y.a[0]
            if z.op == "fld" and z.a[1] == "Lit" and z.a[2] == "0":
                return z.a[0]
            return T("exprlit", z)
    return None


def numericness(st, e):
    """True/False/None: is the Expr term e a numeric literal on this trace"""
    v = st.v.get(e)
    if v is None:
        if "Lit" in st.nv.get(e, ()):
            return False
        return None
    if v != "Lit":
        return False
    l = FLD(FLD(e, "Lit", "0"), None, "lit")
    w = st.v.get(l)
    if w in ("Int", "Float"):
        return True
    if w is not None:
        return False
    nv = st.nv.get(l, frozenset())
    if {"Int", "Float"} <= set(nv):
        return False
    return None


def okval(v):
    """payload of Ok(..) or None"""
    if v.op == "ctor" and v.a[0] == RES and v.a[1] == "Ok":
        return v.a[2][0][1]
    return None


def errval(v):
    if v.op == "ctor" and v.a[0] == RES and v.a[1] == "Err":
        return v.a[2][0][1]
    return None


def parses_ok(st):
    """facts only about literal parsing succeeding are harmless"""
    return True


OPAQUE = {"call", "conv", "after", "loopvar", "uninit", "bottom", "proj"}


def opaque(v, allow=()):
    """is some part of the value outside the domain (so no verdict is possible)"""
    for x in subterms(v):
        if x.op in OPAQUE and not (x.op == "call" and x.a[0].split("::")[-1] in allow):
            return True
    return False


LOSES = ("with_scale", "with_prec", "to_f32", "to_f64", "to_i32", "to_i64", "to_i128", "to_u32", "to_u64", "to_u128", "to_usize", "to_isize")


def soft(r, key, ok, v, msg, where, detail, definite=None, allow=()):
    """ok / violation / undecided: a value outside the domain is undecided unless it certainly differs"""
    x = okval(v) if okval(v) is not None else v
    if definite is None:
        definite = x.op == "parsed" or any(y.op == "call" and y.a[0].split("::")[-1] in LOSES for y in subterms(x))
    if not ok and not definite and opaque(v, allow):
        return r.undecided(key, msg, where)
    return r.check(key, ok, msg, where, detail)


def facts_true(st):
    """[(term, bool)] boolean facts of a trace in order, sem'ed"""
    return [(sem(f[1]), f[2]) for f in st.order if f[0] == "b"]
