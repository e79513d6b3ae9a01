"""Models of library functions for the abstract interpreter."""
import re
from interp import *
import interp as I

MODELS = {}


def model(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f

    return d


def ret(st, v):
    return [Leaf(st, "return", v)]


def panic(st, why, ctx=None):
    return [Leaf(st, "panic", T("panic", why), (ctx.fr.body["path"], ctx.line) if ctx and ctx.fr else None)]


def identity(ip, st, a, info, ctx):
    return ret(st, a[0])


for k in """core::clone::Clone::clone core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut
core::convert::AsRef::as_ref core::convert::AsMut::as_mut core::borrow::Borrow::borrow alloc::boxed::Box::new alloc::borrow::ToOwned::to_owned
alloc::string::String::as_str alloc::string::String::as_bytes alloc::string::String::into_boxed_str core::str::<impl str>::as_bytes
alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice core::hint::must_use alloc::slice::<impl [T]>::to_vec
core::option::Option::as_ref core::option::Option::as_mut core::option::Option::as_deref core::option::Option::cloned core::option::Option::copied
core::result::Result::as_ref alloc::slice::<impl [T]>::into_vec alloc::vec::Vec::into_boxed_slice core::convert::identity
alloc::str::<impl str>::into_string alloc::boxed::box_assume_init_into_vec_unsafe core::hint::black_box
quote::__private::IdentFragmentAdapter core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied
core::iter::traits::iterator::Iterator::by_ref syn::punctuated::Pair::into_tuple alloc::string::String::from_utf8_lossy
alloc::rc::Rc::new alloc::sync::Arc::new core::cell::RefCell::new core::mem::ManuallyDrop::new core::iter::traits::iterator::Iterator::fuse
core::iter::traits::iterator::Iterator::peekable core::array::<impl [T; N]>::as_slice core::str::<impl str>::as_str alloc::vec::Vec::into_iter
core::slice::<impl [T]>::as_ref core::option::Option::as_deref_mut""".split():
    MODELS[k.replace("\n", "")] = identity
MODELS["alloc::slice::<impl [T]>::to_vec"] = identity
MODELS["core::str::<impl str>::as_bytes"] = identity
MODELS["alloc::slice::<impl [T]>::into_vec"] = identity


def val(ip, st, x):
    return ip.deref(st, x)


def peel(t):
    while t[0] in ("ref", "ptr") or (t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::borrow::Cow")):
        t = t[1] if t[0] != "adt" else t[2][0]
    return t


# clone: copies the value (never aliases)
@model("core::clone::Clone::clone", "core::option::Option::cloned", "core::option::Option::copied", "alloc::borrow::ToOwned::to_owned")
def m_clone(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    return ret(st, v)


# ---- Box::new_uninit / vec! internals
@model("alloc::boxed::Box::new_uninit")
def m_newuninit(ip, st, a, info, ctx):
    return ret(st, T("uninit"))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_bai(ip, st, a, info, ctx):
    v = a[0]
    # MaybeUninit { value: ManuallyDrop { value: MaybeDangling(..) } } wrappers around the array
    for _ in range(8):
        if v.op == "ctor" and len(v.a[2]) >= 1 and v.a[0].startswith("core::mem"):
            v = v.a[2][-1][1]
        elif v.op == "upd":
            v = v.a[1][-1][1]
        else:
            break
    return ret(st, v)


@model("alloc::vec::from_elem")
def m_from_elem(ip, st, a, info, ctx):
    if isT(a[1], "int") and a[1].a[0] < 500:
        return ret(st, T("seq", (a[0],) * a[1].a[0]))
    return ret(st, T("seq", (T("each", T("range", INT(0), a[1], False), T("elem", T("range", INT(0), a[1], False), 0), T("seq", (a[0],))),)))


# ---- panics
def m_panic(ip, st, a, info, ctx):
    return panic(st, "panic!", ctx)


for k in """core::panicking::panic core::panicking::panic_fmt std::panicking::begin_panic core::panicking::unreachable_display
core::panicking::panic_display core::panicking::panic_explicit core::panicking::assert_failed core::panicking::panic_str_2015 core::panicking::unreachable_default_msg
std::process::abort std::rt::begin_panic""".split():
    MODELS[k] = m_panic


def m_exit(ip, st, a, info, ctx):
    """the process ends with a status"""
    l = panic(st, "exit", ctx)[0]
    return [Leaf(st, "panic", T("exit", ip.resolve(st, ip.deref(st, a[0]))), l.where)]


MODELS["std::process::exit"] = m_exit


# ---- Option / Result
def split(ip, st, v, adt):
    vs = ["None", "Some"] if adt == OPT else ["Ok", "Err"]
    return ip.decide_variant(st, v, adt, vs)


def payload(v, var):
    return FLD(v, var, "0")


def unwrap_like(adt, good):
    def f(ip, st, a, info, ctx):
        v = val(ip, st, a[0])
        out = []
        for s, n in split(ip, st, v, adt):
            if n == good:
                out += ret(s, payload(v, n))
            else:
                out += panic(s, "unwrap", ctx)
        return out

    return f


MODELS["core::option::Option::unwrap"] = MODELS["core::option::Option::expect"] = unwrap_like(OPT, "Some")
MODELS["core::result::Result::unwrap"] = MODELS["core::result::Result::expect"] = unwrap_like(RES, "Ok")
MODELS["core::result::Result::unwrap_err"] = unwrap_like(RES, "Err")


def variant_test(adt, name):
    def f(ip, st, a, info, ctx):
        v = val(ip, st, a[0])
        if v.op == "ctor":
            return ret(st, T("bool", v.a[1] == name))
        return ret(st, T("isvar", v, adt, name))

    return f


MODELS["core::option::Option::is_some"] = variant_test(OPT, "Some")
MODELS["core::option::Option::is_none"] = variant_test(OPT, "None")
MODELS["core::result::Result::is_ok"] = variant_test(RES, "Ok")
MODELS["core::result::Result::is_err"] = variant_test(RES, "Err")


def comb(adt, handler):
    def f(ip, st, a, info, ctx):
        v = val(ip, st, a[0])
        out = []
        for s, n in split(ip, st, v, adt):
            out += handler(ip, s.copy(), n, v, a, ctx)
        return out

    return f


def lift(leaves, f):
    for l in leaves:
        if l.kind == "return":
            l.val = f(l.val)
    return leaves


def h_opt(some, none):
    return lambda ip, s, n, v, a, c: some(ip, s, payload(v, "Some"), a, c) if n == "Some" else none(ip, s, a, c)


def h_res(ok, err):
    return lambda ip, s, n, v, a, c: ok(ip, s, payload(v, "Ok"), a, c) if n == "Ok" else err(ip, s, payload(v, "Err"), a, c)


def O(name, some, none):
    MODELS["core::option::Option::" + name] = comb(OPT, h_opt(some, none))


def R(name, ok, err):
    MODELS["core::result::Result::" + name] = comb(RES, h_res(ok, err))


call = lambda ip, s, f, args, c: ip.call_value(f, args, s, c)
O("map", lambda ip, s, x, a, c: lift(call(ip, s, a[1], [x], c), SOME), lambda ip, s, a, c: ret(s, NONE))
O("and_then", lambda ip, s, x, a, c: call(ip, s, a[1], [x], c), lambda ip, s, a, c: ret(s, NONE))
O("unwrap_or", lambda ip, s, x, a, c: ret(s, x), lambda ip, s, a, c: ret(s, a[1]))
O("unwrap_or_else", lambda ip, s, x, a, c: ret(s, x), lambda ip, s, a, c: call(ip, s, a[1], [], c))
O("unwrap_or_default", lambda ip, s, x, a, c: ret(s, x), lambda ip, s, a, c: ret(s, T("default")))
O("ok_or", lambda ip, s, x, a, c: ret(s, OK(x)), lambda ip, s, a, c: ret(s, ERR(a[1])))
O("ok_or_else", lambda ip, s, x, a, c: ret(s, OK(x)), lambda ip, s, a, c: lift(call(ip, s, a[1], [], c), ERR))
O("or", lambda ip, s, x, a, c: ret(s, SOME(x)), lambda ip, s, a, c: ret(s, a[1]))
O("or_else", lambda ip, s, x, a, c: ret(s, SOME(x)), lambda ip, s, a, c: call(ip, s, a[1], [], c))
O("map_or", lambda ip, s, x, a, c: call(ip, s, a[2], [x], c), lambda ip, s, a, c: ret(s, a[1]))
O("map_or_else", lambda ip, s, x, a, c: call(ip, s, a[2], [x], c), lambda ip, s, a, c: call(ip, s, a[1], [], c))
O("is_some_and", lambda ip, s, x, a, c: call(ip, s, a[1], [x], c), lambda ip, s, a, c: ret(s, FALSE))
O("and", lambda ip, s, x, a, c: ret(s, a[1]), lambda ip, s, a, c: ret(s, NONE))
O("flatten", lambda ip, s, x, a, c: ret(s, x), lambda ip, s, a, c: ret(s, NONE))


def o_filter_some(ip, s, x, a, c):
    out = []
    for l in call(ip, s, a[1], [x], c):
        if l.kind != "return":
            out.append(l)
            continue
        for s2, b in ip.decide_bool(l.st, l.val):
            out += ret(s2, SOME(x) if b else NONE)
    return out


O("filter", o_filter_some, lambda ip, s, a, c: ret(s, NONE))
R("map", lambda ip, s, x, a, c: lift(call(ip, s, a[1], [x], c), OK), lambda ip, s, e, a, c: ret(s, ERR(e)))
R("map_err", lambda ip, s, x, a, c: ret(s, OK(x)), lambda ip, s, e, a, c: lift(call(ip, s, a[1], [e], c), ERR))
R("and_then", lambda ip, s, x, a, c: call(ip, s, a[1], [x], c), lambda ip, s, e, a, c: ret(s, ERR(e)))
R("ok", lambda ip, s, x, a, c: ret(s, SOME(x)), lambda ip, s, e, a, c: ret(s, NONE))
R("err", lambda ip, s, x, a, c: ret(s, NONE), lambda ip, s, e, a, c: ret(s, SOME(e)))
R("unwrap_or", lambda ip, s, x, a, c: ret(s, x), lambda ip, s, e, a, c: ret(s, a[1]))
R("unwrap_or_else", lambda ip, s, x, a, c: ret(s, x), lambda ip, s, e, a, c: call(ip, s, a[1], [e], c))
R("or_else", lambda ip, s, x, a, c: ret(s, OK(x)), lambda ip, s, e, a, c: call(ip, s, a[1], [e], c))
R("or", lambda ip, s, x, a, c: ret(s, OK(x)), lambda ip, s, e, a, c: ret(s, a[1]))
R("is_ok_and", lambda ip, s, x, a, c: call(ip, s, a[1], [x], c), lambda ip, s, e, a, c: ret(s, FALSE))


@model("core::option::Option::take")
def m_take(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    if a[0].op == "ref":
        ip.write(st, a[0].a[0], a[0].a[1], NONE)
    return ret(st, v)


@model("core::mem::replace")
def m_replace(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    if a[0].op == "ref":
        ip.write(st, a[0].a[0], a[0].a[1], a[1])
    return ret(st, v)


@model("core::mem::take")
def m_mtake(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    t = peel(info.args[0])
    d = T("default", str(t))
    if t[0] == "adt" and t[1] in ("alloc::vec::Vec", "syn::punctuated::Punctuated"):
        d = T("seq", ())
    if t[0] == "adt" and t[1] == "alloc::string::String":
        d = STR("")
    if a[0].op == "ref":
        ip.write(st, a[0].a[0], a[0].a[1], d)
    return ret(st, v)


@model("core::ops::try_trait::Try::branch")
def m_branch(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    t = info.args[0]
    out = []
    if t[1] == OPT:
        for s, n in split(ip, st, v, OPT):
            out += ret(s, CTOR(CF, "Continue", ("0", payload(v, "Some"))) if n == "Some" else CTOR(CF, "Break", ("0", NONE)))
    else:
        for s, n in split(ip, st, v, RES):
            out += ret(s, CTOR(CF, "Continue", ("0", payload(v, "Ok"))) if n == "Ok" else CTOR(CF, "Break", ("0", ERR(payload(v, "Err")))))
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def m_residual(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    if info.args[0][1] == OPT:
        return ret(st, NONE)
    e = payload(v, "Err")
    t0, t1 = info.args[0], info.args[1]
    if t0[1] == RES and t1[1] == RES and t0[2][1] != t1[2][1]:
        e = T("call", "core::convert::From::from", (e,))
    return ret(st, ERR(e))


@model("core::ops::try_trait::Try::from_output")
def m_fromoutput(ip, st, a, info, ctx):
    return ret(st, SOME(a[0]) if info.args[0][1] == OPT else OK(a[0]))


# ---- conversions
SYN_ENUMS = ("syn::expr::Expr", "syn::lit::Lit", "syn::item::Item", "syn::pat::Pat", "syn::ty::Type", "syn::stmt::Stmt", "syn::item::ImplItem")


def base(p):
    return p.split("::")[-1]


def conv(ip, st, a, src, dst, info, ctx):
    v = a[0]
    if src == dst:
        return ret(st, v)
    d, s = peel(dst), peel(src)
    if dst[0] == "adt" and dst[1] in SYN_ENUMS and src[0] == "adt":
        en, sn = base(dst[1]), base(src[1])
        if sn.startswith(en):
            return ret(st, T("ctor", dst[1], sn[len(en):], (("0", v),)))
    if d[0] == "adt" and d[1] in ("alloc::string::String",) and s[0] in ("str", "adt") and (s[0] == "str" or s[1] == "alloc::string::String"):
        return ret(st, val(ip, st, v))
    if dst[0] == "adt" and dst[1] == "alloc::vec::Vec":
        return ret(st, val(ip, st, v))
    if dst[0] == "adt" and dst[1] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc"):
        return ret(st, v)
    if dst[0] in ("int", "float") and src[0] in ("int", "float", "bool", "char"):
        if v.op == "int" and dst[0] == "int":
            return ret(st, v)
        return ret(st, T("as", v, dst[1]))
    return None


@model("core::convert::Into::into")
def m_into(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    r = conv(ip, st, a, info.args[0], info.args[1], info, ctx)
    if r is not None:
        return r
    return ret(st, T("conv", str(info.args[1][1] if info.args[1][0] == "adt" else info.args[1]), ip.resolve(st, a[0])))


@model("core::convert::From::from")
def m_from(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    r = conv(ip, st, a, info.args[1], info.args[0], info, ctx)
    if r is not None:
        return r
    return ret(st, T("conv", str(info.args[0][1] if info.args[0][0] == "adt" else info.args[0]), ip.resolve(st, a[0])))


@model("core::convert::TryInto::try_into")
def m_tryinto(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    fwd = info.f.get("fwd")
    if fwd and "TryFrom<U> for T" in fwd["path"] or fwd and "<T as core::convert::TryFrom<U>>" in fwd["path"] or fwd and "From<" in fwd["path"] and "TryFrom" not in fwd["path"]:
        # infallible conversion through Into
        im = find_from(ip, info.args[0], info.args[1])
        if im is not None:
            return lift(ip.run_body(im, [a[0]], st, (), ctx.fr.depth + 1 if ctx.fr else 1, ctx.fr), OK)
        r = conv(ip, st, a, info.args[0], info.args[1], info, ctx)
        if r is not None:
            return lift(r, OK)
        return ret(st, OK(T("conv", str(info.args[1]), ip.resolve(st, a[0]))))
    return ret(st, T("call", "try_into", (ip.resolve(st, a[0]), T("ty", str(info.args[1])))))


def find_from(ip, src, dst):
    """a local impl From<src> for dst"""
    for c, im in ip.impl_tab.get("core::convert::From", []):
        ta = [ip.ty(c, x) for x in im["trait_args"]]
        if ta == [dst, src]:
            return ip.bodies.get(im["items"].get("from"))
    for c, im in ip.impl_tab.get("core::convert::Into", []):
        ta = [ip.ty(c, x) for x in im["trait_args"]]
        if ta == [src, dst]:
            return ip.bodies.get(im["items"].get("into"))
    return None


# ---- comparison
def structural_eq(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is None and len(info.args) > 1 and peel(info.args[0])[0] == "adt" and peel(info.args[1])[0] == "adt":
        # comparison through references
        for c, im in ip.impl_tab.get("core::cmp::PartialEq", []):
            ta = [peel(ip.ty(c, x)) for x in (im.get("trait_args") or [im["self"], im["self"]])]
            if len(ta) > 1 and ta[0][:2] == peel(info.args[0])[:2] and ta[1][:2] == peel(info.args[1])[:2]:
                b, env = ip.bodies.get(im["items"].get("eq")), ()
    if b is not None and "PartialEq" in b["path"] and ip.adts.get(peel(info.args[0])[1] if peel(info.args[0])[0] == "adt" else "", {}).get("kind") == "struct":
        return ip.run_body(b, [I_peelref(ip, st, a[0]), I_peelref(ip, st, a[1])], st, env, ctx.fr.depth + 1 if ctx.fr else 1, ctx.fr)
    return ret(st, EQ(ip.resolve(st, a[0]), ip.resolve(st, a[1])))


def I_peelref(ip, st, v):
    return ip.ref_to(st, val(ip, st, v))


@model("core::cmp::PartialEq::eq")
def m_eq(ip, st, a, info, ctx):
    return structural_eq(ip, st, a, info, ctx)


@model("core::cmp::PartialEq::ne")
def m_ne(ip, st, a, info, ctx):
    return lift(structural_eq(ip, st, a, info, ctx), NOT)


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):

    def _f(ip, st, a, info, ctx, _o=_o):
        return ret(st, ip.binop(_o, ip.resolve(st, a[0]), ip.resolve(st, a[1])))

    MODELS["core::cmp::PartialOrd::" + _n] = _f

for _n in "Add Sub Mul Div Rem BitAnd BitOr BitXor Shl Shr".split():

    def _f(ip, st, a, info, ctx, _n=_n):
        b, env = info.target(ip)
        if b is not None:
            return None
        if info.key.endswith("HasIterator"):
            return None
        x, y = ip.resolve(st, a[0]), ip.resolve(st, a[1])
        t = peel(info.args[0])
        if t[0] == "adt" and t[1] == "alloc::string::String":
            return ret(st, CAT((x, y)))
        if t[0] == "adt" and t[1].startswith("quote::"):
            return ret(st, UNIT)
        if t[0] == "adt":
            return ret(st, T("op", _n, x, y))
        return ret(st, ip.binop(_n, x, y))

    mod = "bit" if _n.startswith(("Bit", "Sh")) else "arith"
    MODELS["core::ops::%s::%s::%s" % (mod, _n, _n.lower())] = _f

    def _g(ip, st, a, info, ctx, _n=_n):
        b, env = info.target(ip)
        if b is not None:
            return None
        if a[0].op != "ref":
            return None
        x, y = ip.resolve(st, a[0]), ip.resolve(st, a[1])
        t = peel(info.args[0])
        if t[0] == "adt" and t[1] == "alloc::string::String":
            v = CAT((x, y))
        elif t[0] == "adt":
            v = T("op", _n, x, y)
        else:
            v = ip.binop(_n, x, y)
        ip.write(st, a[0].a[0], a[0].a[1], v)
        return ret(st, UNIT)

    MODELS["core::ops::%s::%sAssign::%s_assign" % (mod, _n, _n.lower())] = _g


@model("core::ops::arith::Neg::neg")
def m_neg(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    return ret(st, T("op", "Neg", ip.resolve(st, a[0])))


@model("core::ops::bit::Not::not")
def m_not(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    return ret(st, NOT(ip.resolve(st, a[0])))


# ---- strings and formatting
def strty(t):
    t = peel(t)
    return t[0] == "str" or (t[0] == "adt" and t[1] == "alloc::string::String")


def disp(ip, st, v, ty):
    v = ip.resolve(st, v)
    t = peel(ty)
    if strty(ty):
        return v
    if v.op == "int":
        return STR(str(v.a[0]))
    if v.op in ("char",):
        return STR(v.a[0])
    if v.op == "bool":
        return STR("true" if v.a[0] else "false")
    if t[0] == "adt" and t[1] == "core::fmt::Arguments":
        return v
    if t[0] == "adt" and t[1] == "proc_macro2::Ident" and v.op == "ident" and isT(v.a[0], "str"):
        return v.a[0]
    if v.op == "ctor" and v.a[0] == "quote::__private::IdentFragmentAdapter" and len(v.a[2]) == 1:
        x = ip.resolve(st, ip.deref(st, v.a[2][0][1]))
        x = x.a[0] if x.op == "ident" else x
        if x.op in ("int", "str"):
            return STR(str(x.a[0]))
    return T("disp", v)


@model("core::fmt::rt::Argument::new_display")
def m_argd(ip, st, a, info, ctx):
    return ret(st, T("farg", "d", disp(ip, st, a[0], info.args[0])))


@model("core::fmt::rt::Argument::new_debug")
def m_argdbg(ip, st, a, info, ctx):
    return ret(st, T("farg", "?", T("dbg", ip.resolve(st, a[0]))))


for _k in ("lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer"):

    def _f(ip, st, a, info, ctx, _k=_k):
        return ret(st, T("farg", _k, T("fmtas", _k, ip.resolve(st, a[0]))))

    MODELS["core::fmt::rt::Argument::new_" + _k] = _f


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const")
def m_argstr(ip, st, a, info, ctx):
    return ret(st, val(ip, st, a[0]))


@model("core::fmt::Arguments::new")
def m_args(ip, st, a, info, ctx):
    b = ip.resolve(st, a[0])
    args = ip.resolve(st, a[1])
    if b.op != "bytes" or args.op != "seq":
        return ret(st, T("fmt", b, args))
    bs = b.a[0]
    i = 0
    n = 0
    out = []
    while i < len(bs):
        c = bs[i]
        if c == 0:
            break
        if c & 0xC0 == 0xC0:
            i += 1
            spec = []
            if c & 1:
                spec.append(("flags", int.from_bytes(bytes(bs[i:i + 4]), "little")))
                i += 4
            if c & 2:
                spec.append(("width*" if c & 16 else "width", int.from_bytes(bytes(bs[i:i + 2]), "little")))
                i += 2
            if c & 4:
                spec.append(("prec*" if c & 32 else "prec", int.from_bytes(bytes(bs[i:i + 2]), "little")))
                i += 2
            if c & 8:
                n = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            p = args.a[0][n]
            n += 1
            p = p.a[1] if p.op == "farg" else p
            if spec:
                p = T("fmtspec", tuple(spec), p)
            out.append(p)
        else:
            if c == 0x80:
                ln = bs[i + 1] | bs[i + 2] << 8
                i += 3
            else:
                ln = c
                i += 1
            out.append(STR(bytes(bs[i:i + ln]).decode("utf8")))
            i += ln
    return ret(st, CAT(out))


@model("alloc::fmt::format", "core::fmt::Arguments::to_string")
def m_format(ip, st, a, info, ctx):
    return ret(st, ip.resolve(st, a[0]))


@model("alloc::string::ToString::to_string")
def m_tostring(ip, st, a, info, ctx):
    t = info.args[0]
    return ret(st, CAT((disp(ip, st, a[0], t),)))


@model("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str")
def m_writefmt(ip, st, a, info, ctx):
    s = ip.resolve(st, a[1])
    st.event("write", ip.resolve(st, a[0]), s)
    tgt = a[0]
    v = val(ip, st, tgt)
    if tgt.op == "ref" and v.op in ("str", "cat"):
        t = tgt
        while True:
            n = ip.read(st, t.a[0], t.a[1])
            if n.op == "ref":
                t = n
            else:
                break
        ip.write(st, t.a[0], t.a[1], CAT((v, s)))
        return ret(st, OK(UNIT))
    return ret(st, T("call", "write", (s,)))


@model("alloc::string::String::new")
def m_snew(ip, st, a, info, ctx):
    return ret(st, STR(""))


@model("alloc::string::String::with_capacity")
def m_scap(ip, st, a, info, ctx):
    return ret(st, STR(""))


def innermost(ip, st, r):
    while r.op == "ref":
        n = ip.read(st, r.a[0], r.a[1])
        if n.op == "ref":
            r = n
        else:
            return r
    return r


@model("alloc::string::String::push_str", "alloc::string::String::push")
def m_pushstr(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    if r.op != "ref":
        return None
    x = ip.resolve(st, a[1])
    if x.op == "char":
        x = STR(x.a[0])
    ip.write(st, r.a[0], r.a[1], CAT((val(ip, st, r), x)))
    return ret(st, UNIT)


@model("alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::concat")
def m_join(ip, st, a, info, ctx):
    v = ip.resolve(st, a[0])
    sep = ip.resolve(st, a[1]) if len(a) > 1 else STR("")
    return ret(st, join(v, sep))


def join(v, sep):
    if v.op == "seq" and not any(isT(x, "spread") or isT(x, "each") for x in v.a[0]):
        out = []
        for i, x in enumerate(v.a[0]):
            if i:
                out.append(sep)
            out.append(x)
        return CAT(out)
    return CAT((T("join", v, sep),))


@model("core::str::<impl str>::len", "alloc::string::String::len", "alloc::vec::Vec::len", "core::slice::<impl [T]>::len", "syn::punctuated::Punctuated::len")
def m_len(ip, st, a, info, ctx):
    return ret(st, ip.length(st, a[0]))


@model("alloc::vec::Vec::is_empty", "core::slice::<impl [T]>::is_empty", "alloc::string::String::is_empty", "core::str::<impl str>::is_empty", "syn::punctuated::Punctuated::is_empty")
def m_isempty(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    if v.op == "seq" and any(not isT(x, "spread") and not isT(x, "each") for x in v.a[0]):
        return ret(st, FALSE)
    if v.op == "cat" and any(isT(x, "str") and x.a[0] for x in v.a[0]):
        return ret(st, FALSE)
    return ret(st, EQ(ip.length(st, a[0]), INT(0)))


def const_str(f):
    def g(ip, st, a, info, ctx):
        xs = [ip.resolve(st, x) for x in a]
        if all(x.op in ("str", "char", "int") for x in xs):
            return ret(st, f(*[x.a[0] for x in xs]))
        return None

    return g


MODELS["core::str::<impl str>::starts_with"] = const_str(lambda s, p: T("bool", s.startswith(p)))
MODELS["core::str::<impl str>::ends_with"] = const_str(lambda s, p: T("bool", s.endswith(p)))
MODELS["core::str::<impl str>::contains"] = const_str(lambda s, p: T("bool", p in s))
MODELS["alloc::str::<impl str>::replace"] = const_str(lambda s, p, q: STR(s.replace(p, q)))
MODELS["core::str::<impl str>::trim"] = const_str(lambda s: STR(s.strip()))
MODELS["alloc::str::<impl str>::to_lowercase"] = const_str(lambda s: STR(s.lower()))
MODELS["alloc::str::<impl str>::to_uppercase"] = const_str(lambda s: STR(s.upper()))
MODELS["alloc::str::<impl str>::repeat"] = const_str(lambda s, n: STR(s * n))


# ---- Vec
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "syn::punctuated::Punctuated::new")
def m_vecnew(ip, st, a, info, ctx):
    return ret(st, T("seq", ()))


def as_seq(v):
    if v.op == "seq":
        return v.a[0]
    return (T("spread", v),)


@model("alloc::vec::Vec::push", "syn::punctuated::Punctuated::push")
def m_push(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    v = val(ip, st, r)
    ip.write(st, r.a[0], r.a[1], T("seq", as_seq(v) + (a[1],)))
    return ret(st, UNIT)


@model("alloc::vec::Vec::insert")
def m_insert(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    v = val(ip, st, r)
    if isT(a[1], "int") and a[1].a[0] == 0:
        ip.write(st, r.a[0], r.a[1], T("seq", (a[2],) + as_seq(v)))
    else:
        ip.write(st, r.a[0], r.a[1], T("insert", v, a[1], a[2]))
    return ret(st, UNIT)


@model("alloc::vec::Vec::clear")
def m_clear(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    ip.write(st, r.a[0], r.a[1], T("seq", ()))
    return ret(st, UNIT)


@model("core::slice::<impl [T]>::reverse")
def m_reverse(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    if r.op != "ref":
        return None
    its = as_seq(val(ip, st, r))
    if any(isT(x, "each") for x in its):
        return None
    ip.write(st, r.a[0], r.a[1], T("seq", tuple(T("spread", x.a[0].a[0] if x.a[0].op == "rev" else T("rev", x.a[0])) if isT(x, "spread") else x for x in reversed(its))))
    return ret(st, UNIT)


@model("alloc::vec::Vec::pop")
def m_pop(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    v = val(ip, st, r)
    its = as_seq(v)
    if not its:
        return ret(st, NONE)
    last = its[-1]
    if isT(last, "spread") or isT(last, "each"):
        ip.write(st, r.a[0], r.a[1], T("popped", v))
        return ret(st, T("call", "pop", (ip.resolve(st, v),)))
    ip.write(st, r.a[0], r.a[1], T("seq", its[:-1]))
    return ret(st, SOME(last))


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append")
def m_extend(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    v = val(ip, st, r)
    x = val(ip, st, a[1])
    it = as_iter(ip, st, x)
    if it is None or r.op != "ref":
        return None
    if info.key.endswith("Vec::append"):
        ip.write(st, innermost(ip, st, a[1]).a[0], innermost(ip, st, a[1]).a[1], T("seq", ()))
    t = peel(info.args[0]) if info.args else ("x",)
    if v.op == "ts" or (t[0] == "adt" and t[1] == "proc_macro2::TokenStream"):
        toks = v.a[0] if v.op == "ts" else (T("interp", v),)
        if x.op == "ts":
            nt = x.a[0]
        else:
            nt = []
            for s in it.a[0]:
                if isT(s, "spread"):
                    nt += totokens(s.a[0])
                elif isT(s, "each"):
                    b = s.a[2]
                    body = T("ts", tuple(t for y in b.a[0] for t in totokens(y))) if b.op == "seq" else b
                    nt.append(T("tsall", s.a[0], s.a[1], body))
                else:
                    nt += totokens(s)
        ip.write(st, r.a[0], r.a[1], T("ts", toks + tuple(nt)))
        return ret(st, UNIT)
    if v.op in ("str", "cat"):
        ip.write(st, r.a[0], r.a[1], CAT((v,) + tuple(it.a[0])))
        return ret(st, UNIT)
    ip.write(st, r.a[0], r.a[1], T("seq", as_seq(v) + it.a[0]))
    return ret(st, UNIT)


@model("core::ops::index::Index::index")
def m_index(ip, st, a, info, ctx):
    r = a[0]
    t = info.args[1]
    inner = innermost(ip, st, r)
    if t[0] == "int":
        if inner.op == "ref":
            return ret(st, T("ref", inner.a[0], inner.a[1] + (("i", val(ip, st, a[1])),)))
        return ret(st, project(val(ip, st, r), ("i", val(ip, st, a[1]))))
    if t[0] == "adt" and "range" in t[1]:
        v = val(ip, st, r)
        rg = val(ip, st, a[1])
        return ret(st, subslice(v, rg, ip, st))
    return None


def subslice(v, rg, ip, st):
    lo = hi = None
    if rg.op == "ctor":
        d = dict(rg.a[2])
        n = base(rg.a[0])
        lo = d.get("start", INT(0))
        hi = d.get("end")
        if n == "RangeFull":
            return v
        if n.endswith("Inclusive"):
            return T("slicei", v, lo, hi if hi is not None else T("none"))
    if v.op == "seq" and isT(lo, "int") and (hi is None or isT(hi, "int")) and not any(isT(x, "spread") or isT(x, "each") for x in v.a[0]):
        return T("seq", v.a[0][lo.a[0]: hi.a[0] if hi is not None else None])
    if v.op == "str" and isT(lo, "int") and (hi is None or isT(hi, "int")):
        return STR(v.a[0][lo.a[0]: hi.a[0] if hi is not None else None])
    L = ip.length(st, v)
    if isT(lo, "int") and lo.a[0] == 0 and hi is not None and hi is ip.binop("Sub", L, INT(1)):
        return T("init", v)
    if isT(lo, "int") and lo.a[0] == 1 and (hi is None or hi is L):
        return T("tail", v)
    return T("slice", v, lo if lo is not None else INT(0), hi if hi is not None else L)


@model("core::ops::index::IndexMut::index_mut")
def m_indexmut(ip, st, a, info, ctx):
    return m_index(ip, st, a, info, ctx)


@model("core::slice::<impl [T]>::contains")
def m_contains(ip, st, a, info, ctx):
    v = ip.resolve(st, a[0])
    x = ip.resolve(st, a[1])
    if v.op == "seq":
        acc = FALSE
        for s in v.a[0]:
            e = T("contains", s.a[0], x) if isT(s, "spread") else (T("contains", T("seq", (s,)), x) if isT(s, "each") else EQ(s, x))
            if e is TRUE:
                return ret(st, TRUE)
            if e is FALSE:
                continue
            acc = e if acc is FALSE else T("or", acc, e)
        return ret(st, acc)
    return ret(st, T("contains", v, x))


def first_last(which):
    def f(ip, st, a, info, ctx):
        v = val(ip, st, a[0])
        its = as_seq(v)
        if not its:
            return ret(st, NONE)
        x = its[0] if which == "first" else its[-1]
        if isT(x, "spread") or isT(x, "each"):
            out = []
            coll = ip.resolve(st, v)
            for s, b in ip.decide_bool(st, EQ(ip.length(st, v), INT(0))):
                out += ret(s, NONE if b else SOME(project(coll, ("i", INT(0))) if which == "first" else project(coll, ("ie", 1))))
            return out
        return ret(st, SOME(x))

    return f


for _p in ("core::slice::<impl [T]>::", "syn::punctuated::Punctuated::"):
    MODELS[_p + "first"] = first_last("first")
    MODELS[_p + "last"] = first_last("last")


@model("core::slice::<impl [T]>::split_last")
def m_split_last(ip, st, a, info, ctx):
    v = ip.resolve(st, a[0])
    out = []
    for s, b in ip.decide_bool(st, EQ(ip.length(st, v), INT(0))):
        out += ret(s, NONE if b else SOME(T("tuple", (project(v, ("ie", 1)), T("init", v)))))
    return out


@model("core::slice::<impl [T]>::first_mut", "core::slice::<impl [T]>::last_mut", "syn::punctuated::Punctuated::first_mut", "syn::punctuated::Punctuated::last_mut", "core::slice::<impl [T]>::get_mut")
def m_elem_mut(ip, st, a, info, ctx):
    m = info.key.split("::")[-1]
    v = val(ip, st, a[0])
    r = innermost(ip, st, a[0])
    if r.op != "ref" or v.op in ("iter", "ctor", "case", "uninit", "opaqueiter", "ts"):
        return None
    n = ip.length(st, v)
    i = val(ip, st, a[1]) if m == "get_mut" else INT(0)
    out = []
    for s, b in ip.decide_bool(st, ip.binop("Lt", i, n)):
        p = ("i", i) if m != "last_mut" else ("i", ip.binop("Sub", n, INT(1)))
        out += ret(s, SOME(T("ref", r.a[0], r.a[1] + (p,))) if b else NONE)
    return out


@model("core::slice::<impl [T]>::split_first")
def m_split_first(ip, st, a, info, ctx):
    v = ip.resolve(st, a[0])
    out = []
    for s, b in ip.decide_bool(st, EQ(ip.length(st, v), INT(0))):
        out += ret(s, NONE if b else SOME(T("tuple", (project(v, ("i", INT(0))), T("tail", v)))))
    return out


@model("core::slice::<impl [T]>::get")
def m_get(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    i = val(ip, st, a[1])
    n = ip.length(st, v)
    out = []
    for s, b in ip.decide_bool(st, ip.binop("Lt", i, n)):
        out += ret(s, SOME(project(v, ("i", i))) if b else NONE)
    return out


# ---- iterators
def seg_parts(seg, nest):
    """(collection, element symbol, body) of a symbolic segment."""
    if seg.op == "spread":
        coll = seg.a[0]
        e = T("elem", coll, nest)
        return coll, e, T("seq", (e,))
    coll, e0, body = seg.a
    e = T("elem", coll, nest)
    return coll, e, replace(body, {e0: e, T("idx", coll, 0): T("idx", coll, nest)}) if e0 is not e else body


UNROLL = 64     # longest range of numbers whose iterations are followed one by one


def as_iter(ip, st, v):
    v = ip.deref(st, v)
    if v.op == "iter":
        return v
    if v.op == "seq":
        return T("iter", v.a[0])
    if v.op == "ctor" and v.a[0] == OPT:
        return T("iter", (v.a[2][0][1],) if v.a[1] == "Some" else ())
    if v.op == "ctor" and base(v.a[0]) in ("Range", "RangeInclusive"):
        d = dict(v.a[2])
        lo, hi = d.get("start"), d.get("end")
        inc = base(v.a[0]) == "RangeInclusive"
        if isT(lo, "int") and isT(hi, "int") and hi.a[0] - lo.a[0] <= UNROLL:
            return T("iter", tuple(INT(i) for i in range(lo.a[0], hi.a[0] + (1 if inc else 0))))
        if lo is INT(0) and isT(hi, "len") and not inc and hi.a[0].op != "seq":
            # the indices of a list: the same loop as an enumeration of its elements
            c = hi.a[0]
            return T("iter", (T("each", c, T("elem", c, 0), T("seq", (T("idx", c, 0),))),))
        return T("iter", (T("spread", T("range", lo, hi, inc)),))
    if v.op == "ctor" and base(v.a[0]) == "RangeFrom":
        return T("iter", (T("spread", T("range", dict(v.a[2])["start"], T("inf"), False)),))
    if v.op == "ts":
        return T("iter", tuple(v.a[0]))
    if v.op in ("case", "uninit", "opaqueiter"):
        return None
    return T("iter", (T("spread", ip.resolve(st, v)),))


@model("core::ops::range::RangeInclusive::new")
def m_ri(ip, st, a, info, ctx):
    return ret(st, T("ctor", "core::ops::range::RangeInclusive", "RangeInclusive", (("start", a[0]), ("end", a[1]))))


@model("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "syn::punctuated::Punctuated::iter", "core::option::Option::iter", "alloc::vec::Vec::drain",
       "quote::__private::ext::RepIteratorExt::quote_into_iter", "quote::__private::ext::RepAsIteratorExt::quote_into_iter", "quote::__private::ext::RepToTokensExt::quote_into_iter")
def m_iter(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    if info.key.endswith("::into_iter") and re.match(r"<&('\w+ )?mut ", info.rpath or ""):
        x = mut_elems(ip, st, v, innermost(ip, st, a[0]))
        if x:
            return x
    if v.op == "case":
        out = []
        for conds, x in v.a[0]:
            s2 = ip.assume_all(st, conds)
            if s2 is not None:
                it = as_iter(ip, s2, x)
                if it is None:
                    return None
                out += ret(s2.copy(), it)
        return out
    it = as_iter(ip, st, v)
    if it is None:
        return None
    if "quote_into_iter" in info.key:
        if "RepToTokensExt" in info.key:
            return ret(st, T("tuple", (T("repeatiter", v), UNIT)))
        return ret(st, T("tuple", (it, UNIT)))
    return ret(st, it)


@model("syn::punctuated::Punctuated::pairs")
def m_pairs(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    segs = []
    for s in as_iter(ip, st, v).a[0]:
        if isT(s, "spread"):
            e = T("elem", s.a[0], 0)
            segs.append(T("each", s.a[0], e, T("seq", (T("tuple", (e, T("sep", e))),))))
        elif isT(s, "each"):
            coll, e, b = s.a
            segs.append(T("each", coll, e, T("seq", tuple(T("tuple", (x, T("sep", x))) for x in b.a[0])) if b.op == "seq" else T("pairs", b)))
        else:
            segs.append(T("tuple", (s, T("sep", s))))
    return ret(st, T("iter", tuple(segs)))


@model("core::slice::<impl [T]>::iter_mut", "syn::punctuated::Punctuated::iter_mut")
def m_itermut(ip, st, a, info, ctx):
    v = val(ip, st, a[0])
    r = innermost(ip, st, a[0])
    if v.op == "seq" and r.op == "ref" and not any(isT(x, "spread") or isT(x, "each") for x in v.a[0]):
        return ret(st, T("iter", tuple(T("ref", r.a[0], r.a[1] + (("i", INT(i)),)) for i in range(len(v.a[0])))))
    return mut_elems(ip, st, v, r) or ret(st, as_iter(ip, st, v))


def mut_elems(ip, st, v, r):
    """exclusive references to the elements of a list: its places by index"""
    if r.op != "ref" or v.op in ("iter", "ctor", "case", "uninit", "opaqueiter", "ts"):
        return None
    coll = T("range", INT(0), ip.length(st, v), False)
    e = T("elem", coll, 0)
    return ret(st, T("iter", (T("each", coll, e, T("seq", (T("ref", r.a[0], r.a[1] + (("i", e),)),))),)))


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if isT(s, "spread"):
            out.append(T("spread", REV(s.a[0])))
        elif isT(s, "each"):
            coll, e, b = s.a
            rc = REV(coll)
            ne = T("elem", rc, 0)
            m = {e: ne}
            if e.op == "elem":
                m[T("idx", coll, e.a[1])] = T("op", "Sub", T("op", "Sub", T("len", coll), INT(1)), T("idx", rc, 0))
            nb = replace(b, m)
            if nb.op == "seq":
                nb = T("seq", tuple(reversed(nb.a[0])))
            out.append(T("each", rc, ne, nb))
        else:
            out.append(s)
    return tuple(out)


def ranges(segs):
    """index loops as ranges again (for adaptors that select some of the items)"""
    out = []
    for s in segs:
        if isT(s, "each") and s.a[2] is T("seq", (T("idx", s.a[0], 0),)):
            s = T("spread", T("range", INT(0), T("len", s.a[0]), False))
        out.append(s)
    return tuple(out)


def REV(c):
    return c.a[0] if c.op == "rev" else T("rev", c)


@model("core::iter::traits::iterator::Iterator::rev")
def m_rev(ip, st, a, info, ctx):
    return ret(st, T("iter", rev_segs(as_iter(ip, st, a[0]).a[0])))


@model("core::iter::traits::iterator::Iterator::chain")
def m_chain(ip, st, a, info, ctx):
    x, y = as_iter(ip, st, a[0]), as_iter(ip, st, a[1])
    return ret(st, T("iter", x.a[0] + y.a[0]))


def concrete(segs):
    return not any(isT(x, "spread") or isT(x, "each") or isT(x, "opaqueiter") for x in segs)


@model("core::iter::traits::iterator::Iterator::enumerate")
def m_enum(ip, st, a, info, ctx):
    segs = as_iter(ip, st, a[0]).a[0]
    out = []
    off = INT(0)
    for s in segs:
        if isT(s, "spread") or isT(s, "each"):
            coll, e, b = seg_parts(s, 0)
            i = ip.binop("Add", T("idx", coll, 0), off)
            if b.op == "seq" and len(b.a[0]) == 1:
                out.append(T("each", coll, e, T("seq", (T("tuple", (i, b.a[0][0])),))))
            else:
                out.append(T("spread", T("enumerate", T("seq", (s,)))))
            off = ip.binop("Add", T("len", coll), off)
        else:
            out.append(T("tuple", (off, s)))
            off = ip.binop("Add", off, INT(1))
    return ret(st, T("iter", tuple(out)))


@model("core::iter::traits::iterator::Iterator::zip", "core::iter::adapters::zip::zip")
def m_zip(ip, st, a, info, ctx):
    x, y = as_iter(ip, st, a[0]).a[0], as_iter(ip, st, a[1]).a[0]
    if concrete(x) and concrete(y):
        return ret(st, T("iter", tuple(T("tuple", (p, q)) for p, q in zip(x, y))))
    if concrete(x) and len(y) == 1 and isT(y[0], "spread") and isT(y[0].a[0], "range") and isT(y[0].a[0].a[0], "int") and isT(y[0].a[0].a[1], "inf"):
        b = y[0].a[0].a[0].a[0]
        return ret(st, T("iter", tuple(T("tuple", (p, INT(b + i))) for i, p in enumerate(x))))
    if concrete(y) and len(x) == 1 and isT(x[0], "spread") and isT(x[0].a[0], "range") and isT(x[0].a[0].a[0], "int") and isT(x[0].a[0].a[1], "inf"):
        b = x[0].a[0].a[0].a[0]
        return ret(st, T("iter", tuple(T("tuple", (INT(b + i), p)) for i, p in enumerate(y))))
    if len(x) == 1 and len(y) == 1:
        cx, ex, bx = seg_parts(x[0], 0)
        cy, ey, by = seg_parts(y[0], 0)
        c = T("zip", cx, cy)
        e = T("elem", c, 0)
        if bx.op == "seq" and by.op == "seq" and len(bx.a[0]) == len(by.a[0]) == 1:
            px, py = FLD(e, None, "0"), FLD(e, None, "1")
            return ret(st, T("iter", (T("each", c, e, T("seq", (T("tuple", (replace(bx.a[0][0], {ex: px, T("idx", cx, 0): T("idx", c, 0)}), replace(by.a[0][0], {ey: py, T("idx", cy, 0): T("idx", c, 0)}))),))),)))
    return ret(st, T("iter", (T("spread", T("zip", T("seq", x), T("seq", y))),)))


@model("core::iter::traits::iterator::Iterator::step_by")
def m_stepby(ip, st, a, info, ctx):
    x = ranges(as_iter(ip, st, a[0]).a[0])
    if concrete(x) and isT(a[1], "int"):
        return ret(st, T("iter", x[:: a[1].a[0]]))
    return ret(st, T("iter", (T("spread", T("stepby", T("seq", x), a[1])),)))


@model("core::iter::traits::iterator::Iterator::skip", "core::iter::traits::iterator::Iterator::take")
def m_skip(ip, st, a, info, ctx):
    x = ranges(as_iter(ip, st, a[0]).a[0])
    sk = info.key.endswith("skip")
    if concrete(x) and isT(a[1], "int"):
        n = a[1].a[0]
        return ret(st, T("iter", x[n:] if sk else x[:n]))
    if isT(a[1], "int") and a[1].a[0] == 0 and sk:
        return ret(st, T("iter", x))
    if sk and isT(a[1], "int") and a[1].a[0] <= len(x) and concrete(x[: a[1].a[0]]):
        return ret(st, T("iter", x[a[1].a[0]:]))
    return ret(st, T("iter", (T("spread", T("skip" if sk else "take", T("seq", x), a[1])),)))


def apply_segs(ip, st, segs, f, ctx, outs):
    """Apply f to every item. -> [(state, [(seg, result-body)])], panics/others appended to outs.
    result for a plain item: ('item', item, value); for symbolic: ('each', coll, elem, body(seq of items), tuple(values))"""
    cur = [(st, [])]
    for seg in segs:
        nxt = []
        for s, acc in cur:
            if isT(seg, "spread") or isT(seg, "each"):
                nest = getattr(ip, "nest", 0)
                ip.nest = nest + 1
                try:
                    coll, e, body = seg_parts(seg, nest)
                    alts = body.a[0] if body.op == "case" else (((), body),)

                    def once(base_s, os):
                        res_alts = []
                        for conds, b in alts:
                            s2 = ip.assume_all(base_s, conds) if conds else base_s
                            if s2 is None:
                                continue
                            items = b.a[0] if b.op == "seq" else (T("elemof", b),)
                            paths = [(s2.copy(), [])]
                            for it in items:
                                np = []
                                for s3, vals in paths:
                                    for l in ip.call_value(f, [it], s3.copy(), ctx):
                                        if l.kind != "return":
                                            os.append(l)
                                            continue
                                        np.append((l.st, vals + [l.val]))
                                paths = np
                            n0 = len(base_s.order)
                            for s3, vals in paths:
                                res_alts.append((s3.order[n0:], items, vals, s3))
                        return res_alts

                    def changes(base_s, res):
                        return {c for *_, s3 in res for c, v in base_s.cells.items() if s3.cells.get(c) is not v}

                    base_s, os = s, []
                    res_alts = once(base_s, os)
                    live = changes(base_s, res_alts)
                    accs = {}
                    for _ in range(4):
                        if not live:
                            break
                        # the cells the closure changes become accumulators of this traversal
                        base_s = s.copy()
                        for c in sorted(live, key=str):
                            old = s.cells.get(c)
                            acc_t, used = ip.make_acc(old, ("map", str(coll), nest, str(c)), [x[3] for x in res_alts], c)
                            base_s.cells[c] = used
                            accs[c] = (acc_t, old)
                        os = []
                        res_alts = once(base_s, os)
                        ch = changes(base_s, res_alts)
                        if ch <= live:
                            break
                        live |= ch
                    outs += os
                    fin = s.copy()
                    fin.folds = dict(s.folds)
                    for *_, s3 in res_alts:
                        fin.folds.update(s3.folds)
                    for c in live:
                        acc_t, old = accs[c]
                        ip.register(fin.folds, acc_t, old, [(co, s3.cells.get(c, T("uninit"))) for co, _, _, s3 in res_alts], coll, e)
                        fin.cells[c] = ip.close_acc(acc_t, old, [(co, s3.cells.get(c, T("uninit"))) for co, _, _, s3 in res_alts], coll, e)
                    # side effects
                    evs = []
                    for conds, items, vals, s3 in res_alts:
                        ev = s3.log[len(base_s.log):]
                        if ev:
                            evs.append((conds, ev))
                    if evs:
                        fin.event("each", coll, e, tuple(evs))
                    rv = [(c, i, [ip.resolve(s3, v) for v in vs]) for c, i, vs, s3 in res_alts]
                    nxt.append((fin, acc + [("each", coll, e, rv)]))
                finally:
                    ip.nest = nest
            else:
                for l in ip.call_value(f, [seg], s.copy(), ctx):
                    if l.kind != "return":
                        outs.append(l)
                        continue
                    nxt.append((l.st, acc + [("item", seg, l.val)]))
        cur = nxt
    return cur


def mk_each(coll, e, alts):
    """alts: [(conds, seq-items)] -> tuple of segments"""
    if not alts:
        return ()
    body = CASE(tuple((tuple(c), T("seq", tuple(i))) for c, i in alts)) if len(alts) > 1 else T("seq", tuple(alts[0][1]))
    if isT(body, "seq") and not body.a[0]:
        return ()
    if isT(body, "seq") and body.a[0] == (e,):
        return (T("spread", coll),)
    return (T("each", coll, e, body),)


@model("core::iter::traits::iterator::Iterator::map")
def m_map(ip, st, a, info, ctx):
    outs = []
    it = as_iter(ip, st, a[0])
    if it is None:
        return None
    for s, acc in apply_segs(ip, st, it.a[0], a[1], ctx, outs):
        segs = ()
        for x in acc:
            if x[0] == "item":
                segs += (x[2],)
            else:
                _, coll, e, rv = x
                segs += mk_each(coll, e, [(c, vs) for c, i, vs in rv])
        outs += ret(s, T("iter", segs))
    return outs


@model("core::iter::traits::iterator::Iterator::filter")
def m_filter(ip, st, a, info, ctx):
    outs = []
    it = as_iter(ip, st, a[0])
    for s, acc in apply_segs(ip, st, it.a[0], a[1], ctx, outs):
        cur = [(s, ())]
        for x in acc:
            nxt = []
            for s1, segs in cur:
                if x[0] == "item":
                    for s2, b in ip.decide_bool(s1, x[2]):
                        nxt.append((s2, segs + ((x[1],) if b else ())))
                else:
                    _, coll, e, rv = x
                    alts = []
                    for c, items, vs in rv:
                        if len(items) == 1:
                            for s2, b in ip.decide_bool(St(), vs[0]):
                                alts.append((tuple(c) + s2.order, items if b else ()))
                        else:
                            alts.append((c, items))
                    nxt.append((s1, segs + mk_each(coll, e, alts)))
            cur = nxt
        for s1, segs in cur:
            outs += ret(s1, T("iter", segs))
    return outs


@model("core::iter::traits::iterator::Iterator::filter_map", "core::iter::traits::iterator::Iterator::flat_map")
def m_filter_map(ip, st, a, info, ctx):
    outs = []
    it = as_iter(ip, st, a[0])
    flat = info.key.endswith("flat_map")
    for s, acc in apply_segs(ip, st, it.a[0], a[1], ctx, outs):
        cur = [(s, ())]
        for x in acc:
            nxt = []
            for s1, segs in cur:
                if x[0] == "item":
                    v = x[2]
                    if flat:
                        i2 = as_iter(ip, s1, v)
                        nxt.append((s1, segs + i2.a[0]))
                    else:
                        for s2, n in split(ip, s1, v, OPT):
                            nxt.append((s2, segs + ((payload(v, "Some"),) if n == "Some" else ())))
                else:
                    _, coll, e, rv = x
                    alts = []
                    for c, items, vs in rv:
                        if flat:
                            its = ()
                            for v in vs:
                                its += as_iter(ip, s1, v).a[0]
                            alts.append((c, its))
                        else:
                            for s2, n in split(ip, St(), vs[0], OPT):
                                alts.append((tuple(c) + s2.order, (payload(vs[0], "Some"),) if n == "Some" else ()))
                    nxt.append((s1, segs + mk_each(coll, e, alts)))
            cur = nxt
        for s1, segs in cur:
            outs += ret(s1, T("iter", segs))
    return outs


@model("core::iter::traits::iterator::Iterator::flatten")
def m_flatten(ip, st, a, info, ctx):
    it = as_iter(ip, st, a[0])
    segs = ()
    for s in it.a[0]:
        if isT(s, "each") and s.a[2].op == "seq":
            its = ()
            for v in s.a[2].a[0]:
                its += as_iter(ip, st, v).a[0]
            segs += (T("each", s.a[0], s.a[1], T("seq", its)),)
        elif isT(s, "each") or isT(s, "spread"):
            segs += (T("spread", T("flatten", s)),)
        else:
            segs += as_iter(ip, st, s).a[0]
    return ret(st, T("iter", segs))


@model("core::iter::traits::iterator::Iterator::for_each")
def m_foreach(ip, st, a, info, ctx):
    outs = []
    it = as_iter(ip, st, a[0])
    for s, acc in apply_segs(ip, st, it.a[0], a[1], ctx, outs):
        outs += ret(s, UNIT)
    return outs


@model("core::iter::traits::iterator::Iterator::position", "core::iter::traits::iterator::Iterator::rposition")
def m_position(ip, st, a, info, ctx):
    """index of an element found: pos(element, its sequence)"""
    it = as_iter(ip, st, a[0])
    if it is None or len(it.a[0]) != 1 or not isT(it.a[0][0], "spread"):
        return None
    coll = it.a[0][0].a[0]
    seg = T("spread", T("rev", coll)) if info.key.endswith("rposition") else it.a[0][0]
    outs = []
    for s1, acc in apply_segs(ip, st, (seg,), a[1], ctx, outs):
        for _, cl, e, rv in acc:
            for c, items, vs in rv:
                for x, v in zip(items, vs):
                    sc = ip.assume_all(s1, c)
                    if sc is None:
                        continue
                    for s2, b in ip.decide_bool(sc, v):
                        if b:
                            outs += ret(s2.copy(), SOME(T("pos", e, coll)))
            n = s1.copy()
            n.order += (("forall-not", cl, e, tuple((tuple(c), tuple(vs)) for c, i, vs in rv)),)
            n.forks += 1
            outs += ret(n, NONE)
    return outs


@model("core::iter::traits::iterator::Iterator::find")
def m_find(ip, st, a, info, ctx):
    it = as_iter(ip, st, a[0])
    outs = []
    cur = [st]
    for seg in it.a[0]:
        nxt = []
        for s in cur:
            if isT(seg, "spread") or isT(seg, "each"):
                o2 = []
                for s1, acc in apply_segs(ip, s, (seg,), a[1], ctx, o2):
                    for _, coll, e, rv in acc:
                        for c, items, vs in rv:
                            for x, v in zip(items, vs):
                                sc = ip.assume_all(s1, c)
                                if sc is None:
                                    continue
                                for s2, b in ip.decide_bool(sc, v):
                                    if b:
                                        outs += ret(s2.copy(), SOME(x))
                        nxt.append(s1.copy())
                        nxt[-1].order += (("forall-not", coll, e, tuple((tuple(c), tuple(vs)) for c, i, vs in rv)),)
                        nxt[-1].forks += 1
                outs += o2
            else:
                for l in ip.call_value(a[1], [seg], s.copy(), ctx):
                    if l.kind != "return":
                        outs.append(l)
                        continue
                    for s2, b in ip.decide_bool(l.st, l.val):
                        if b:
                            outs += ret(s2, SOME(seg))
                        else:
                            nxt.append(s2)
        cur = nxt
    for s in cur:
        outs += ret(s, NONE)
    return outs


def m_anyall(which):
    def f(ip, st, a, info, ctx):
        it = as_iter(ip, st, a[0])
        outs = []
        cur = [(st, [])]
        for seg in it.a[0]:
            nxt = []
            for s, terms in cur:
                if isT(seg, "spread") or isT(seg, "each"):
                    for s1, acc in apply_segs(ip, s, (seg,), a[1], ctx, outs):
                        t = terms
                        for _, coll, e, rv in acc:
                            v = CASE(tuple((tuple(c), vs[0]) for c, i, vs in rv if vs)) if len(rv) > 1 else rv[0][2][0]
                            t = t + [T(which + "of", coll, e, v)]
                        nxt.append((s1, t))
                else:
                    for l in ip.call_value(a[1], [seg], s.copy(), ctx):
                        if l.kind != "return":
                            outs.append(l)
                            continue
                        nxt.append((l.st, terms + [l.val]))
            cur = nxt
        for s, terms in cur:
            acc = FALSE if which == "any" else TRUE
            for t in terms:
                if which == "any":
                    if t is TRUE or acc is TRUE:
                        acc = TRUE
                    elif t is not FALSE:
                        acc = t if acc is FALSE else T("or", acc, t)
                else:
                    if t is FALSE or acc is FALSE:
                        acc = FALSE
                    elif t is not TRUE:
                        acc = t if acc is TRUE else T("and", acc, t)
            outs += ret(s, acc)
        return outs

    return f


MODELS["core::iter::traits::iterator::Iterator::any"] = m_anyall("any")
MODELS["core::iter::traits::iterator::Iterator::all"] = m_anyall("all")


@model("core::iter::traits::iterator::Iterator::fold")
def m_fold(ip, st, a, info, ctx):
    it = as_iter(ip, st, a[0])
    outs = []
    cur = [(st, a[1])]
    for seg in it.a[0]:
        nxt = []
        for s, accv in cur:
            if isT(seg, "spread") or isT(seg, "each"):
                coll, e, body = seg_parts(seg, getattr(ip, "nest", 0))
                acc = T("acc", "fold", str(coll))
                item = body.a[0][0] if body.op == "seq" and len(body.a[0]) == 1 else T("elemof", body)
                alts = []
                n0 = len(s.order)
                touched = set()
                for l in ip.call_value(a[2], [acc, item], s.copy(), ctx):
                    if l.kind != "return":
                        outs.append(l)
                    else:
                        touched |= {c for c, v in s.cells.items() if l.st.cells.get(c) is not v}
                        alts.append((l.st.order[n0:], ip.resolve(l.st, l.val)))
                if alts:
                    sf = s.copy()
                    for c in touched:
                        sf.cells[c] = T("call", "effect of a fold closure", (T("str", str(c)),))
                    nxt.append((sf, T("fold", coll, e, ip.resolve(s, accv), acc, CASE(tuple(alts)) if len(alts) > 1 else alts[0][1])))
            else:
                for l in ip.call_value(a[2], [accv, seg], s.copy(), ctx):
                    if l.kind != "return":
                        outs.append(l)
                    else:
                        nxt.append((l.st, l.val))
        cur = nxt
    for s, v in cur:
        outs += ret(s, v)
    return outs


@model("core::iter::traits::iterator::Iterator::count")
def m_count(ip, st, a, info, ctx):
    return ret(st, ip.length(st, T("seq", as_iter(ip, st, a[0]).a[0])))


@model("core::iter::traits::iterator::Iterator::last")
def m_last(ip, st, a, info, ctx):
    return first_last("last")(ip, st, [T("seq", as_iter(ip, st, a[0]).a[0])], info, ctx)


@model("core::iter::traits::iterator::Iterator::next")
def m_next(ip, st, a, info, ctx):
    r = innermost(ip, st, a[0])
    v = val(ip, st, r)
    if v.op == "repeatiter":
        return ret(st, SOME(v.a[0]))
    it = as_iter(ip, st, v)
    if it is None or r.op != "ref":
        return None
    segs = it.a[0]
    if not segs:
        return ret(st, NONE)
    if isT(segs[0], "spread") or isT(segs[0], "each"):
        return None
    ip.write(st, r.a[0], r.a[1], T("iter", segs[1:]))
    return ret(st, SOME(segs[0]))


@model("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def m_collect(ip, st, a, info, ctx):
    it = as_iter(ip, st, a[0])
    if it is None:
        return None
    dst = info.args[1] if info.key.endswith("collect") else info.args[0]
    return collect(ip, st, it.a[0], dst)


def collect(ip, st, segs, dst):
    if dst[0] == "adt" and dst[1] == "alloc::string::String":
        ps = []
        for s in segs:
            if isT(s, "spread"):
                ps.append(T("join", T("seq", (s,)), STR("")))
            elif isT(s, "each"):
                b = s.a[2]
                bb = CAT(b.a[0]) if b.op == "seq" else (CASE(tuple((c, CAT(x.a[0])) for c, x in b.a[0])) if b.op == "case" else b)
                ps.append(T("catall", s.a[0], s.a[1], bb))
            elif s.op == "char":
                ps.append(STR(s.a[0]))
            else:
                ps.append(s)
        return ret(st, CAT(ps))
    if dst[0] == "adt" and dst[1] == "proc_macro2::TokenStream":
        toks = []
        for s in segs:
            if isT(s, "spread"):
                toks.append(T("interp", s.a[0]))
            elif isT(s, "each"):
                b = s.a[2]
                body = T("ts", tuple(t for y in b.a[0] for t in totokens(ip.resolve(st, y)))) if b.op == "seq" else b
                toks.append(T("tsall", s.a[0], s.a[1], body))
            else:
                toks += totokens(ip.resolve(st, s))
        return ret(st, T("ts", tuple(toks)))
    if dst[0] == "adt" and dst[1] in (RES, OPT):
        adt = dst[1]
        good, wrap = ("Ok", OK) if adt == RES else ("Some", SOME)
        outs = []
        cur = [(st, ())]
        for s in segs:
            nxt = []
            for s1, acc in cur:
                if isT(s, "spread") or isT(s, "each"):
                    coll, e, body = seg_parts(s, getattr(ip, "nest", 0))
                    r = None
                    alts = body.a[0] if body.op == "case" else (((), body),)
                    good_alts, bad = [], []
                    for c, b in alts:
                        items = b.a[0] if b.op == "seq" else (T("elemof", b),)
                        x = items[0] if items else None
                        if x is None:
                            good_alts.append((c, ()))
                            continue
                        if x.op == "ctor":
                            if x.a[1] == good:
                                good_alts.append((c, (payload(x, good),)))
                            else:
                                bad.append((c, x))
                            continue
                        sub = St()
                        for s2, n in split(ip, sub, x, adt):
                            if n == good:
                                good_alts.append((tuple(c) + s2.order, (payload(x, good),)))
                            else:
                                bad.append((tuple(c) + s2.order, x))
                    for c, x in bad:
                        sb = ip.assume_all(s1, c)
                        if sb is not None:
                            outs += ret(sb.copy(), ERR(payload(x, "Err")) if adt == RES else NONE)
                    if good_alts:
                        s3 = s1.copy()
                        if bad:
                            s3.order += (("forall", coll, e, tuple(tuple(c) for c, _ in good_alts)),)
                            s3.forks += 1
                        ga = [((), i) for c, i in good_alts] if len(set(i for _, i in good_alts)) == 1 else good_alts
                        if len(ga) > 1 and len(set(i for _, i in ga)) == 1:
                            ga = ga[:1]
                        nxt.append((s3, acc + mk_each(coll, e, ga)))
                else:
                    for s2, n in split(ip, s1, s, adt):
                        if n == good:
                            nxt.append((s2, acc + (payload(s, good),)))
                        else:
                            outs += ret(s2, ERR(payload(s, "Err")) if adt == RES else NONE)
            cur = nxt
        inner = dst[2][0]
        for s1, acc in cur:
            outs += lift(collect(ip, s1, acc, inner), wrap)
        return outs
    return ret(st, T("seq", tuple(segs)))


@model("core::iter::traits::iterator::Iterator::sum", "core::iter::traits::iterator::Iterator::product")
def m_sum(ip, st, a, info, ctx):
    segs = as_iter(ip, st, a[0]).a[0]
    op = "Add" if info.key.endswith("sum") else "Mul"
    if concrete(segs):
        acc = INT(0 if op == "Add" else 1)
        for s in segs:
            acc = ip.binop(op, acc, ip.resolve(st, s))
        return ret(st, acc)
    return ret(st, T(op + "all", ip.resolve(st, T("seq", segs))))


@model("core::str::<impl str>::chars")
def m_chars(ip, st, a, info, ctx):
    v = ip.resolve(st, a[0])
    if v.op == "str":
        return ret(st, T("iter", tuple(T("char", c) for c in v.a[0])))
    return ret(st, T("iter", (T("spread", T("chars", v)),)))


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_callfn(ip, st, a, info, ctx):
    args = val(ip, st, a[1])
    if args.op != "tuple":
        return None
    return ip.call_value(a[0], list(args.a[0]), st, ctx)


# ---- tokens
PUNCT = dict(add="+", add_eq="+=", and_="&", and_and="&&", and_eq="&=", at="@", bang="!", caret="^", caret_eq="^=", colon=":", colon2="::", comma=",", div="/",
             div_eq="/=", dot=".", dot2="..", dot3="...", dot_dot_eq="..=", eq="=", eq_eq="==", ge=">=", gt=">", le="<=", lt="<", mul_eq="*=", ne="!=", or_="|", or_eq="|=",
             or_or="||", pound="#", question="?", rarrow="->", larrow="<-", rem="%", rem_eq="%=", fat_arrow="=>", semi=";", shl="<<", shl_eq="<<=", shr=">>", shr_eq=">>=",
             star="*", sub="-", sub_eq="-=", underscore="_")


def push_tokens(ip, st, r, toks):
    r = innermost(ip, st, r)
    v = val(ip, st, r)
    cur = v.a[0] if v.op == "ts" else (() if v.op in ("uninit",) else (T("interp", v),))
    if r.op == "ref":
        ip.write(st, r.a[0], r.a[1], T("ts", cur + tuple(toks)))


for _k, _v in PUNCT.items():
    for _s, _off in (("", 0), ("_spanned", 1)):

        def _f(ip, st, a, info, ctx, _v=_v):
            push_tokens(ip, st, a[0], (T("pu", _v),))
            return ret(st, UNIT)

        MODELS["quote::__private::push_" + _k.rstrip("_") + _s] = _f


@model("proc_macro2::TokenStream::new")
def m_tsnew(ip, st, a, info, ctx):
    return ret(st, T("ts", ()))


@model("quote::__private::push_ident", "quote::__private::push_ident_spanned", "quote::__private::push_lifetime")
def m_pushident(ip, st, a, info, ctx):
    s = val(ip, st, a[-1])
    push_tokens(ip, st, a[0], (T("id", s.a[0]) if s.op == "str" else T("interp", T("ident", s)),))
    return ret(st, UNIT)


@model("quote::__private::parse", "quote::__private::parse_spanned")
def m_qparse(ip, st, a, info, ctx):
    s = val(ip, st, a[-1])
    if s.op == "str":
        from gen import lex
        from rast import ParseError

        try:
            toks = lex(s.a[0])
        except ParseError:
            toks = (T("interp", s),)
        push_tokens(ip, st, a[0], toks)
    else:
        push_tokens(ip, st, a[0], (T("interp", s),))
    return ret(st, UNIT)


@model("quote::__private::push_group", "quote::__private::push_group_spanned")
def m_pushgroup(ip, st, a, info, ctx):
    d = val(ip, st, a[-2])
    ts = ip.resolve(st, a[-1])
    push_tokens(ip, st, a[0], (T("gr", d.a[1] if d.op == "ctor" else str(d), ts),))
    return ret(st, UNIT)


@model("quote::to_tokens::ToTokens::to_tokens")
def m_totokens(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    v = ip.resolve(st, a[0])
    t = peel(info.args[0])
    toks = None
    if v.op == "int" and t[0] == "int":
        toks = (T("li", "%d%s" % (v.a[0], t[1])),)
    elif v.op == "float":
        toks = (T("li", "%r%s" % (v.a[0], v.a[1])),)
    elif t[0] in ("int", "float"):
        toks = (T("interp", T("litof", v, t[1])),)
    elif v.op == "str" and strty(info.args[0]):
        toks = totokens(v)
    elif v.op == "ctor" and v.a[0] == OPT:
        toks = totokens(v.a[2][0][1]) if v.a[1] == "Some" else ()
    else:
        toks = totokens(v)
    push_tokens(ip, st, a[1], toks)
    return ret(st, UNIT)


@model("quote::to_tokens::ToTokens::to_token_stream", "quote::to_tokens::ToTokens::into_token_stream")
def m_tots(ip, st, a, info, ctx):
    return ret(st, T("ts", tuple(totokens(ip.resolve(st, a[0])))))


@model("syn::parse_quote::parse", "syn::parse2", "syn::parse_quote::parse_spanned")
def m_parse(ip, st, a, info, ctx):
    ts = ip.resolve(st, a[0])
    t = info.args[0]
    p = T("parsed", t[1] if t[0] == "adt" else str(t), ts)
    if info.key == "syn::parse2":
        if ts.op == "ts" and not any(isT(x, "interp") for x in subterms(ts)):
            return ret(st, OK(p))
        v = T("call", "syn::parse2", (p,))
        return ret(st, v)
    return ret(st, p)


INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


@model(*["proc_macro2::Literal::%s_%s" % (t, s) for t in INTS + ("f32", "f64") for s in ("suffixed", "unsuffixed")])
def m_literal(ip, st, a, info, ctx):
    v = ip.resolve(st, a[0])
    t, s = info.key.split("::")[-1].rsplit("_", 1)
    s = t if s == "suffixed" else ""
    if v.op == "int" and v.a[0] >= 0:
        return ret(st, T("li", "%d%s" % (v.a[0], s)))
    if v.op == "float":
        return ret(st, T("li", "%r%s" % (v.a[0], s)))
    return ret(st, T("litof", v, s))


@model("quote::__private::mk_ident", "proc_macro2::Ident::new", "quote::__private::ident_maybe_raw")
def m_mkident(ip, st, a, info, ctx):
    return ret(st, T("ident", ip.resolve(st, a[0])))


@model("proc_macro2::Span::call_site", "proc_macro2::Ident::span", "quote::__private::IdentFragmentAdapter::span", "syn::spanned::Spanned::span", "proc_macro2::Span::mixed_site",
       "syn::lit::value::<impl syn::lit::Lit>::span", "syn::lit::LitFloat::span", "syn::lit::LitInt::span")
def m_span(ip, st, a, info, ctx):
    if info.key == "quote::__private::IdentFragmentAdapter::span":
        return ret(st, NONE)
    return ret(st, T("span"))


# ---- output
def m_print(which):
    def f(ip, st, a, info, ctx):
        st.event(which, ip.resolve(st, a[0]) if a else UNIT)
        return ret(st, UNIT)

    return f


MODELS["std::io::stdio::_print"] = m_print("stdout")
MODELS["std::io::stdio::_eprint"] = m_print("stderr")


@model("std::io::Write::write_all", "core::io::write::Write::write_all")
def m_writeall(ip, st, a, info, ctx):
    st.event("write_all", str(info.args[0]), ip.resolve(st, a[1]))
    return ret(st, T("call", "write_all", (T("ty", str(info.args[0])), ip.resolve(st, a[1]))))


@model("core::default::Default::default")
def m_default(ip, st, a, info, ctx):
    b, env = info.target(ip)
    if b is not None:
        return None
    t = info.args[0]
    if t[0] == "adt" and t[1] in ("alloc::vec::Vec", "syn::punctuated::Punctuated"):
        return ret(st, T("seq", ()))
    if t[0] == "adt" and t[1] == "alloc::string::String":
        return ret(st, STR(""))
    if t[0] == "int":
        return ret(st, INT(0))
    if t[0] == "bool":
        return ret(st, FALSE)
    if t[0] == "adt" and t[1] == OPT:
        return ret(st, NONE)
    if t[0] == "adt" and t[1] == "proc_macro2::TokenStream":
        return ret(st, T("ts", ()))
    return ret(st, T("default", str(t)))


@model("alloc::boxed::Box::pin")
def m_pin(ip, st, a, info, ctx):
    return ret(st, a[0])


# integer helpers
def intop(name, f):
    def g(ip, st, a, info, ctx):
        xs = [ip.resolve(st, x) for x in a]
        if all(x.op == "int" for x in xs):
            r = f(*[x.a[0] for x in xs])
            if r is not None:
                return ret(st, r)
        return None

    for t in "u8 i8 u16 i16 u32 i32 u64 i64 usize isize".split():
        mod = "num"
        MODELS["core::num::<impl %s>::%s" % (t, name)] = g


intop("saturating_sub", lambda a, b: INT(max(0, a - b)))
intop("wrapping_sub", lambda a, b: INT(a - b))
intop("wrapping_add", lambda a, b: INT(a + b))
intop("pow", lambda a, b: INT(a**b))
intop("min", lambda a, b: INT(min(a, b)))
intop("max", lambda a, b: INT(max(a, b)))


@model("core::cmp::Ord::min", "core::cmp::min")
def m_min(ip, st, a, info, ctx):
    x, y = ip.resolve(st, a[0]), ip.resolve(st, a[1])
    if x.op == y.op == "int":
        return ret(st, INT(min(x.a[0], y.a[0])))
    return ret(st, T("call", "min", (x, y)))


@model("core::cmp::Ord::max", "core::cmp::max")
def m_max(ip, st, a, info, ctx):
    x, y = ip.resolve(st, a[0]), ip.resolve(st, a[1])
    if x.op == y.op == "int":
        return ret(st, INT(max(x.a[0], y.a[0])))
    return ret(st, T("call", "max", (x, y)))


@model("syn::path::parsing::<impl syn::path::Path>::get_ident")
def m_getident(ip, st, a, info, ctx):
    return ret(st, T("call", "get_ident", (ip.resolve(st, a[0]),)))
