from vis import *
from sem import *

NODE = SYM("p2")
# node kind -> (child expr fields, child expr sequence fields, other fields that must be kept)
NODES = {
    "Unary": (("expr",), (), ("op",)),
    "Binary": (("left", "right"), (), ("op",)),
    "MethodCall": (("receiver",), ("args",), ("method", "turbofish")),
    "Paren": (("expr",), (), ()),
    "Field": (("base",), (), ("member",)),
    "Lit": ((), (), ()),
    "Path": ((), (), ()),
}


def fld(kind, name):
    return FLD(FLD(NODE, kind, "0"), None, name)


def is_same(v, kind):
    """v is the unchanged node"""
    if v is NODE:
        return True
    if v.op == "ctor" and v.a[0] == EXPR and v.a[1] == kind:
        x = v.a[2][0][1]
        if x is FLD(NODE, kind, "0"):
            return True
        if x.op == "ctor":
            return all(eq_field(val, kind, n) for n, val in x.a[2])
    return False


def eq_field(val, kind, n):
    return val is fld(kind, n) or n in ("attrs", "paren_token", "dot_token")


def vis_seq(s, coll):
    """s == [visit(e).Ok.0 for e in coll]"""
    if s is None or s.op != "seq" or len(s.a[0]) != 1:
        return False
    x = s.a[0][0]
    if x.op != "each" or x.a[0] is not coll:
        return False
    b = x.a[2]
    return isT(b, "seq") and b.a[0] == (FLD(T("visit", x.a[1]), "Ok", "0"),)


def homomorphic(r, lf, v, kind, who, where):
    """obligation: on this path V maps a node of this kind to the same node over visited children"""
    kids, seqs, keep = NODES[kind]
    key = "%s/%s" % (who, kind)
    x = okval(v)
    if x is None:
        e = errval(v)
        if e is None:
            if v.op == "visit":
                r.undecided(key, show(v), where)
            else:
                r.undecided(key, "result " + show(v), where)
            return
        for k in kids:
            t = T("visit", fld(kind, k))
            if e is FLD(t, "Err", "0") and lf.st.v.get(t) == "Err":
                r.ok(key + "/error", show(v), where)
                return
        for s in seqs:
            if e.op == "fld" and e.a[1] == "Err" and isT(e.a[0], "visit") and fld(kind, s) in subterms(e):
                r.ok(key + "/error", show(v), where)
                return
        if e.op == "fld" and isT(e.a[0], "visit"):
            r.bad(key + "/error", "returns %s although that child did not fail on this path [%s]" % (show(v), factstr(lf.st)), where)
        elif opaque(v, allow=("span",)):
            r.undecided(key + "/error", show(v), where)
        else:
            r.bad(key + "/error", "%s::visit on a %s node whose children are all accepted must succeed; a path returns %s [%s]" % (who, kind, show(v), factstr(lf.st)), where)
        return
    # every child must have been visited successfully
    if not kids and not seqs:
        soft(r, key, is_same(x, kind), x, "a %s node must be kept unchanged; got %s" % (kind, show(x)), where, show(x))
        return
    for k in kids:
        t = T("visit", fld(kind, k))
        if lf.st.v.get(t) != "Ok":
            if opaque(x):
                r.undecided(key, show(x), where)
                return
            r.bad(key, "the %s of a %s node is not transformed (or its failure is ignored) on a path that returns %s [%s]" % (k, kind, show(x), factstr(lf.st)), where)
            return
    st = struct_of(x, kind)
    if st is None:
        if opaque(x) or x.op in ("parsed", "case"):
            r.undecided(key, show(x), where)
        else:
            r.bad(key, "expected a %s node over the transformed children, got %s" % (kind, show(x)), where)
        return
    probs = []
    und = False
    for k in kids:
        if get(st, k) is not FLD(T("visit", fld(kind, k)), "Ok", "0"):
            probs.append("%s is %s" % (k, show(get(st, k))))
    for s in seqs:
        g = get(st, s)
        if not vis_seq(g, fld(kind, s)):
            if g is not None and (opaque(g) or g.op in ("fold", "sym")):
                und = True
            else:
                probs.append("%s is %s" % (s, show(g)))
    for k in keep:
        if get(st, k) is not fld(kind, k):
            probs.append("%s is %s" % (k, show(get(st, k))))
    if probs:
        r.bad(key, "%s node not rebuilt over its own transformed children: %s" % (kind, "; ".join(probs)), where)
    elif und:
        r.undecided(key, show(x), where)
    else:
        r.ok(key, show(x), where)


def struct_of(x, kind):
    if x.op == "ctor" and x.a[0] == EXPR and x.a[1] == kind:
        y = x.a[2][0][1]
        if y.op == "ctor":
            return y
    return None


def unsupported(r, lf, v, who, where):
    r.check(who + "/unsupported", errval(v) is not None or (okval(v) is None and opaque(v)), "a node outside the supported subset must be rejected with Err; a path returns %s [%s]" % (show(v), factstr(lf.st)), where, show(v))


def walk(r, vpath, special, hooks=()):
    """checks the default (homomorphic) kinds of a visitor, returns the leaves of its special kinds"""
    who = vpath.split("::")[-1]
    p = prog()
    ip, ls = transfer(p, vpath, hooks=list(hooks))
    if not r.anchor("impl Visitor for " + who, ls is not None):
        return None, {}
    where = "doctor-syn/src/transformation impl Visitor for " + who
    sp = {}
    seen = set()
    for lf in ls:
        k = node_kind(lf, NODE)
        v = sem(ip.resolve(lf.st, lf.val))
        lf.val = v
        if isinstance(k, tuple):
            if lf.kind == "return":
                unsupported(r, lf, v, who, where)
                missing = set(NODES) - set(k[1])
                if missing and errval(v) is not None:
                    for m in missing:
                        if m not in special:
                            r.bad("%s/%s/supported" % (who, m), "%s nodes are not distinguished from unsupported ones and are rejected" % m, where)
            seen.add("other")
            continue
        seen.add(k)
        if k in special:
            sp.setdefault(k, []).append(lf)
        elif lf.kind == "return":
            if k in NODES:
                homomorphic(r, lf, v, k, who, where)
            else:
                unsupported(r, lf, v, who, where)
        else:
            r.undecided("%s/%s/panic" % (who, k), factstr(lf.st), where)
    for k in NODES:
        r.check("%s/%s/handled" % (who, k), k in seen, "%s no longer handles %s nodes" % (who, k), where)
    r.check(who + "/other/handled", "other" in seen, "no path covers unsupported nodes", where)
    r.saw("paths", len(ls))
    r.saw("visitors", 1)
    return ip, sp


def api(r, name, want_self, where="doctor-syn/src/expression.rs"):
    """Expression::<name> applies the visitor to self.inner and wraps the result"""
    p = prog()
    path = "doctor_syn::expression::Expression::" + name
    if not r.anchor(path, path in p.bodies):
        return

    def hook(ip, st, info, args, ctx):
        if info.trait() == VIS and info.method() == "visit_expr":
            return [Leaf(st, "return", T("visitwith", ip.resolve(st, args[0]), ip.resolve(st, args[1])))]
        return None

    ip = p.interp(hooks=[hook])
    for lf in ip.run(path):
        if lf.kind != "return":
            continue
        v = sem(ip.resolve(lf.st, lf.val))
        vw = [x for x in subterms(v) if x.op == "visitwith"]
        key = "api/" + name
        if len(vw) != 1:
            (r.undecided if opaque(v) else r.bad)(key, "Expression::%s must return what its visitor returns for this expression; got %s" % (name, show(v)), where)
            continue
        w = vw[0]
        good_self = want_self(w.a[0])
        good_arg = w.a[1] is FLD(SYM("p1"), None, "inner")
        good = v in (OK(FLD(w, "Ok", "0")), ERR(FLD(w, "Err", "0")), w)
        r.check(key, (good and good_self and good_arg), "Expression::%s returns %s" % (name, show(v)), where, show(v))


def selfctor(adt, **fields):
    def f(t):
        if t.op != "ctor" or not t.a[0].endswith(adt):
            return False
        d = dict(t.a[2])
        return all(d.get(k) is v for k, v in fields.items())

    return f
