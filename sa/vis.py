"""Transfer functions of the expression visitors (doctor_syn::visitor::Visitor).

For an implementor V, visit_expr is analysed once with every recursive visit of
a *child* replaced by the opaque term visit(child) (the inductive hypothesis),
which yields V's one-step action on every kind of node."""
from load import *

VIS = "doctor_syn::visitor::Visitor"
EXPR = "syn::expr::Expr"


def VISIT(x):
    return T("visit", x)


def visitors(p):
    ip = p.interp()
    out = {}
    for c, im in ip.impl_tab.get(VIS, []):
        t = c.types[im["self"]]
        out[t["path"]] = (c, im, t)
    return out


def transfer(p, vpath, hooks=(), want_panics=False, entry="visit_expr"):
    """-> (ip, leaves) of V::visit_expr($p1=self, $p2=node)."""
    ip0 = p.interp()
    impl = None
    for c, im in ip0.impl_tab.get(VIS, []):
        if c.types[im["self"]].get("path") == vpath:
            impl = (c, im)
    if impl is None:
        return None, None
    c, im = impl
    over = im["items"]
    node = SYM("p2")

    def hook(ip, st, info, args, ctx):
        tr = info.trait()
        if tr != VIS and not info.path.startswith(VIS + "::") and not (" as " + VIS + ">::") in info.path:
            return None
        m = info.method()
        if m in ("visit_expr", "visit_expr_core") and len(args) == 2:
            a = ip.resolve(st, args[1])
            if a is node:
                return None
            if m == "visit_expr_core" and "visit_expr" in over:
                return None
            st.event("visit", a)
            return [Leaf(st, "return", T("visit", a))]
        return None

    ip = p.interp(hooks=list(hooks) + [hook], want_panics=want_panics)
    selfty = ip.ty(c, im["self"])
    if entry in over:
        body = ip.bodies[over[entry]]
        env = ()
    else:
        body = ip.bodies[VIS + "::" + entry]
        env = ((0, selfty),)
    st = St()
    args = [ip.ref_to(st, SYM("p1")), ip.ref_to(st, node)]
    leaves = ip.run_body(body, args, st, env)
    return ip, leaves


def node_kind(leaf, node):
    """'Binary', ... or ('other', excluded)"""
    v = leaf.st.v.get(node)
    if v is not None:
        return v
    return ("other", leaf.st.nv.get(node, frozenset()))
