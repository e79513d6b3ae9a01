from rules.travcommon import *

RULE = ("one-step transfer function of every expression visitor on every node kind it does not specialise: the node is rebuilt with its own operator/method/member over each "
        "child visited exactly once, a child's failure is the result, and nodes outside the supported subset are Err")

SPECIAL = {
    "Subst": {"Path"}, "Collect": set(), "UseNumberType": {"Lit"}, "Expand": {"Unary", "Binary"},
    "Paren": {"Unary", "Binary"}, "Eval": {"Paren", "MethodCall", "Binary", "Unary", "Path"},
}


def run(r):
    p = prog()
    vs = visitors(p)
    from sem import conv_hook, opaque_bd

    for vp in sorted(vs):
        who = vp.split("::")[-1]
        ip, sp = walk(r, vp, SPECIAL.get(who, set()) if who in SPECIAL else set(NODES), hooks=[opaque_bd, conv_hook])
        # a failing child is never swallowed, in the specialised kinds either
        for k, ls in sp.items():
            for lf in ls:
                if lf.kind != "return":
                    continue
                failed = [t for t, w in lf.st.v.items() if t.op == "visit" and w == "Err"]
                if failed and okval(lf.val) is not None:
                    r.bad("%s/%s/swallowed" % (who, k), "visiting %s fails but the node is accepted with %s" % (show(failed[0]), show(lf.val)), "impl Visitor for " + who)
                elif failed:
                    r.ok("%s/%s/propagated" % (who, k), show(lf.val)[:200], "impl Visitor for " + who)
    api(r, "expand", selfctor("Expand"))
    api(r, "paren", selfctor("Paren"))
    api(r, "collect_terms", selfctor("Collect"))
    api(r, "eval", selfctor("Eval", num_digits=SYM("p2")))
    api(r, "subst", selfctor("Subst", variables=SYM("p2")))
    api(r, "use_number_type", selfctor("UseNumberType", number_type=SYM("p2"), num_bits=SYM("p3")))
    r.floor("visitors", r.analysed.get("visitors", 0), 6)
    r.floor("paths", r.analysed.get("paths", 0), 60)
    r.assume("syn::Expr clone is the identity")
