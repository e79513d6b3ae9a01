from vis import *
from sem import *

EVAL = "doctor_syn::transformation::eval::Eval"
NODE = SYM("p2")
ND = FLD(SYM("p1"), None, "num_digits")


def eval_leaves(r):
    p = prog()
    ip, ls = transfer(p, EVAL, hooks=[opaque_bd, conv_hook])
    if not r.anchor("impl Visitor for Eval", ls is not None):
        return None, []
    return ip, ls


def child(node, var, name):
    return FLD(FLD(node, var, "0"), None, name)


def vres(c):
    return FLD(T("visit", c), "Ok", "0")


def is_child_err(lf, v, children):
    """Err value that is a child's error on a path where that child failed"""
    for c in children:
        t = T("visit", c)
        if lf.st.v.get(t) == "Err" and v is FLD(t, "Err", "0"):
            return True
    return False
