import re
from rules.travcommon import *

RULE = ("one-step transfer function of Subst: a path node equal to a bound name becomes the first bound value (not revisited), an unbound path is kept, every other node is "
        "rebuilt over its transformed children; plus the Expression::subst wiring and VariableList append order")


PART = ("rev", "take", "skip", "stepby", "filter", "init", "tail", "slice", "subslice", "dedup")


def lossy(t):
    """elements are dropped or reordered"""
    for x in subterms(t):
        if x.op in PART or (x.op in ("after", "call") and re.search(r"::(retain|dedup|sort|drain|truncate|swap|rotate|remove|split_off|reverse|rev|take|skip|filter)\w*$", str(x.a[0]))):
            return True
        if x.op == "each" and x.a[2].op == "case" and any(isT(b, "seq") and not b.a[0] for c, b in x.a[2].a[0]):
            return True
    return False


def run(r):
    vp = "doctor_syn::transformation::subst::Subst"
    ip, sp = walk(r, vp, {"Path"})
    where = "doctor-syn/src/transformation/subst.rs Subst::visit_path / variablelist.rs VariableList::find"
    coll = FLD(FLD(SYM("p1"), None, "variables"), None, "inner")
    path = fld("Path", "path")
    found = kept = 0
    for lf in sp.get("Path", []):
        if lf.kind != "return":
            r.undecided("path/panic", factstr(lf.st), where)
            continue
        v = lf.val
        x = okval(v)
        if x is None:
            (r.undecided if opaque(v) else r.bad)("path/err", "a path node must never be rejected by substitution; got %s [%s]" % (show(v), factstr(lf.st)), where)
            continue
        if is_same(x, "Path"):
            # kept: no binding may match on this path
            eqs = [t for t, val in all_eqs(lf.st) if val and path in subterms(t)]
            if eqs:
                r.bad("path/kept", "a path equal to a bound name is kept instead of replaced [%s]" % factstr(lf.st), where)
            elif coll not in allterms(lf.st):
                r.bad("path/kept", "a path node is kept without looking it up in the variable list [%s]" % factstr(lf.st), where)
            else:
                kept += 1
                r.ok("path/kept", "unbound path kept", where)
            continue
        e = x.a[0] if x.op == "fld" and x.a[2] == "inner" else x
        if e.op == "fld" and e.a[2] == "1" and isT(e.a[0], "elem"):
            el = e.a[0]
            nm = FLD(FLD(el, None, "0"), None, "inner")
            eqok = any(val and t is EQ(path, nm) for t, val in all_eqs(lf.st)) or any(val and t is EQ(T("ctor", "doctor_syn::name::Name", "Name", (("inner", path),)), FLD(el, None, "0")) for t, val in all_eqs(lf.st))
            if el.a[0] is not coll:
                why = "every binding must be searched, from the first one on, in list order; searched collection: " + show(el.a[0])
                if lossy(el.a[0]):
                    r.bad("path/first", why, where)
                else:
                    r.undecided("path/first", why, where)
                found += 1
                continue
            found += 1
            r.check("path/bound", eqok, "a path is replaced by a binding whose name was not compared equal to it [%s]" % factstr(lf.st), where, show(x))
            continue
        ix = [y for y in subterms(x) if y.op == "index" and y.a[0] is coll]
        if ix:
            # a search by index
            found += 1
            why = "a search through the list by index yields " + show(x)
            hit = any(val and t in (EQ(path, FLD(FLD(ix[0], None, "0"), None, "inner")), EQ(T("ctor", "doctor_syn::name::Name", "Name", (("inner", path),)), FLD(ix[0], None, "0"))) for t, val in all_eqs(lf.st))
            if any(y.op == "len" for y in subterms(ix[0].a[1])) or not hit:
                r.bad("path/bound", why, where)
            else:
                r.undecided("path/bound", why, where)
            continue
        (r.undecided if opaque(x) or x.op in ("case", "fold") else r.bad)("path/bound", "a bound path must become its bound value itself; got %s [%s]" % (show(x), factstr(lf.st)), where)
        found += 1
    r.check("path/present", found > 0 and kept > 0, "no path replaces a bound name / keeps an unbound one", where)
    api(r, "subst", lambda t: True if selfctor("Subst", variables=SYM("p2"))(t) else False)
    # the list keeps insertion order and all entries
    p = prog()
    av = "doctor_syn::variablelist::VariableList::add_var"
    if r.anchor(av, av in p.bodies):
        ip2 = p.interp()
        for lf in ip2.run(av):
            if lf.kind != "return":
                continue
            cells = [ip2.resolve(lf.st, c) for c in lf.st.cells.values()]
            want = T("seq", (T("spread", FLD(SYM("p1"), None, "inner")), T("tuple", (SYM("p2"), SYM("p3")))))
            ok = any(want in subterms(c) for c in cells if isinstance(c, T))
            r.check("add_var", ok or any(opaque(c) for c in cells if isinstance(c, T)), "add_var must append (name, value) at the end of the list; final cells: " + "; ".join(show(c) for c in cells if isinstance(c, T))[:300], "doctor-syn/src/variablelist.rs")
    fv = [k for k in p.bodies if "VariableList as core::convert::From<alloc::vec::Vec<" in k]
    if r.anchor("From<Vec<(Name, Expression)>> for VariableList", fv):
        ip2 = p.interp()
        for lf in ip2.run(fv[0]):
            if lf.kind != "return":
                continue
            v = ip2.resolve(lf.st, lf.val)
            inner = FLD(v, None, "inner")
            e = inner.a[0][0] if isT(inner, "seq") and len(inner.a[0]) == 1 else None
            pair = T("seq", (T("tuple", tuple(FLD(e.a[1], None, n) for n in "01")),)) if isT(e, "each") else None
            if e is T("spread", SYM("p1")) or inner is SYM("p1") or (isT(e, "each") and e.a[0] is SYM("p1") and e.a[2] is pair):
                r.ok("from", "a list keeps the bindings it is made of", "doctor-syn/src/variablelist.rs")
            elif lossy(inner) or not any(x is SYM("p1") for x in subterms(inner)):
                r.bad("from", "a list made of bindings must hold all of them in order, but holds " + show(inner), "doctor-syn/src/variablelist.rs")
            else:
                r.undecided("from", show(inner), "doctor-syn/src/variablelist.rs")
    fd = "doctor_syn::variablelist::VariableList::find"
    if r.anchor(fd, fd in p.bodies):
        ip2 = p.interp()
        c2 = FLD(SYM("p1"), None, "inner")
        for lf in ip2.run(fd):
            if lf.kind != "return":
                continue
            v = ip2.resolve(lf.st, lf.val)
            els = [x for x in subterms(v) if x.op == "elem"]
            if isT(v, "ctor") and v.a[1] == "None":
                r.check("find/none", not [t for t, val in all_eqs(lf.st) if val], "a bound name is not found [%s]" % factstr(lf.st), "doctor-syn/src/variablelist.rs")
            elif els and els[0].a[0] is c2:
                soft(r, "find/value", v is T("ctor", v.a[0], "Some", (("0", FLD(els[0], None, "1")),)), v, "the value found is " + show(v), "doctor-syn/src/variablelist.rs", show(v))
            elif els and lossy(els[0].a[0]):
                r.bad("find/value", "the search covers " + show(els[0].a[0]), "doctor-syn/src/variablelist.rs")
            else:
                r.undecided("find/value", show(v), "doctor-syn/src/variablelist.rs")
    r.floor("Path paths", len(sp.get("Path", [])), 2)
    r.assume("syn::Path equality is structural equality")


def all_eqs(st):
    return [(t, v) for t, v in facts_true(st) if t.op == "eq"]


def allterms(st):
    s = set()
    for f in st.order:
        for x in f[1:]:
            if isinstance(x, T):
                s |= subterms(x)
    for e in st.log:
        s |= subterms(tuple(x for x in e if isinstance(x, (T, tuple))))
    return s
