from rules.libcommon import *

RULE = ("transfer analysis of the selection loop: every abstract iteration (work list and result unknown on entry) is classified by the facts that hold on its path - name excluded, unknown, already "
        "selected, newly selected - and its effect on the two lists is compared with the closure step (push exactly the found entry, schedule exactly its dependencies); the loop may only be left with "
        "an empty work list, the returned list must be ordered by registry address; the driver's token stream term is compared with 'for every selected entry its generator at the width's term count, "
        "then every test'")


def sub(t, pred):
    """first subterm satisfying pred"""
    if isinstance(t, tuple):
        for x in t:
            r = sub(x, pred)
            if r is not None:
                return r
        return None
    if not isinstance(t, T):
        return None
    if pred(t):
        return t
    return sub(t.a, pred)


def has(t, x):
    return sub(t, lambda y: y == x) is not None


def LOOSE(t):
    """a comparison of texts weaker than equality"""
    return sub(t, lambda y: y.op == "call" and isinstance(y.a[0], str) and re.search(r"(^|::)(starts_with|ends_with|eq_ignore_ascii_case|contains|find|strip_prefix|strip_suffix)$", y.a[0]) is not None
               or y.op in ("starts_with", "ends_with", "strcontains"))


def POP(v):
    return T("call", "pop", (v,))


def cut(t, coll):
    """a slice of the collection"""
    return sub(t, lambda y: (y.op in ("skip", "take", "step_by", "slice") or (y.op == "call" and re.search(r"::(skip|take|step_by)$|Index.*Range", str(y.a[0])))) and has(y, coll))


def plainf(fs):
    """facts that say nothing about membership: lengths, comparisons with constants, the request itself"""
    for f in fs:
        if f[0] != "b":
            return False
        if sub(f[1], lambda t: t.op in ("loopvar", "popped") ) is None or sub(f[1], lambda t: t.op == "len") is not None:
            if sub(f[1], lambda t: t.op in ("call", "anyof", "allof", "fold", "uninit")) is None:
                continue
        if f[1].op == "eq" and any(isT(x, "str") for x in f[1].a):
            continue
        if f[1].op == "contains" and f[1].a[0] == T("sym", "names"):
            continue
        return False
    return True


def items(v):
    """(base, pushed) of a list value that grew by pushes"""
    if v.op in ("seq", "arr"):
        its = v.a[0]
        if its and its[0].op == "spread":
            return its[0].a[0], its[1:]
        return None, its
    return v, ()


def run(r):
    p = prog()
    r.assume("the registry is one static slice, so the address order of its entries is their order in it")
    fs = [f for f in p.bin.bodies if f.endswith("::get_functions_and_deps")]
    if not fs:
        r.undecided("selection", "no function get_functions_and_deps", FN)
    else:
        try:
            selection(r, p, fs[0])
        except Undecided as x:
            r.undecided("selection", str(x)[:300], FN)
    try:
        driver(r, p)
    except (NoGen, Undecided) as x:
        r.undecided("driver", str(x)[:300], "libmgen/src/main.rs")


def selection(r, p, fn):
    ip = p.interp()
    ip.backs = []
    F = [x for x in p.bin.bodies if x.endswith("::FUNCTIONS")]
    if not F:
        raise Undecided("no static FUNCTIONS")
    reg, names, excl = T("sym", "FUNCTIONS"), T("sym", "names"), T("sym", "exclude")
    ip.static_memo[F[0]] = (reg, {})
    st = St()
    b = p.bodies[fn]
    w = "%s:%s %s" % (b["file"], b["line"], fn)
    if b["argc"] != 2:
        return r.undecided("selection", "takes %d arguments" % b["argc"], w)
    leaves = ip.run_body(b, [ip.ref_to(st, names), ip.ref_to(st, excl)], st)
    # the work list: a local that lost its popped element; its loop header
    cand = {}
    for fr, bb, s in ip.backs:
        for c, v in s.cells.items():
            if c[0] != fr.id or not isinstance(v, T):
                continue
            base, _ = items(v)
            if base is not None and base.op == "popped" and base.a[0].op == "loopvar" and base.a[0].a[1:] == (bb, c[1]):
                cand.setdefault((fr.id, bb, c[1]), []).append(s)
    if len(cand) != 1:
        return r.undecided("selection", "no single work list recognised (%d candidates)" % len(cand), w)
    (fid, bb, wl), _ = next(iter(cand.items()))
    states = [s for fr, h, s in ip.backs if fr.id == fid and h == bb]
    path = next(s.cells[(fid, wl)] for s in states)
    # the result list
    ret = set()
    for l in leaves:
        if l.kind == "return":
            v = l.val
            x = sub(v, lambda t: t.op == "loopvar" and t.a[1] == bb)
            if x is not None:
                ret.add(x)
    if len(ret) != 1:
        return r.undecided("selection", "no single result list recognised", w)
    lvr = ret.pop()
    rl = lvr.a[2]
    n = 0
    kinds = {}
    for s in states:
        n += 1
        wv, rv = s.cells.get((fid, wl)), s.cells.get((fid, rl))
        base, grew_w = items(wv)
        lvw = T("loopvar", lvr.a[0], bb, wl)
        if base != T("popped", lvw):
            r.undecided("step/%d" % n, "an iteration leaves the work list as %s" % show(wv)[:200], w)
            continue
        nm = project(POP(lvw), ("f", "Some", "0"))
        facts = [f for f in s.order if has(f, lvw) or has(f, lvr)]
        rbase, grew_r = items(rv) if rv is not None else (None, ())
        if rbase != lvr:
            r.undecided("step/%d" % n, "an iteration leaves the result as %s" % show(rv)[:200], w)
            continue
        grew_r = [ip.resolve(s, x) for x in grew_r]
        grew_w = [ip.resolve(s, x) for x in grew_w]
        el = T("elem", reg, 0)
        el = sub(tuple(facts) + tuple(grew_r), lambda t: t.op == "elem" and t.a[0] == reg) or el
        elname = project(el, ("f", None, "name"))
        if sub(tuple(grew_r) + tuple(grew_w), lambda t: t.op in ("uninit", "bottom", "cyc")) is not None:
            r.undecided("step/%d" % n, "the analysis lost the pushed value", w)
            continue
        ex = found = present = None
        other = []
        for f in facts:
            if f[0] == "is" and f[1] == POP(lvw):
                continue
            if f[0] == "b" and has(f[1], nm):
                t = f[1]
                if t == T("contains", excl, nm) or (t.op == "anyof" and t.a[0] == excl and has(t, nm)):
                    q = LOOSE(t)
                    if q is not None:
                        r.bad("excluded/match", "an excluded name is recognised by %s, not by equality: names that were not excluded are affected" % show(q)[:150], w)
                        ex = f[2]
                        continue
                    if t.op == "contains" or sub(t, lambda y: y.op == "eq" and has(y, nm)) is not None:
                        ex = f[2]
                        continue
                if t.op == "eq" and set(t.a) == {elname, nm}:
                    found = f[2]
                    continue
                if t.op == "anyof" and t.a[0] == lvr and sub(t, lambda y: y.op == "eq" and (has(y, nm) or has(y, elname))) is not None:
                    present = f[2]
                    continue
                if t.op == "contains" and t.a[0] == lvr:
                    present = f[2]
                    continue
            if f[0] == "b" and f[1].op == "eq" and has(f[1], T("len", lvw)) and not has(f[1], nm):
                continue
            if f[0] == "b" and f[1].op == "contains" and f[1].a[0] == lvr and f[1].a[1] == el:
                present = f[2]
                continue
            if f[0] == "forall-not" and f[1] == reg:
                if sub(f, lambda y: y.op == "eq" and has(y, nm)) is not None:
                    found = False
                    continue
            other.append(f)
        said = any(x[0] == "stderr" and has(x[1:], nm) for x in s.log)
        out = [x for x in s.log if x[0] == "stdout"]
        d = "excluded=%s found=%s present=%s" % (ex, found, present)
        if out:
            r.bad("stdout", "the selection prints to the standard output, where the generated code goes (%s)" % d, w)
        if ex is True:
            k = "excluded"
            r.check(k, not grew_r and not grew_w, "an excluded name still %s" % ("is selected" if grew_r else "pulls in its dependencies"), w, d)
        elif found is False:
            k = "unknown"
            if grew_r or grew_w:
                r.bad(k, "a name that no registry entry has changes the selection", w)
            else:
                r.check("unknown/message", said, "an unknown name is dropped without a message naming it", w, d)
        elif present is True:
            k = "present"
            if grew_r:
                r.bad(k, "an entry already selected is selected again: its definition is emitted twice", w)
            else:
                r.ok(k, d, w)
        elif grew_r:
            k = "new"
            bad = [f for f in other if has(f, nm)]
            if found is not True:
                q = sub(tuple(bad), lambda y: y.op == "call" or any(m in str(y.op) for m in ("starts_with", "ends_with", "contains")))
                if q is not None and re.search(r"starts_with|ends_with|contains|eq_ignore_ascii_case", str(q.op) + str(q.a[0])):
                    r.bad("match", "the entry selected for a name is found by %s, not by equality of the names" % show(q)[:200], w)
                else:
                    r.undecided("new", "how the selected entry was found is not recognised: %s" % d, w)
                continue
            if ex is None:
                if not plainf(other):
                    r.undecided("excluded", "whether the exclusion list was consulted is not recognised", w)
                else:
                    r.bad("excluded", "a name is selected without looking at the exclusion list", w)
            if present is None:
                if not plainf(other) or any(l.kind == "return" and re.search("dedup|Set|Map", show(l.val)) for l in leaves):
                    r.undecided("present", "whether the entry was already selected is not recognised", w)
                else:
                    r.bad("present", "an entry is selected without looking whether it already was: its definition is emitted twice (or the loop never ends)", w)
            r.check("new/entry", list(grew_r) == [el], "the result grows by %s instead of the entry found for the name" % show(T("seq", tuple(grew_r)))[:200], w, d)
            deps = project(el, ("f", None, "deps"))
            if len(grew_w) == 1 and grew_w[0].op == "each" and grew_w[0].a[0] == deps:
                body = grew_w[0].a[2]
                e = sub(body, lambda y: y.op == "elem" and y.a[0] == deps)
                r.check("new/deps", e is not None, "the dependencies scheduled are not the entry's", w, d)
            elif len(grew_w) == 1 and grew_w[0].op == "spread" and grew_w[0].a[0] == deps:
                r.ok("new/deps", d, w)
            elif not grew_w:
                r.bad("new/deps", "the dependencies of a newly selected entry are not scheduled", w)
            else:
                q = cut(tuple(grew_w), deps)
                if q:
                    r.bad("new/deps", "only a part of the dependencies is scheduled: " + show(T("seq", tuple(grew_w)))[:200], w)
                    continue
                r.undecided("new/deps", "the dependencies scheduled are %s" % show(T("seq", tuple(grew_w)))[:200], w)
        elif found is True and present is False and not other:
            k = "new"
            r.bad("new/entry", "an entry that was found and is not selected yet is not added to the selection", w)
        elif found is True and present is None and ex is False and plainf(other):
            k = "new"
            r.bad("new/entry", "an entry that was found is not added to the selection", w)
        else:
            k = "other"
            r.undecided("step/%d" % n, "an iteration is not recognised: " + d, w)
        kinds[k] = kinds.get(k, 0) + 1
    r.saw("loop iterations classified", n)
    for k in ("excluded", "unknown", "present", "new"):
        if not kinds.get(k):
            r.undecided("case/" + k, "no iteration of this kind recognised", w)
    # the first work list
    init = set()
    for s in states:
        for f in s.order:
            x = sub(f, lambda t: t.op == "call" and t.a[0] == "pop" and t.a[1][0].op not in ("loopvar", "popped"))
            if x is not None:
                init.add(x.a[1][0])
    for x in init:
        if x == names:
            r.ok("initial", "the work list starts as the requested names", w)
        elif x == excl:
            r.bad("initial", "the work list starts as the excluded names", w)
        else:
            r.undecided("initial", "the work list starts as " + show(x)[:200], w)
    # the ways out
    for l in leaves:
        if l.kind != "return":
            continue
        fs = [f for f in l.st.order if has(f, T("loopvar", lvr.a[0], bb, wl))]
        if has(l.val, lvr):
            lvw = T("loopvar", lvr.a[0], bb, wl)
            empty = any((f[0] == "b" and f[1].op == "eq" and set(f[1].a) == {INT(0, "usize"), T("len", lvw)} and f[2]) or (f[0] == "b" and f[1].op == "eq" and has(f[1], T("len", lvw)) and f[2]) or (f[0] == "is" and f[1] == POP(lvw) and f[2] == "None") for f in fs)
            more = any(f[0] == "is" and f[1] == POP(lvw) and f[2] == "Some" for f in fs)
            if empty:
                r.ok("exit", "the loop ends with an empty work list", w)
            elif more:
                r.bad("exit", "the loop can end while names are still waiting (after a popped name, on the path %s)" % [(f[0], show(f[1])[:80] if isinstance(f[1], T) else "", str(f[2])[:20]) for f in fs][-3:], w)
            else:
                r.undecided("exit", "how the loop ends is not recognised", w)
            order(r, p, ip, l, lvr, w)


def field(t, X):
    """name of the field of X that t projects, or None"""
    while isinstance(t, T) and t.op in ("ref", "deref") and t.a:
        t = t.a[0]
    if isinstance(t, T) and t.op == "proj" and t.a[0] == X:
        q = t.a[-1]
        return q if isinstance(q, str) else q[-1] if isinstance(q, tuple) and isinstance(q[-1], str) else None
    m = re.fullmatch(r"\$%s\.(\w+)" % X.a[0], show(t))
    return m.group(1) if m else None


def order(r, p, ip, l, lvr, w):
    v = l.val
    if v == lvr:
        return r.bad("order", "the selection is returned in the order of the request, not in registry order", w)
    if v.op == "after" and "sort" in str(v.a[0]) and v.a[1] == 0 and isinstance(v.a[2], tuple) and v.a[2][0] == lvr:
        c = v.a[2][1] if len(v.a[2]) > 1 else None
        if c is None or c.op != "closure" or c.a[0] not in p.bodies:
            return r.undecided("order", "sorted by an order that is not recognised: " + show(v)[:200], w)
        b = p.bodies[c.a[0]]
        A, B = T("sym", "A"), T("sym", "B")
        s = l.st.copy() if hasattr(l.st, "copy") else l.st
        args = [ip.ref_to(s, c)] + [ip.ref_to(s, ip.ref_to(s, x)) for x in (A, B)][: b["argc"] - 1]
        for lf in ip.run_body(b, args, s):
            if lf.kind != "return":
                r.undecided("order", "the sort closure can panic", w)
                continue
            t = ip.resolve(lf.st, lf.val)
            m = re.search(r"::(\w+)$", str(t.op))
            if "by_key" in str(v.a[0]) and t.op == "as" and t.a[0] == A:
                r.ok("order", "sorted by registry address", w)
            elif t.op == "call" and t.a[0].endswith("::cmp") and len(t.a[1]) == 2 and all(x.op in ("as", "cast") or (x.op == "call" and x.a[0] in ("as", "cast")) for x in t.a[1]):
                a, b_ = [x.a[0] if x.op != "call" else x.a[1][0] for x in t.a[1]]
                if (a, b_) == (A, B):
                    r.ok("order", "sorted by registry address", w)
                elif (a, b_) == (B, A):
                    r.bad("order", "the selection is returned in reverse registry order: definitions come before the ones they use", w)
                else:
                    r.undecided("order", show(t)[:200], w)
            elif t.op == "call" and t.a[0].endswith("::cmp") and len(t.a[1]) == 2 and field(t.a[1][0], A) and field(t.a[1][0], A) == field(t.a[1][1], B):
                fl = field(t.a[1][0], A)
                try:
                    ks = [list(e[fl]) if isinstance(e[fl], (list, tuple)) else e[fl] for e in Gen().entries]
                    inc = all(x < y for x, y in zip(ks, ks[1:]))
                except Exception:
                    inc = None
                if inc is None:
                    r.undecided("order", "sorted by " + fl, w)
                else:
                    r.check("order", inc, "the selection is sorted by %s, which does not follow the registry order: the output depends on the order of the request" % fl, w)
            elif "by_key" in str(v.a[0]) and (isT(t, "len") and field(t.a[0], A) or field(t, A)):
                fl = field(t.a[0] if t.op == "len" else t, A)
                try:
                    ks = [len(list(e[fl])) if t.op == "len" else list(e[fl]) if isinstance(e[fl], (list, tuple)) else e[fl] for e in Gen().entries]
                    inc = all(x < y for x, y in zip(ks, ks[1:]))
                except Exception:
                    inc = None
                if inc is None:
                    r.undecided("order", "sorted by " + fl, w)
                else:
                    r.check("order", inc, "the selection is sorted by %s%s, which does not follow the registry order: the output depends on the order of the request" % ("the number of " if t.op == "len" else "", fl), w)
            elif sub(t, lambda y: y.op == "proj" and y.a[-1] == "name") is not None or ".name" in show(t):
                r.bad("order", "the selection is sorted by name, not by position in the registry", w)
            else:
                r.undecided("order", "the sort key is not recognised: " + show(t)[:200], w)
        return
    r.undecided("order", "the order of the returned selection is not recognised: " + show(v)[:200], w)


# ------------------------------------------------------------------ the driver
def mainrun(p):
    """leaves of main with the option record, the selection, the generators and the back ends symbolic"""
    f = [x for x in p.bin.bodies if x.endswith("libmgen::main") or x == "main"]
    if not f:
        raise NoGen("no main")

    def hook(ip, st, info, args, ctx):
        n = str(info.rkey or info.key)
        last = n.split("::")[-1]
        if last == "get_functions_and_deps":
            return [Leaf(st, "return", T("selected", *[ip.resolve(st, ip.deref(st, a)) for a in args]))]
        if last in ("from_args", "parse") and ("StructOpt" in str(info) or "Opt" in str(info)):
            return [Leaf(st, "return", T("sym", "opt"))]
        if last in ("gen_test_function", "gen_test") and n in p.bin.bodies:
            return [Leaf(st, "return", T("call", n, tuple(ip.resolve(st, ip.deref(st, a)) for a in args)))]
        if n.startswith("doctor_syn::codegen") and not n.endswith("::default"):
            return [Leaf(st, "return", T("lib", n, tuple(ip.resolve(st, ip.deref(st, a)) for a in args)))]
        return None

    ip = p.interp(hooks=[hook])
    st = St()
    ls = list(ip.run_body(p.bodies[f[0]], [], st))
    for l in ls:
        # leaving with status 0 is the same as returning from main
        if l.kind == "panic" and isT(l.val, "exit") and isT(l.val.a[0], "int") and l.val.a[0].a[0] % 256 == 0:
            l.kind, l.val = "return", T("int", 0)
    return ip, ls


OPTV = T("sym", "opt")


def opt(n):
    return project(OPTV, ("f", None, n))


def bitsof(order):
    """the width the facts of a path decide; 0: neither of the two"""
    yes, no = None, set()
    for f in order:
        if f[0] == "b" and isT(f[1], "eq") and opt("num_bits") in f[1].a:
            o = next((x.a[0] for x in f[1].a if isT(x, "int")), None)
            if f[2]:
                yes = o
            else:
                no.add(o)
    if yes is not None:
        return yes if yes in (32, 64) else 0
    if {32, 64} <= no:
        return 0
    return 96 - next(iter(no & {32, 64})) if no & {32, 64} else None


def driver(r, p):
    w = "libmgen/src/main.rs"
    ip, ls = mainrun(p)
    reg = 0
    for l in ls:
        if l.kind != "return":
            continue
        facts = {(show(f[1]) if f[0] == "b" else "is " + show(f[1])): f[2] for f in l.st.order if f[0] in ("b", "is") and isinstance(f[1], T)}
        tests = facts.get("$opt.generate_tests")
        for x in l.st.log:
            if x[0] not in ("write_all",) and not (x[0] == "call" and str(x[1]).endswith("fs::write")):
                continue
            ts = sub(x[1:], lambda t: t.op == "ts" and sub(t.a, lambda y: y.op == "selected") is not None)
            if ts is None:
                r.undecided("emit", "the text written is not recognised: " + show(T("x", x[1:]))[:200], w)
                continue
            # innermost stream
            while True:
                y = sub(ts.a, lambda t: t.op == "ts" and t is not ts and sub(t.a, lambda z: z.op == "tsall" and z.a[0].op == "selected") is not None)
                if y is None:
                    break
                ts = y
            emitted(r, ip, ts, tests, w, facts, bitsof(l.st.order))
            reg += 1
    r.floor("driver outputs", reg, 1)


def emitted(r, ip, ts, tests, w, facts=(), pbits=None):
    if pbits == 0:
        return
    defs = lib = gens = None
    cfg = lambda t: sub(t, lambda y: y.op == "ctor" and y.a[0].endswith("::Config") and has(y, OPTV)) is not None
    for x in ts.a[0]:
        if x.op == "tsall" and x.a[0].op == "selected":
            sel, el, body = x.a[:3]
            r.saw("driver loops", 1)
            nm, ex = (sel.a + (None, None))[:2]
            for what, t, o, oo in (("requested", nm, "functions", "exclude"), ("excluded", ex, "exclude", "functions")):
                if t is None or not has(t, opt(o)):
                    if t is not None and has(t, opt(oo)):
                        r.bad("driver/names", "the %s names are taken from the option --%s" % (what, oo), w)
                    else:
                        r.undecided("driver/names", "where the %s names come from is not recognised" % what, w)
                elif sub(t, lambda y: y.op in ("char", "str") and y.a[0] == ",") is None:
                    r.undecided("driver/names", "how the %s names are split is not recognised: %s" % (what, show(t)[:200]), w)
                else:
                    r.ok("driver/names", "the %s names are the comma-separated option" % what, w)
            if sub(body, lambda y: y.op == "call" and y.a[0].endswith("::gen_test")) is not None:
                gens = (el, body)
            else:
                defs = (el, body)
        elif sub(x, lambda y: y.op == "call" and y.a[0].endswith("::gen_test_function")) is not None:
            lib = x
        elif x.op == "tsall" and cut(x.a[0], x.a[0]) is not None and sub(x.a[0], lambda y: y.op == "selected") is not None:
            r.bad("driver/all", "only a part of the selection is visited: " + show(x.a[0])[:80], w)
            if sub(x.a[2], lambda y: y.op == "call" and y.a[0].endswith("::gen_test")) is not None:
                gens = False
            else:
                defs = False
        else:
            r.undecided("driver/stream", "an unrecognised part of the output: " + show(x)[:200], w)
    if defs is False:
        pass
    elif defs is None:
        r.undecided("driver/defs", "no loop over the selected entries recognised", w)
    else:
        el, body = defs
        g = project(el, ("f", None, "gen"))
        nt = project(el, ("f", None, "num_terms"))
        cases = body.a[0] if body.op == "case" else (((), body),)
        for conds, val in cases:
            some, bits = None, pbits or None
            rest = []
            for c in conds:
                if c[0] == "is" and c[1] == g:
                    some = c[2] == "Some"
                elif c[0] == "b" and c[1].op == "eq" and has(c[1], opt("num_bits")) and sub(c[1], lambda y: y.op == "int" and y.a[0] in (32, 64)) is not None:
                    n = sub(c[1], lambda y: y.op == "int").a[0]
                    bits = n if c[2] else 96 - n
                else:
                    rest.append(c)
            ap = sub(val, lambda y: y.op == "call" and y.a[0] == "apply")
            if rest:
                r.undecided("driver/defs", "an entry's definition depends on %s" % show(T("x", tuple(rest)))[:200], w)
                continue
            if some is False:
                r.check("driver/group", ap is None, "an entry without generator is generated", w, "a group emits nothing itself")
                continue
            if ap is None:
                r.bad("driver/defs", "a selected entry with a generator is not generated (%s)" % (bits or "any width"), w)
                continue
            if ap.a[1][0] != project(g, ("f", "Some", "0")):
                r.undecided("driver/defs", "what is applied is not recognised: " + show(ap)[:200], w)
                continue
            if val.op == "ts" and len(val.a[0]) != 1:
                r.undecided("driver/defs", "an entry emits %d pieces" % len(val.a[0]), w)
                continue
            args = ap.a[1][1:]
            idx = args[0]
            if idx.op in ("index", "elem") and idx.a[0] == nt and isT(idx.a[1], "int") and bits:
                r.check("driver/terms/%d" % bits, idx.a[1].a[0] == (0 if bits == 32 else 1), "at %d bits the generators get the term count of the other width" % bits, w, "num_terms[%d]" % idx.a[1].a[0])
            elif idx.op in ("index", "elem") and idx.a[0] == nt and isT(idx.a[1], "int"):
                r.bad("driver/terms", "the term count does not depend on the width: num_terms[%d]" % idx.a[1].a[0], w)
            elif sub(idx, lambda y: y == nt) is None:
                r.bad("driver/terms", "the generators do not get the entry's term count but " + show(idx)[:200], w)
            else:
                r.undecided("driver/terms", "the term count is " + show(idx)[:200], w)
            r.check("driver/config", len(args) > 1 and cfg(args[1]), "the generators do not get the configuration of the command line", w)
    if tests is True:
        r.check("driver/testlib", lib is not None, "with --generate-tests the test support functions are not emitted", w)
        if gens is False:
            pass
        elif gens is None:
            r.bad("driver/tests", "with --generate-tests no test of a selected entry is emitted", w)
        else:
            el, body = gens
            sp = project(el, ("f", None, "test_specs"))
            t = sub(body, lambda y: y.op == "tsall" and y.a[0] == sp)
            c = sub(body, lambda y: y.op == "call" and y.a[0].endswith("::gen_test"))
            if t is None and cut(body, sp) is not None:
                r.bad("driver/tests", "only a part of an entry's test specifications become tests", w)
            elif t is None or sub(body, lambda y: y.op == "case") is not None:
                r.undecided("driver/tests", "which specifications become tests is not recognised: " + show(body)[:200], w)
            else:
                r.check("driver/tests", c.a[1][0] == t.a[1], "the test generated is not the one of the specification visited", w, "one test per specification of every selected entry")
    elif tests is False:
        r.check("driver/notests", lib is None and gens is None, "tests are emitted without --generate-tests", w, "no test code")
    elif not any("generate_tests" in k for k in facts):
        r.bad("driver/tests", "whether tests are emitted does not depend on --generate-tests (they are %s on a path that never looks at it)" % ("emitted" if gens or lib else "left out"), w)
    else:
        r.undecided("driver/tests", "whether tests were requested is not known on the path", w)
