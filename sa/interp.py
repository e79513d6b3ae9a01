"""Abstract interpreter over built MIR.

Domain: value-flow terms (constants, constructors, field projections of inputs,
uninterpreted calls), trace-partitioned by discriminant/boolean facts.  Loops
over symbolic collections are summarised as one generic iteration ("each" /
"fold" terms), other loops are widened.  Nothing of the analysed program runs.
"""
import sys
from collections import OrderedDict

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "a", "h", "_s", "_fr", "_rf")
    pool = {}

    def __new__(cls, op, *a):
        k = (op, a)
        t = T.pool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.h = hash(k)
            t._s = None
            t._fr = None
            t._rf = None
            T.pool[k] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return show(self) < show(o)


UNIT = T("tuple", ())
TRUE = T("bool", True)
FALSE = T("bool", False)


def INT(v, ty="int"):
    return T("int", int(v))


def STR(s):
    return T("str", s)


def SYM(n):
    return T("sym", n)


def CTOR(adt, var, *fields):
    return T("ctor", adt, var, tuple(fields))


OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
NONE = CTOR(OPT, "None")


def SOME(x):
    return CTOR(OPT, "Some", ("0", x))


def OK(x):
    return CTOR(RES, "Ok", ("0", x))


def ERR(x):
    return CTOR(RES, "Err", ("0", x))


def FLD(v, var, name):
    return project(v, ("f", var, name))


def isT(x, op):
    return isinstance(x, T) and x.op == op


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    o = t.op
    a = t.a
    if o in ("int", "bool"):
        s = str(a[0])
    elif o == "str":
        s = repr(a[0])
    elif o == "sym":
        s = "$" + str(a[0])
    elif o == "tuple":
        s = "(" + ", ".join(map(show, a[0])) + ")"
    elif o == "ctor":
        s = a[0].split("::")[-1] + "::" + a[1] + ("{" + ", ".join("%s: %s" % (n, show(v)) for n, v in a[2]) + "}" if a[2] else "")
    elif o == "fld":
        s = show(a[0]) + "." + (a[1] + "." if a[1] else "") + a[2]
    elif o == "call":
        s = shortname(a[0]) + "(" + ", ".join(map(show, a[1])) + ")"
    elif o == "seq":
        s = "[" + ", ".join(map(show, a[0])) + "]"
    elif o == "spread":
        s = ".." + show(a[0])
    elif o == "each":
        s = "each(%s: %s)" % (show(a[0]), show(a[2]))
    elif o == "ts":
        s = "`" + " ".join(map(show, a[0])) + "`"
    elif o in ("id", "pu", "li"):
        s = a[0]
    elif o == "gr":
        s = {"Parenthesis": "( %s )", "Brace": "{ %s }", "Bracket": "[ %s ]", "None": "«%s»"}[a[0]] % " ".join(map(show, a[1].a[0]))
    elif o == "interp":
        s = "#" + show(a[0])
    elif o == "cat":
        s = "cat(" + ", ".join(map(show, a[0])) + ")"
    else:
        s = o + "(" + ", ".join(show(x) for x in a) + ")"
    t._s = s
    return s


def shortname(p):
    if p.startswith("<"):
        return p
    return "::".join(p.split("::")[-2:])


def subterms(t, seen=None):
    """All T's inside t (each once)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


NOREFS = frozenset()


def refsin(t):
    """cells that references inside t point to"""
    if t._rf is None:
        work = [t]
        while work:
            x = work[-1]
            if x._rf is not None:
                work.pop()
                continue
            kids, todo = [], list(x.a)
            while todo:
                y = todo.pop()
                if isinstance(y, T):
                    kids.append(y)
                elif isinstance(y, tuple):
                    todo.extend(y)
            new = [y for y in kids if y._rf is None]
            if new:
                work.extend(new)
                continue
            s = NOREFS
            for y in kids:
                if y._rf:
                    s = s | y._rf
            if x.op == "ref":
                s = s | {x.a[0]}
            x._rf = s
            work.pop()
    return t._rf


def replace(t, m, memo=None):
    """Structural replacement of subterms by the dict m."""
    if memo is None:
        memo = {}
    if isinstance(t, T):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            na = tuple(replace(x, m, memo) for x in t.a)
            r = t if na == t.a else rebuild(t.op, na)
            memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(replace(x, m, memo) for x in t)
    return t


def rebuild(op, a):
    if op == "fld":
        return project(a[0], ("f", a[1], a[2]))
    if op == "cat":
        return CAT(a[0])
    if op == "ts":
        return T("ts", splice(a[0]))
    if op == "index":
        return INDEX(*a)
    return T(op, *a)


def INDEX(coll, i):
    """the element of coll at i; the i-th element in a loop over the indices of coll is the loop's element"""
    if i.op == "idx" and i.a[0] is coll:
        return T("elem", coll, i.a[1])
    if i.op == "idx" and i.a[0].op == "zip" and coll in i.a[0].a:
        return T("fld", T("elem", i.a[0], i.a[1]), None, "0" if i.a[0].a[0] is coll else "1")
    if i.op == "op" and i.a[0] == "Sub" and i.a[2].op == "idx" and i.a[2].a[0].op in ("rev",) and i.a[2].a[0].a[0] is coll:
        x = i.a[1]
        if x is T("op", "Sub", T("len", coll), INT(1)):
            return T("elem", i.a[2].a[0], i.a[2].a[1])
    return T("index", coll, i)


def splice(tokens):
    out = []
    for t in tokens:
        if isT(t, "interp"):
            out.extend(totokens(t.a[0]))
        else:
            out.append(t)
    return tuple(out)


def CAT(pieces):
    out = []
    for p in pieces:
        if isT(p, "cat"):
            sub = p.a[0]
        else:
            sub = (p,)
        for q in sub:
            if isT(q, "str") and out and isT(out[-1], "str"):
                out[-1] = STR(out[-1].a[0] + q.a[0])
            elif isT(q, "str") and q.a[0] == "":
                pass
            else:
                out.append(q)
    if not out:
        return STR("")
    if len(out) == 1 and isT(out[0], "str"):
        return out[0]
    return T("cat", tuple(out))


def project(v, e):
    """Project a value by a path element."""
    k = e[0]
    if v.op == "case":
        return CASE(tuple((c, project(x, e)) for c, x in v.a[0]))
    if k == "f":
        _, var, name = e
        if v.op == "ctor":
            if var is not None and v.a[1] != var:
                return T("bottom")
            for n, x in v.a[2]:
                if n == name:
                    return x
            return T("fld", v, var, name)
        if v.op == "tuple":
            i = int(name)
            if i < len(v.a[0]):
                return v.a[0][i]
        if v.op == "closure":
            return v.a[1][int(name)]
        if v.op == "fold" and isT(v.a[2], "tuple"):
            pass
        return T("fld", v, var, name)
    if k == "i":
        i = e[1]
        if isT(i, "pos") and (v is i.a[1] or (v.op == "seq" and v.a[0] == (T("spread", i.a[1]),))):
            return i.a[0]
        if v.op == "seq" and isT(i, "int") and all(not isT(x, "spread") and not isT(x, "each") for x in v.a[0][: i.a[0] + 1]):
            if i.a[0] < len(v.a[0]):
                return v.a[0][i.a[0]]
            return T("bottom")
        if v.op == "seq" and len(v.a[0]) == 1:
            x = v.a[0][0]
            if x.op == "spread":
                return INDEX(x.a[0], i)
            if x.op == "each" and isT(x.a[2], "seq") and len(x.a[2].a[0]) == 1 and x.a[2].a[0][0].op not in ("each", "spread"):
                return replace(x.a[2].a[0][0], {x.a[1]: INDEX(x.a[0], i), T("idx", x.a[0], x.a[1].a[1] if x.a[1].op == "elem" else 0): i})
        if v.op == "bytes" and isT(i, "int") and i.a[0] < len(v.a[0]):
            return INT(v.a[0][i.a[0]])
        return INDEX(v, i)
    if k == "ie":
        n = e[1]
        if v.op == "seq":
            its = v.a[0]
            if all(not isT(x, "spread") and not isT(x, "each") for x in its[-n:]) and n <= len(its):
                return its[-n]
        return T("index", v, T("op", "Sub", T("len", v), INT(n)))
    if k == "ss":
        _, fr, to, fe = e
        if v.op == "seq" and all(not isT(x, "spread") and not isT(x, "each") for x in v.a[0]):
            its = v.a[0]
            return T("seq", its[fr : len(its) - to] if fe else its[fr:to])
        return T("subslice", v, fr, to, fe)
    return T("proj", v, e)


def CASE(alts):
    vals = set(v for _, v in alts)
    if len(vals) == 1:
        return alts[0][1]
    return T("case", tuple(alts))


class St:
    """A trace: memory, facts, effect log."""

    __slots__ = ("cells", "v", "nv", "b", "order", "log", "visits", "forks", "folds")

    def __init__(self):
        self.cells = {}
        self.v = {}
        self.nv = {}
        self.b = {}
        self.order = ()
        self.log = ()
        self.visits = {}
        self.forks = 0
        self.folds = {}  # loop accumulator -> (collection, element, value before, value after one iteration)

    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.v = dict(self.v)
        s.nv = dict(self.nv)
        s.b = dict(self.b)
        s.order = self.order
        s.log = self.log
        s.visits = dict(self.visits)
        s.forks = self.forks
        s.folds = self.folds
        return s

    def event(self, *e):
        self.log = self.log + (e,)

    # facts
    def assume_variant(self, t, adt, var):
        s = self.copy()
        s.v[t] = var
        s.order = s.order + (("is", t, var),)
        s.forks += 1
        return s

    def assume_not(self, t, adt, vars_):
        s = self.copy()
        s.nv[t] = s.nv.get(t, frozenset()) | frozenset(vars_)
        s.order = s.order + (("isnot", t, tuple(sorted(vars_))),)
        s.forks += 1
        return s

    def assume_bool(self, t, val):
        s = self.copy()
        t, val = normbool(t, val)
        s.b[t] = val
        s.order = s.order + (("b", t, val),)
        s.forks += 1
        # conjunction facts
        if t.op == "and" and val:
            for x in t.a:
                x2, v2 = normbool(x, True)
                s.b[x2] = v2
        return s


def normbool(t, val):
    while True:
        if t.op == "not":
            t = t.a[0]
            val = not val
        elif t.op == "ne":
            t = T("eq", *t.a)
            val = not val
        elif t.op == "le":
            t = T("lt", t.a[1], t.a[0])
            val = not val
        else:
            return t, val


def EQ(a, b):
    if a is b:
        return TRUE
    ca, cb = isconst(a), isconst(b)
    if ca and cb:
        return FALSE
    if show(b) < show(a):
        a, b = b, a
    return T("eq", a, b)


def isconst(t):
    if t.op in ("int", "str", "bool", "char", "float", "bytes"):
        return True
    if t.op == "tuple" or t.op == "seq":
        return all(isconst(x) for x in t.a[0])
    if t.op == "ctor":
        return all(isconst(x) for _, x in t.a[2])
    return False


def NOT(t):
    if t.op == "bool":
        return T("bool", not t.a[0])
    if t.op == "not":
        return t.a[0]
    return T("not", t)


class Undecided(Exception):
    pass


class Frame:
    n = 0
    __slots__ = ("id", "body", "crate", "env", "depth", "loops", "parent")

    def __init__(self, body, env, depth, parent):
        Frame.n += 1
        self.id = Frame.n
        self.body = body
        self.crate = body["crate"]
        self.env = env
        self.depth = depth
        self.parent = parent
        self.loops = loops_of(body)


class Leaf:
    __slots__ = ("st", "kind", "val", "where")

    def __init__(self, st, kind, val, where=None):
        self.st = st
        self.kind = kind
        self.val = val
        self.where = where

    def __repr__(self):
        return "<%s %s | %s>" % (self.kind, self.val, factstr(self.st))


def factstr(st):
    o = []
    for f in st.order:
        if f[0] == "is":
            o.append("%s is %s" % (f[1], f[2]))
        elif f[0] == "isnot":
            o.append("%s not in %s" % (f[1], "/".join(f[2])))
        else:
            o.append(("" if f[2] else "!") + str(f[1]))
    return " & ".join(o)


# ------------------------------------------------------------------ CFG
def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


def loops_of(body):
    if "_loops" in body:
        return body["_loops"]
    n = len(body["blocks"])
    succ = [succs(b["t"]) for b in body["blocks"]]
    order, seen = [], set()
    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for u in rpo:
        for v in succ[u]:
            pred[v].append(u)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]

    loops = {}
    for u in rpo:
        for v in succ[u]:
            if dom(v, u):
                blk = loops.setdefault(v, {v})
                work = [u]
                while work:
                    x = work.pop()
                    if x not in blk:
                        blk.add(x)
                        work.extend(pred[x])
    body["_loops"] = loops
    body["_pred"] = pred
    body["_idom"] = idom
    return loops


def strip_generics(p):
    """core::option::Option::<T>::map -> core::option::Option::map (outside <.. as ..>)."""
    out = []
    i = 0
    d = 0
    while i < len(p):
        if p.startswith("::<", i) and d == 0 and not p.startswith("::<impl", i):
            j = i + 3
            k = 1
            while k:
                if p[j] == "<":
                    k += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    k -= 1
                j += 1
            i = j
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, crates, hooks=None, max_depth=40, want_panics=False, max_leaves=20000):
        self.backs = None  # when a list: (frame, header block, state) of every widened loop iteration
        self.crates = crates
        self.bodies = {}
        self.adts = {}
        self.impl_tab = {}
        for c in crates:
            self.bodies.update(c.bodies)
            self.adts.update(c.adts)
            for im in c.impls:
                self.impl_tab.setdefault(im["trait"], []).append((c, im))
        self.hooks = hooks or []
        self.max_depth = max_depth
        self.want_panics = want_panics
        self.max_leaves = max_leaves
        self.stack = []
        self.cellno = 0
        self.tymemo = {}
        self.static_memo = {}
        self.opaque_calls = {}
        self.inlined = set()
        self.steps = 0
        self.max_steps = 3_000_000
        import models

        self.models = models.MODELS

    # ---- types
    def ty(self, crate, tid, env=()):
        if not isinstance(tid, int):
            return ("const", str(tid.get("c")))
        key = (id(crate), tid, env)
        r = self.tymemo.get(key)
        if r is not None:
            return r
        t = crate.types[tid]
        k = t["k"]
        if k == "adt":
            r = ("adt", t["path"], tuple(self.ty(crate, a, env) for a in t["args"]))
        elif k == "ref":
            r = ("ref", self.ty(crate, t["t"], env))
        elif k == "ptr":
            r = ("ptr", self.ty(crate, t["t"], env))
        elif k == "slice":
            r = ("slice", self.ty(crate, t["t"], env))
        elif k == "array":
            r = ("array", self.ty(crate, t["t"], env))
        elif k == "tuple":
            r = ("tuple", tuple(self.ty(crate, a, env) for a in t["args"]))
        elif k in ("int", "float"):
            r = (k, t["name"])
        elif k == "param":
            e = dict(env)
            r = e.get(t["idx"], ("param", t["name"]))
        elif k == "closure":
            r = ("closure", t["path"])
        elif k == "fndef":
            r = ("fndef", t["path"])
        elif k in ("alias", "other", "dyn", "fnptr"):
            r = (k, t["s"])
        else:
            r = (k,)
        self.tymemo[key] = r
        return r

    def new_cell(self, st, v):
        self.cellno += 1
        c = ("c", self.cellno)
        st.cells[c] = v
        return c

    def ref_to(self, st, v):
        return T("ref", self.new_cell(st, v), ())

    # ---- memory
    def read(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            return T("uninit")
        for e in path:
            v = project(v, e)
        return v

    def write(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        old = st.cells.get(cell, T("uninit"))
        st.cells[cell] = self.upd(old, path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            _, var, name = e
            if v.op == "ctor":
                fs = v.a[2]
                if any(n == name for n, _ in fs):
                    return T("ctor", v.a[0], v.a[1], tuple((n, self.upd(x, path[1:], val) if n == name else x) for n, x in fs))
                return T("ctor", v.a[0], v.a[1], fs + ((name, self.upd(T("uninit"), path[1:], val)),))
            if v.op == "tuple":
                i = int(name)
                its = list(v.a[0])
                while len(its) <= i:
                    its.append(T("uninit"))
                its[i] = self.upd(its[i], path[1:], val)
                return T("tuple", tuple(its))
            if v.op == "closure":
                i = int(name)
                its = list(v.a[1])
                its[i] = self.upd(its[i], path[1:], val)
                return T("closure", v.a[0], tuple(its), *v.a[2:])
            if v.op == "upd":
                prev = dict(v.a[1])
                base = v.a[0]
            else:
                prev = {}
                base = v
            cur = prev.get((var, name), project(base, e))
            prev[(var, name)] = self.upd(cur, path[1:], val)
            return T("upd", base, tuple(sorted(prev.items(), key=lambda x: str(x[0]))))
        if e[0] == "i" and v.op == "seq" and isT(e[1], "int") and e[1].a[0] < len(v.a[0]):
            its = list(v.a[0])
            if all(not isT(x, "spread") and not isT(x, "each") for x in its[: e[1].a[0] + 1]):
                its[e[1].a[0]] = self.upd(its[e[1].a[0]], path[1:], val)
                return T("seq", tuple(its))
        if e[0] == "i":
            return T("store", v, e[1], self.upd(project(v, e), path[1:], val))
        return T("havoc", v, e, val)

    def deref(self, st, v):
        """The value behind a (possibly nested) reference."""
        while v.op == "ref":
            v = self.read(st, v.a[0], v.a[1])
        return v

    def resolve(self, st, t, memo=None, depth=0):
        """Replace references inside a value by their pointees."""
        if memo is None:
            memo = {}
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.resolve(st, x, memo, depth) for x in t)
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if depth > 200:
            return t
        if t.op == "ref":
            memo[t] = T("cyc")
            r = self.resolve(st, self.read(st, t.a[0], t.a[1]), memo, depth + 1)
        elif not has_ref(t):
            r = t
        else:
            na = tuple(self.resolve(st, x, memo, depth + 1) for x in t.a)
            r = t if na == t.a else rebuild(t.op, na)
        memo[t] = r
        return r

    # ---- places
    def place(self, fr, st, p):
        cell = (fr.id, p["l"])
        path = ()
        crate = fr.crate
        tid = fr.body["locals"][p["l"]]
        var = None
        for e in p["p"]:
            t = crate.types[tid] if isinstance(tid, int) else {"k": "other"}
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    v = self.read(st, cell, path)
                    if v.op == "ref":
                        cell, path = v.a[0], v.a[1]
                    elif v.op == "static":
                        cell, path = self.static_cell(st, v), ()
                    tid = t["t"]
                else:  # Box: transparent
                    if t["k"] == "adt" and t["args"]:
                        tid = t["args"][0]
                    elif t["k"] == "param":
                        tid = None
                var = None
            elif e == "?":
                raise Undecided("projection")
            elif e[0] == "v":
                ad = self.adts.get(t.get("path"))
                var = ad["variants"][e[1]]["name"] if ad else str(e[1])
            elif e[0] == "f":
                if t["k"] == "adt":
                    ad = self.adts[t["path"]]
                    if ad["kind"] == "enum":
                        vv = next(x for x in ad["variants"] if x["name"] == var)
                        path = path + (("f", var, vv["fields"][e[1]]),)
                    else:
                        path = path + (("f", None, ad["variants"][0]["fields"][e[1]]),)
                else:
                    path = path + (("f", None, str(e[1])),)
                tid = e[2]
                var = None
            elif e[0] == "i":
                i = self.read(st, (fr.id, e[1]), ())
                path = path + (("i", i),)
                tid = t.get("t")
            elif e[0] == "ci":
                path = path + ((("ie", e[1]) if e[2] else ("i", INT(e[1]))),)
                tid = t.get("t")
            elif e[0] == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
        return cell, path, tid

    def static_cell(self, st, v):
        c = ("static", v.a[0])
        if c not in st.cells:
            st.cells[c] = self.eval_static(st, v.a[0])
        return c

    def eval_static(self, st, path):
        if path not in self.static_memo:
            b = self.bodies.get(path)
            if b is None:
                self.static_memo[path] = (T("sym", path), {})
            else:
                s0 = St()
                ls = self.run_body(b, [], s0, ())
                assert len(ls) == 1, "static forks"
                cells = ls[0].st.cells
                self.static_memo[path] = (ls[0].val, cells)
        v, cells = self.static_memo[path]
        for k, x in cells.items():
            st.cells.setdefault(k, x)
        return v

    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"):
            c, p, _ = self.place(fr, st, o[1])
            return self.read(st, c, p)
        if o[0] == "const":
            return self.const(fr, st, o[1])
        return T("rtcheck")

    def const(self, fr, st, k):
        if "fn" in k:
            f = k["fn"]
            return T("fnitem", FnInfo.of(self, fr.crate, f, fr.env))
        if "str" in k:
            return STR(k["str"])
        if "bytes" in k:
            return T("bytes", tuple(k["bytes"]))
        if "static" in k:
            return T("static", k["static"])
        tt = fr.crate.types[k["ty"]]
        if "int" in k:
            if tt["k"] == "bool":
                return T("bool", k["int"] != "0")
            if tt["k"] == "char":
                return T("char", chr(int(k["int"])))
            return INT(int(k["int"]))
        if "fbits" in k:
            import struct

            b = int(k["fbits"])
            if tt["name"] == "f64":
                return T("float", struct.unpack("<d", struct.pack("<Q", b))[0], "f64")
            return T("float", struct.unpack("<f", struct.pack("<I", b))[0], "f32")
        if tt["k"] == "tuple" and not tt["args"]:
            return UNIT
        if "item" in k:
            it = k["item"]
            p = it.get("res", it)["path"]
            b = self.bodies.get(p)
            if k.get("promoted") is None and b is not None:
                env = FnInfo.of(self, fr.crate, it, fr.env).body_env(self, b)
                s2 = St()
                ls = self.run_body(b, [], s2, env)
                if len(ls) == 1 and ls[0].kind == "return":
                    for kk, x in ls[0].st.cells.items():
                        st.cells.setdefault(kk, x)
                    return ls[0].val
            return T("constitem", p)
        if k.get("zst") and tt["k"] == "adt":
            ad = self.adts[tt["path"]]
            if ad["kind"] == "struct":
                return CTOR(tt["path"], ad["variants"][0]["name"])
        return T("const", tt["s"])

    # ---- rvalues
    def rvalue(self, fr, st, rv):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            pp = rv[1]["p"]
            if pp and pp[-1] == "*" and not rv[2]:
                # shared reborrow of a value that is not tracked through a cell: the value itself
                c, p, _ = self.place(fr, st, {"l": rv[1]["l"], "p": pp[:-1]})
                v = self.read(st, c, p)
                if v.op not in ("ref", "static", "uninit"):
                    return v
            c, p, _ = self.place(fr, st, rv[1])
            return T("ref", c, p)
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(fr, st, o) for o in rv[2]]
            if kind == "tuple":
                return T("tuple", tuple(ops))
            if kind == "array":
                return T("seq", tuple(ops))
            if isinstance(kind, dict) and "adt" in kind:
                ad = self.adts[kind["adt"]]
                v = ad["variants"][kind["v"]]
                return T("ctor", kind["adt"], v["name"], tuple(zip(v["fields"], ops)))
            if isinstance(kind, dict) and "closure" in kind:
                return T("closure", kind["closure"], tuple(ops), fr.env)
            return T("agg", str(kind), tuple(ops))
        if k == "discr":
            c, p, tid = self.place(fr, st, rv[1])
            v = self.read(st, c, p)
            t = fr.crate.types[tid]
            return T("discr", v, t.get("path"))
        if k == "bin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            return self.binop(rv[1], a, b)
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                if a.op in ("int",):
                    return T("op", "Not", a)
                return NOT(a)
            if rv[1] == "PtrMetadata":
                return self.length(st, a)
            if rv[1] == "Neg":
                if a.op == "int":
                    return INT(-a.a[0])
                if a.op == "float":
                    return T("float", -a.a[0], a.a[1])
            return T("op", rv[1], a)
        if k == "cast":
            a = self.operand(fr, st, rv[2])
            ck = rv[1]
            tt = self.ty(fr.crate, rv[3], fr.env)
            if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Transmute", "Subtype", "FnPtrToPtr", "BoxDerefTransmute"):
                return a
            if ck == "IntToInt":
                if a.op == "int":
                    return INT(wrapint(a.a[0], tt[1] if tt[0] == "int" else None))
                if a.op in ("bool",):
                    return INT(int(a.a[0]))
                if a.op == "char":
                    return INT(ord(a.a[0]))
                return T("as", a, tt[-1] if tt[0] == "int" else str(tt))
            if ck == "IntToFloat" and a.op == "int":
                return T("float", float(a.a[0]), tt[1])
            if ck == "FloatToFloat" and a.op == "float":
                return T("float", f32(a.a[0]) if tt[1] == "f32" else a.a[0], tt[1])
            return T("as", a, str(tt[-1]))
        if k == "repeat":
            a = self.operand(fr, st, rv[1])
            return T("repeat", a, rv[2])
        return T("rv", str(rv[:2]))

    def length(self, st, a):
        v = self.deref(st, a)
        if v.op == "seq":
            n = 0
            sy = []
            for x in v.a[0]:
                if isT(x, "spread") or isT(x, "each"):
                    sy.append(x)
                else:
                    n += 1
            if not sy:
                return INT(n)
            if len(sy) == 1 and sy[0].op == "spread":
                base = T("len", sy[0].a[0])
            elif len(sy) == 1 and isT(sy[0].a[2], "seq") and len(sy[0].a[2].a[0]) == 1 and sy[0].a[2].a[0][0].op not in ("each", "spread"):
                base = T("len", sy[0].a[0])
            else:
                base = T("len", T("seq", tuple(sy)))
            return base if n == 0 else T("op", "Add", base, INT(n))
        if v.op == "str":
            return INT(len(v.a[0].encode()))
        if v.op == "bytes":
            return INT(len(v.a[0]))
        return T("len", self.resolve(st, v))

    def binop(self, op, a, b):
        if op.endswith("WithOverflow"):
            r = self.binop(op[: -len("WithOverflow")], a, b)
            return T("tuple", (r, T("ovf", r) if r.op != "int" else FALSE))
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        if a.op == "case" and b.op != "case":
            return CASE(tuple((c, self.binop(op, x, b)) for c, x in a.a[0]))
        num = a.op in ("int", "float", "char", "bool") and b.op == a.op
        if op == "Eq":
            return EQ(a, b)
        if op == "Ne":
            return NOT(EQ(a, b))
        if op in ("Lt", "Le", "Gt", "Ge"):
            if num:
                x, y = a.a[0], b.a[0]
                return T("bool", {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
            if a is b and a.op in ("len", "idx"):
                return T("bool", op in ("Le", "Ge"))
            if op == "Lt" and a.op == "idx" and b is T("len", a.a[0]) or op == "Gt" and b.op == "idx" and a is T("len", b.a[0]):
                return TRUE
            if op == "Ge" and a.op == "idx" and b is T("len", a.a[0]) or op == "Le" and b.op == "idx" and a is T("len", b.a[0]):
                return FALSE
            if op == "Lt":
                return T("lt", a, b)
            if op == "Gt":
                return T("lt", b, a)
            if op == "Le":
                return T("le", a, b)
            return T("le", b, a)
        if num and a.op == "int":
            x, y = a.a[0], b.a[0]
            if op == "Add":
                return INT(x + y)
            if op == "Sub":
                return INT(x - y)
            if op == "Mul":
                return INT(x * y)
            if op == "Div" and y:
                return INT(int(x / y) if abs(x) < 2**50 else x // y)
            if op == "Rem" and y:
                return INT(x - y * int(x / y))
            if op == "BitAnd":
                return INT(x & y)
            if op == "BitOr":
                return INT(x | y)
            if op == "BitXor":
                return INT(x ^ y)
            if op == "Shl":
                return INT(x << y)
            if op == "Shr":
                return INT(x >> y)
        if num and a.op == "float" and op in ("Add", "Sub", "Mul", "Div"):
            x, y = a.a[0], b.a[0]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[op]()
                if a.a[1] == "f32":
                    r = f32(r)
                return T("float", r, a.a[1])
            except ZeroDivisionError:
                pass
        if num and a.op == "bool":
            x, y = a.a[0], b.a[0]
            if op == "BitAnd":
                return T("bool", x and y)
            if op == "BitOr":
                return T("bool", x or y)
            if op == "BitXor":
                return T("bool", x != y)
        if op == "Add" and isT(b, "int") and b.a[0] == 0:
            return a
        if op == "Sub" and isT(b, "int") and b.a[0] == 0:
            return a
        # (x + c) - d
        if op in ("Add", "Sub") and isT(b, "int") and isT(a, "op") and a.a[0] in ("Add", "Sub") and isT(a.a[2], "int"):
            k = (a.a[2].a[0] if a.a[0] == "Add" else -a.a[2].a[0]) + (b.a[0] if op == "Add" else -b.a[0])
            if k == 0:
                return a.a[1]
            return T("op", "Add", a.a[1], INT(k)) if k > 0 else T("op", "Sub", a.a[1], INT(-k))
        if op == "Add" and isT(a, "int") and not isT(b, "int"):
            a, b = b, a
        return T("op", op, a, b)

    # ---- decisions
    def decide_bool(self, st, t):
        """[(state, bool)]"""
        t0, pol = normbool(t, True)
        if t0.op == "bool":
            return [(st, t0.a[0] == pol)]
        if t0.op == "case":
            out = []
            for conds, v in t0.a[0]:
                s2 = self.assume_all(st, conds)
                if s2 is None:
                    continue
                out.extend((s, x == pol) for s, x in self.decide_bool(s2, v))
            return out
        if t0.op == "and":
            out = []
            for s, x in self.decide_bool(st, t0.a[0]):
                if x:
                    out.extend((s2, y == pol) for s2, y in self.decide_bool(s, t0.a[1]))
                else:
                    out.append((s, not pol))
            return out
        if t0.op == "or":
            out = []
            for s, x in self.decide_bool(st, t0.a[0]):
                if not x:
                    out.extend((s2, y == pol) for s2, y in self.decide_bool(s, t0.a[1]))
                else:
                    out.append((s, pol))
            return out
        if t0.op == "isvar":
            out = []
            for s, x in self.decide_variant(st, t0.a[0], t0.a[1], [t0.a[2]]):
                out.append((s, (x == t0.a[2]) == pol))
            return out
        if t0.op == "eq":
            r = self.eq_known(st, t0)
            if r is not None:
                return [(st, r == pol)]
        if t0 in st.b:
            return [(st, st.b[t0] == pol)]
        s1 = st.assume_bool(t0, True)
        s2 = st.assume_bool(t0, False)
        return [(s1, pol), (s2, not pol)]

    def eq_known(self, st, t0):
        a, b = t0.a
        # known equal to another constant?
        for x, y in ((a, b), (b, a)):
            if isconst(y):
                for f, val in st.b.items():
                    if val and f.op == "eq" and x in f.a:
                        o = f.a[0] if f.a[1] is x else f.a[1]
                        if isconst(o):
                            return o is y
        return None

    def assume_all(self, st, conds):
        s = st
        for c in conds:
            if c[0] == "is":
                r = [x for x in self.decide_variant(s, c[1], None, [c[2]]) if x[1] == c[2]]
            elif c[0] == "isnot":
                kn = s.v.get(c[1])
                if c[1].op == "ctor":
                    kn = c[1].a[1]
                if kn is not None:
                    r = [(s, 0)] if kn not in c[2] else []
                else:
                    r = [(s.assume_not(c[1], None, c[2]), 0)]
            else:
                r = [x for x in self.decide_bool(s, c[1]) if x[1] == c[2]]
            if not r:
                return None
            s = r[0][0]
        return s

    def decide_variant(self, st, v, adt, wanted):
        """Split on the variant of v.  -> [(state, variantname|None for other)]"""
        if v.op == "ctor":
            return [(st, v.a[1])]
        if v.op == "case":
            out = []
            for conds, x in v.a[0]:
                s2 = self.assume_all(st, conds)
                if s2 is not None:
                    out.extend(self.decide_variant(s2, x, adt, wanted))
            return out
        if v.op == "bottom":
            return []
        if v in st.v:
            return [(st, st.v[v])]
        excl = st.nv.get(v, frozenset())
        allv = [x["name"] for x in self.adts[adt]["variants"]] if adt in self.adts else None
        if allv is not None and not excl and len(allv) == 1:
            return [(st, allv[0])]
        out = []
        rest = [w for w in wanted if w not in excl]
        left = [x for x in allv if x not in excl] if allv is not None else None
        if left is not None and len(left) == 1:
            return [(st, left[0])]
        for w in rest:
            if left is not None and w not in left:
                continue
            out.append((st.assume_variant(v, adt, w), w))
        if left is None:
            out.append((st.assume_not(v, adt, rest), None))
        else:
            other = [x for x in left if x not in rest]
            if len(other) == 1:
                out.append((st.assume_variant(v, adt, other[0]), other[0]))
            elif other:
                out.append((st.assume_not(v, adt, rest) if rest else st, None))
        return out

    # ---- running
    def run_body(self, body, args, st, env=(), depth=0, parent=None):
        """-> [Leaf]"""
        if depth > self.max_depth:
            raise Undecided("depth " + body["path"])
        fr = Frame(body, env, depth, parent)
        self.inlined.add(body["path"])
        for i, a in enumerate(args):
            st.cells[(fr.id, i + 1)] = a
        out = []
        self.explore(fr, [(0, st, None)], out, None)
        for l in out:
            if l.kind == "return":
                l.val = self.read(l.st, (fr.id, 0), ())
                # what is returned may point into references that are kept as the values they refer to
                kept = set(refsin(l.val)) if isinstance(l.val, T) else set()
                work = [k for k in kept if k[0] == fr.id]
                while work:
                    c = l.st.cells.get(work.pop())
                    if isinstance(c, T):
                        for k in refsin(c):
                            if k not in kept:
                                kept.add(k)
                                work.append(k)
            for k in [k for k in l.st.cells if k[0] == fr.id]:
                if l.kind == "return":
                    if k in kept and l.st.cells[k].op != "uninit":
                        continue
                    if body["kind"].startswith(("Const", "Static", "AssocConst")):
                        continue
                    if isinstance(k[1], int) and l.st.cells[k].op not in ("ref", "uninit") and fr.crate.types[body["locals"][k[1]]]["k"] == "ref":
                        # a reference kept as the value it refers to: what is returned may point into it
                        continue
                del l.st.cells[k]
            for k in [k for k in l.st.visits if k[0] == fr.id]:
                del l.st.visits[k]
        return out

    def explore(self, fr, work, out, region):
        """Run until function exit, or (if region) until a block outside the loop
        region / its header is reached.  region=(header, blocks, backs, exits)."""
        while work:
            if len(work) + len(out) > self.max_leaves:
                raise Undecided("too many paths in " + fr.body["path"])
            bb, st, fresh = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undecided("step budget")
                if region is not None and not fresh:
                    if bb == region[0]:
                        region[2].append(st)
                        break
                    if bb not in region[1]:
                        region[3].append((bb, st))
                        break
                if bb in fr.loops and not fresh:
                    r = self.count_loop(fr, bb, st, out)
                    if r is not None:
                        work.extend(r)
                        break
                    st = self.at_header(fr, bb, st)
                    if st is None:
                        break
                fresh = None
                blk = fr.body["blocks"][bb]
                for p, rv, line in blk["s"]:
                    if rv[0] == "setdiscr":
                        continue
                    v = self.rvalue(fr, st, rv)
                    c, path, _ = self.place(fr, st, p)
                    self.write(st, c, path, v)
                t = blk["t"]
                k = t[0]
                if k == "goto":
                    bb = t[1]
                elif k == "drop":
                    bb = t[2]
                elif k == "return":
                    out.append(Leaf(st, "return", None, (fr.body["path"], blk["l"])))
                    break
                elif k == "unreachable":
                    break
                elif k == "assert":
                    c = self.operand(fr, st, t[1])
                    if c.op == "bool":
                        if c.a[0] != t[2]:
                            out.append(Leaf(st, "panic", T("panic", t[3]), (fr.body["path"], blk["l"])))
                            break
                    elif self.want_panics and st.b.get(c) is not t[2]:
                        out.append(Leaf(st.assume_bool(c, not t[2]), "panic", T("panic", t[3]), (fr.body["path"], blk["l"])))
                        st = st.assume_bool(c, t[2])
                    bb = t[4]
                elif k == "switch":
                    nxt = self.switch(fr, st, t)
                    if not nxt:
                        break
                    for s, b in nxt[1:]:
                        work.append((b, s, None))
                    st, bb = nxt[0]
                elif k == "call":
                    r = self.do_call(fr, st, t, blk, bb, out, region)
                    if not r:
                        break
                    for s, b in r[1:]:
                        work.append((b, s, None))
                    st, bb = r[0]
                elif k == "resume":
                    break
                else:
                    raise Undecided("terminator %s in %s" % (k, fr.body["path"]))

    def at_header(self, fr, bb, st):
        key = (fr.id, bb)
        v = st.visits.get(key)
        if v is None:
            st.visits[key] = (1, st.forks, None)
            # leave nested loop counters fresh
            return st
        n, forks, wid = v
        if wid is None and st.forks == forks and n < 2000:
            st.visits[key] = (n + 1, forks, None)
            return st
        if wid is None:
            # first widening: compare with nothing known -> havoc every cell assigned in the loop
            cells = self.loop_cells(fr, bb, st)
            vals = {}
            for c in cells:
                nv = T("loopvar", fr.body["path"], bb, c[1] if c[0] == fr.id else str(c))
                st.cells[c] = nv
            self.drop_facts(st, fr, bb)
            st.visits[key] = (n + 1, st.forks, tuple((c, st.cells.get(c)) for c in cells))
            return st
        if self.backs is not None:
            self.backs.append((fr, bb, st))
        return None  # already widened: covered

    def drop_facts(self, st, fr, bb):
        def mine(t):
            return any(x.op == "loopvar" and x.a[0] == fr.body["path"] and x.a[1] == bb for x in subterms(t))

        st.b = {k: v for k, v in st.b.items() if not mine(k)}
        st.v = {k: v for k, v in st.v.items() if not mine(k)}
        st.nv = {k: v for k, v in st.nv.items() if not mine(k)}

    def loop_cells(self, fr, header, st):
        """Cells that may be written in the loop: direct assignments, &mut borrows."""
        blocks = fr.loops[header]
        cells = set()
        for b in blocks:
            blk = fr.body["blocks"][b]
            for p, rv, _ in blk["s"]:
                self._lc(fr, st, p, cells)
                if rv[0] == "ref" and rv[2]:
                    self._lc(fr, st, rv[1], cells)
            if blk["t"][0] == "call":
                self._lc(fr, st, blk["t"][3], cells)
                for a in blk["t"][2]:
                    if a[0] in ("copy", "move"):
                        tid = fr.body["locals"][a[1]["l"]]
                        tt = fr.crate.types[tid]
                        if tt["k"] == "ref" and tt["mut"] and not a[1]["p"]:
                            v = st.cells.get((fr.id, a[1]["l"]))
                            if v is not None and v.op == "ref":
                                cells.add(v.a[0])
        return sorted(cells, key=str)

    def _lc(self, fr, st, p, cells):
        try:
            c, path, _ = self.place(fr, st, p)
        except Undecided:
            return
        cells.add(c)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        if v.op == "case":
            out = []
            for conds, x in v.a[0]:
                s2 = self.assume_all(st, conds)
                if s2 is not None:
                    out.extend(self.switch_val(fr, s2, t, x))
            return out
        return self.switch_val(fr, st, t, v)

    def switch_val(self, fr, st, t, v):
        if v.op == "discr":
            adt = v.a[1]
            ad = self.adts.get(adt)
            d2n = {x["discr"]: x["name"] for x in ad["variants"]}
            tg = [(d2n.get(val, val), b) for val, b in t[2]]
            dead = fr.body["blocks"][t[3]]["t"][0] == "unreachable"
            out = []
            tgd = dict(tg)
            for s, name in self.decide_variant(st, v.a[0], adt, [n for n, _ in tg]):
                if name in tgd:
                    out.append((s, tgd[name]))
                elif not dead:
                    out.append((s, t[3]))
            return out
        if v.op == "bool":
            i = "1" if v.a[0] else "0"
            for val, b in t[2]:
                if val == i:
                    return [(st, b)]
            return [(st, t[3])]
        if v.op in ("int", "char"):
            i = v.a[0] if v.op == "int" else ord(v.a[0])
            for val, b in t[2]:
                if int(val) == i or int(val) == i % (1 << 128):
                    return [(st, b)]
            return [(st, t[3])]
        o = t[1]
        c = None
        if o[0] in ("copy", "move"):
            _, _, tid = self.place(fr, st, o[1])
            c = fr.crate.types[tid]["k"] if isinstance(tid, int) else None
        if c == "bool" or v.op in ("eq", "lt", "le", "not", "and", "or", "isvar", "ovf"):
            out = []
            zero = dict((val, b) for val, b in t[2]).get("0")
            for s, x in self.decide_bool(st, v):
                if x:
                    one = dict((val, b) for val, b in t[2]).get("1")
                    out.append((s, one if one is not None else t[3]))
                else:
                    out.append((s, zero if zero is not None else t[3]))
            return out
        # integer switch on unknown
        out = []
        s = st
        for val, b in t[2]:
            lit = T("char", chr(int(val))) if c == "char" else INT(int(val))
            e = EQ(v, lit)
            r = self.decide_bool(s, e)
            s = None
            for s2, x in r:
                if x:
                    out.append((s2, b))
                else:
                    s = s2
            if s is None:
                return out
        out.append((s, t[3]))
        return out

    # ---- calls
    def do_call(self, fr, st, t, blk, bb, out, region):
        _, fop, aops, dest, target, _ = t
        args = [self.operand(fr, st, a) for a in aops]
        f = self.operand(fr, st, fop)
        ctx = Ctx(self, fr, blk["l"], bb)
        if f.op == "fnitem" and f.a[0].key == "core::iter::traits::iterator::Iterator::next":
            r = self.iter_next(fr, st, args[0], bb, t, out, ctx)
            if r is not None:
                return r
        results = self.call_value(f, args, st, ctx)
        nxt = []
        for l in results:
            if l.kind == "return":
                if target < 0:
                    continue
                c, p, _ = self.place(fr, l.st, dest)
                self.write(l.st, c, p, l.val)
                nxt.append((l.st, target))
            else:
                if region is not None:
                    pass
                out.append(l)
        return nxt

    def call_value(self, f, args, st, ctx):
        """Call a function value with already-evaluated args -> [Leaf]."""
        f = self.deref(st, f)
        if f.op == "fnitem":
            return self.call_fn(f.a[0], args, st, ctx)
        if f.op == "closure":
            b = self.bodies[f.a[0]]
            tt = b["crate"].types[b["locals"][1]]
            envv = f
            if tt["k"] == "ref":
                envv = self.ref_to(st, f)
            return self.run_body(b, [envv] + list(args), st, f.a[2], ctx.fr.depth + 1 if ctx.fr else 1, ctx.fr)
        if f.op == "ctorfn":
            return [Leaf(st, "return", T("ctor", f.a[0], f.a[1], tuple((str(i), a) for i, a in enumerate(args))))]
        if f.op == "case":
            out = []
            for conds, x in f.a[0]:
                s2 = self.assume_all(st, conds)
                if s2 is not None:
                    out.extend(self.call_value(x, args, s2.copy(), ctx))
            return out
        return [Leaf(st, "return", T("call", "apply", (f,) + tuple(self.resolve(st, a) for a in args)))]

    def call_fn(self, info, args, st, ctx):
        for h in self.hooks:
            r = h(self, st, info, args, ctx)
            if r is not None:
                return r
        for key in (info.rkey, info.key):
            m = self.models.get(key)
            if m is not None:
                r = m(self, st, args, info, ctx)
                if r is not None:
                    return r
        b, env = info.target(self)
        if b is not None:
            depth = ctx.fr.depth + 1 if ctx.fr else 1
            # recursion?
            fr = ctx.fr
            rec = 0
            while fr is not None:
                if fr.body is b:
                    rec += 1
                fr = fr.parent
            if rec == 0:
                return self.run_body(b, args, st, env, depth, ctx.fr)
        elif "@ctor" in info.extra:
            pass
        return [Leaf(st, "return", self.opaque(st, info, args, ctx))]

    def opaque(self, st, info, args, ctx):
        name = info.name()
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        # enum/struct tuple constructors used as functions
        ct = info.ctor(self)
        if ct is not None:
            adt, var = ct
            return T("ctor", adt, var, tuple((str(i), a) for i, a in enumerate(args)))
        rargs = tuple(self.resolve(st, a) for a in args)
        if name.endswith("::base10_parse") or name == "core::str::<impl str>::parse":
            rargs = rargs + (T("ty", str(info.args[-1][1] if isinstance(info.args[-1], tuple) and len(info.args[-1]) > 1 else info.args[-1])),)
        term = T("call", name, rargs)
        # havoc what it may write through &mut
        for i, tt in enumerate(info.mut_args(self)):
            if tt and i < len(args) and args[i].op == "ref":
                self.write(st, args[i].a[0], args[i].a[1], T("after", name, i, rargs))
        st.event("call", name, rargs)
        return term

    # ---- iteration
    def iter_next(self, fr, st, itref, bb, t, out, ctx):
        """Iterator::next inside a loop over a symbolic segment: summarise the loop."""
        import models

        it = self.deref(st, itref)
        # nested &mut iterators
        cellref = itref
        while cellref.op == "ref":
            v = self.read(st, cellref.a[0], cellref.a[1])
            if v.op == "ref":
                cellref = v
            else:
                break
        if it.op != "iter":
            its = models.as_iter(self, st, it)
            if its is None:
                return None
            it = its
        _, fop, aops, dest, target, _ = t
        segs = it.a[0]
        if not segs:
            return self._setnext(fr, st, dest, target, NONE)
        s0 = segs[0]
        if not isT(s0, "spread") and not isT(s0, "each"):
            self.write(st, cellref.a[0], cellref.a[1], T("iter", segs[1:]))
            return self._setnext(fr, st, dest, target, SOME(s0))
        # symbolic segment
        hdr = None
        for h, blks in fr.loops.items():
            if bb in blks and (hdr is None or len(blks) < len(fr.loops[hdr])):
                hdr = h
        if hdr is not None and cellref.op == "ref" and cellref.a[0][0] == fr.id:
            # an iterator made anew in every iteration does not drive the loop
            loc = cellref.a[0][1]
            for b in fr.loops[hdr]:
                blk = fr.body["blocks"][b]
                if any(p["l"] == loc for p, _, _ in blk["s"]) or (blk["t"][0] == "call" and blk["t"][3]["l"] == loc):
                    hdr = None
                    break
        if hdr is None:
            coll, elem, body = models.seg_parts(s0, 0)
            rest = T("iter", segs[1:])
            e = T("nonempty", coll)
            res = []
            if isT(body, "case"):
                # the first element that passes a filter
                for c, b in body.a[0]:
                    if isT(b, "seq") and not b.a[0]:
                        continue
                    s = self.assume_all(st.copy(), c)
                    if s is None:
                        continue
                    self.write(s, cellref.a[0], cellref.a[1], T("call", "the rest of an iterator", (coll, elem)))
                    x = b.a[0][0] if isT(b, "seq") and len(b.a[0]) == 1 else T("call", "first of", (b,))
                    res += self._setnext(fr, s, dest, target, SOME(x))
                s = st.copy()
                self.write(s, cellref.a[0], cellref.a[1], rest)
                s.order += (("forall-not", coll, elem, tuple((tuple(c), ()) for c, b in body.a[0] if not (isT(b, "seq") and not b.a[0]))),)
                s.forks += 1
                if segs[1:]:
                    res += self.iter_next(fr, s, itref, bb, t, out, ctx)
                else:
                    res += self._setnext(fr, s, dest, target, NONE)
                return res
            for s, ne in self.decide_bool(st, e):
                if ne:
                    s = s.copy()
                    self.write(s, cellref.a[0], cellref.a[1], T("iter", (T("spread", T("tail", coll)),) + segs[1:]))
                    first = T("first", coll)
                    b2 = replace(body, {elem: first}) if isT(body, "seq") else None
                    if b2 is not None and len(b2.a[0]) == 1:
                        res += self._setnext(fr, s, dest, target, SOME(b2.a[0][0]))
                    else:
                        res += self._setnext(fr, s, dest, target, SOME(first))
                else:
                    s = s.copy()
                    self.write(s, cellref.a[0], cellref.a[1], rest)
                    if segs[1:]:
                        r = self.iter_next(fr, s, itref, bb, t, out, ctx)
                        res += r
                    else:
                        res += self._setnext(fr, s, dest, target, NONE)
            return res
        return self.summarise(fr, st, hdr, bb, cellref, segs, dest, target, out, ctx)

    def _setnext(self, fr, st, dest, target, v):
        c, p, _ = self.place(fr, st, dest)
        self.write(st, c, p, v)
        return [(st, target)]

    def summarise(self, fr, st, hdr, bb, cellref, segs, dest, target, out, ctx):
        rest = T("iter", segs[1:])

        def enter(s, item):
            self.write(s, cellref.a[0], cellref.a[1], T("iter", (T("opaqueiter"),)))
            return [(b, x, None) for x, b in self._setnext(fr, s, dest, target, SOME(item))]

        fin, exits, backs, _ = self.summarise_core(fr, st, hdr, segs[0], cellref.a[0], enter, out)
        self.write(fin, cellref.a[0], cellref.a[1], rest)
        res = []
        for s in exits:
            res.append((s[1], s[0]))
        # continue after this segment by re-evaluating next
        if segs[1:]:
            r = self.iter_next(fr, fin, T("ref", cellref.a[0], cellref.a[1]), bb, ["call", None, None, dest, target, -1], out, ctx)
            return r + res
        return self._setnext(fr, fin, dest, target, NONE) + res

    def counters(self, fr, hdr):
        """locals advanced by one constant step in the loop: [(local, step)]"""
        memo = fr.body.setdefault("_cnt", {})
        if hdr in memo:
            return memo[hdr]
        asg, calls = {}, False
        for b in fr.loops[hdr]:
            blk = fr.body["blocks"][b]
            for p, rv, _ in blk["s"]:
                asg.setdefault(p["l"], []).append((p["p"], rv))
            if blk["t"][0] == "call":
                asg.setdefault(blk["t"][3]["l"], []).append((None, None))

        def value(o, depth=0):
            """(local, step) if the operand is local + constant"""
            if o[0] not in ("copy", "move"):
                return None
            l = o[1]["l"]
            if o[1]["p"] and not (len(o[1]["p"]) == 1 and o[1]["p"][0][0] == "f" and o[1]["p"][0][1] in (0, "0")) or depth > 3:
                return None
            return l

        out = []
        for l, xs in asg.items():
            if len(xs) != 1 or xs[0][1] is None or xs[0][0]:
                continue
            rv = xs[0][1]
            for _ in range(3):
                if rv is not None and rv[0] == "use":
                    src = value(rv[1])
                    nx = asg.get(src)
                    rv = nx[0][1] if src is not None and nx and len(nx) == 1 else None
                else:
                    break
            if rv is not None and rv[0] == "bin" and rv[1].startswith(("Add", "Sub")):
                x, y = rv[2], rv[3]
                if x[0] in ("copy", "move") and x[1]["l"] == l and not x[1]["p"]:
                    out.append((l, 1 if rv[1].startswith("Add") else -1))
                elif x[0] in ("copy", "move") and not x[1]["p"]:
                    nx = asg.get(x[1]["l"])
                    if nx and len(nx) == 1 and nx[0][1] is not None and nx[0][1][0] == "use" and nx[0][1][1][0] in ("copy", "move") and nx[0][1][1][1]["l"] == l and not nx[0][1][1][1]["p"]:
                        out.append((l, 1 if rv[1].startswith("Add") else -1))
        memo[hdr] = out
        return out

    def count_loop(self, fr, hdr, st, out):
        """A while loop over a counter (i = a; while i < n { ..; i += 1 }) is the loop over its range."""
        cand = self.counters(fr, hdr)
        if not cand:
            return None
        key = (fr.id, hdr)
        done = (fr.id, hdr, "counted")
        for l, step in cand:
            cell = (fr.id, l)
            v0 = st.cells.get(cell)
            if v0 is None or v0.op in ("ref", "uninit", "loopvar", "acc"):
                continue
            if key in st.visits and not (done in st.visits and v0.op == "int"):
                continue
            try:
                r = self.counted(fr, hdr, st, out, l, step, v0)
            except Undecided:
                r = None
            if r is not None:
                return r
        return None

    def counted(self, fr, hdr, st, out, l, step, v0):
        import models

        cell = (fr.id, l)
        blocks = fr.loops[hdr]
        K = T("sym", "%count")
        base = st.copy()
        for k in [k for k in base.visits if k[0] == fr.id and k[1] in blocks]:
            del base.visits[k]
        t = base.copy()
        t.cells[cell] = K
        backs, exits = [], []
        self.explore(fr, [(hdr, t, True)], [], (hdr, blocks, backs, exits))
        nf = len(base.order)

        def bound(s):
            for f in s.order[nf:]:
                if f[0] == "b" and f[1].op in ("lt", "eq") and K in f[1].a:
                    x, y = f[1].a
                    if f[1].op == "eq":
                        return ("ne", y if x is K else x) if not f[2] else None
                    if x is K:
                        return ("lt", y) if f[2] else ("ge", y)
                    return ("gt", x) if f[2] else ("le", x)
            return None

        kinds = {bound(s) for s in backs}
        if len(kinds) != 1 or None in kinds:
            return None
        how, N = kinds.pop()
        if K in subterms(N) or any(s.cells.get(cell) is not self.binop("Add" if step > 0 else "Sub", K, INT(1)) for s in backs):
            return None
        if step > 0 and how in ("lt", "le", "ne"):
            coll = models.as_iter(self, st, T("ctor", "core::ops::range::RangeInclusive" if how == "le" else "core::ops::range::Range", None,
                                               (("start", v0), ("end", N))))
            first = lambda e: e
            if how == "lt":
                last, cond, cv = N if v0 is INT(0) and N.op == "len" else T("call", "counter after loop", (v0, N)), "lt", False
            elif how == "ne":
                if v0 is not INT(0):
                    return None
                last, cond, cv = N, "eq", True
            else:
                last, cond, cv = T("call", "counter after loop", (v0, N)), "gt", True
        elif step < 0 and (how == "gt" or how == "ne") and isT(N, "int"):
            rng = models.as_iter(self, st, T("ctor", "core::ops::range::Range", None, (("start", N), ("end", v0))))
            coll = T("iter", models.rev_segs(rng.a[0]))
            first = lambda e: self.binop("Add", e, INT(1))
            last, cond, cv = N, "gt", False
        else:
            return None
        if coll is None or coll.op != "iter" or len(coll.a[0]) != 1 or coll.a[0][0].op not in ("spread", "each"):
            return None
        mark = []

        def enter(s, item):
            i = first(item)
            s.cells[cell] = i
            mark.append(i)
            for x, y in (("lt", T("lt", i, N)), ("gt", T("lt", N, i)), ("eq", T("eq", i, N)), ("eq", T("eq", N, i))):
                if x == how:
                    s.b[y] = True
                if x == "eq" and how == "ne":
                    s.b[y] = False
            if how == "le":
                s.b[T("lt", N, i)] = False
            s.b[T("ovf", self.binop("Add" if step > 0 else "Sub", i, INT(1)))] = False
            return [(hdr, s, True)]

        outs = []
        fin, exits, backs, live = self.summarise_core(fr, st, hdr, coll.a[0][0], cell, enter, outs)
        for s in backs:
            if not any(s.cells.get(cell) is self.binop("Add" if step > 0 else "Sub", i, INT(1)) for i in mark):
                return None
            for f in s.order[nf:]:
                if f[0] == "b" and f[1].op in ("lt", "eq") and any(i in f[1].a for i in mark) and any(x.op == "acc" for x in subterms(f[1])):
                    return None
        if any(c in live for c in [cell]):
            return None
        out.extend(outs)
        fin.cells[cell] = last
        if last is not N or cond == "lt":
            if cond == "lt":
                fin.b[T("lt", last, N)] = False
            elif cond == "gt":
                fin.b[T("lt", N, last)] = cv
        fin.visits[(fr.id, hdr)] = (1, fin.forks, None)
        fin.visits[(fr.id, hdr, "counted")] = (1, fin.forks, None)
        return [(b, s, None) for b, s in exits] + [(hdr, fin, True)]

    def summarise_core(self, fr, st, hdr, seg, itercell, enter, out):
        import models

        nest = getattr(self, "nest", 0)
        self.nest = nest + 1
        try:
            coll, elem, body = models.seg_parts(seg, nest)
            items = body.a[0] if isT(body, "seq") else (T("elemof", body),)
            blocks = fr.loops[hdr]

            def iterate(s0):
                """run one generic iteration for all items of the segment; -> backs, exits, outs"""
                cur = [s0]
                exits, outs = [], []
                for item in items:
                    nxt = []
                    for s in cur:
                        s = s.copy()
                        backs, ex, oo = [], [], []
                        self.explore(fr, enter(s, item), oo, (hdr, blocks, backs, ex))
                        nxt += backs
                        exits += ex
                        outs += oo
                    cur = nxt
                return cur, exits, outs

            base = st.copy()
            for k in [k for k in base.visits if k[0] == fr.id and k[1] in blocks]:
                del base.visits[k]
            # pass 1: which pre-existing cells change
            backs, exits, outs = iterate(base.copy())
            changed = set()
            for b in backs:
                for c, v in base.cells.items():
                    if c != itercell and b.cells.get(c) is not v:
                        changed.add(c)
            live = self.live_changed(fr, hdr, changed, base)
            # iterate to a fixpoint of the changed set (bounded)
            for _ in range(4):
                s1 = base.copy()
                accs = {}
                for c in sorted(live, key=str):
                    old = base.cells.get(c)
                    acc, used = self.make_acc(old, (fr.body["path"], hdr, nest, str(c) if c[0] != fr.id else c[1]), backs, c)
                    s1.cells[c] = used
                    accs[c] = (acc, old)
                backs, exits, outs = iterate(s1)
                ch2 = set()
                for b in backs:
                    for c, v in s1.cells.items():
                        if c != itercell and b.cells.get(c) is not v:
                            ch2.add(c)
                ch2 = self.live_changed(fr, hdr, ch2, base)
                if ch2 <= live:
                    break
                live |= ch2
            # final state: loop exhausted
            fin = base.copy()
            nfacts = len(base.order)
            fin.folds = dict(base.folds)
            for b in backs:
                fin.folds.update(b.folds)
            for c in live:
                acc, old = accs[c]
                alts = []
                for b in backs:
                    conds = b.order[nfacts:]
                    alts.append((conds, b.cells.get(c, T("uninit"))))
                fin.cells[c] = self.close_acc(acc, old, alts, coll, elem)
                self.register(fin.folds, acc, old, alts, coll, elem)
            for c in changed - live:
                fin.cells.pop(c, None)
            # events
            evs = []
            for b in backs:
                e = b.log[len(base.log):]
                if e:
                    evs.append((b.order[nfacts:], e))
            if evs:
                fin.event("each", coll, elem, tuple(evs))
            if exits or outs:
                fin.event("loopdone", coll)
            # per-element facts that hold for all elements when the loop completes
            if (exits or outs) and backs:
                fin.order = fin.order + (("forall", coll, elem, tuple(b.order[nfacts:] for b in backs)),)
            fin.forks += 1 if (exits or outs) else 0
            out.extend(outs)
            return fin, exits, backs, live
        finally:
            self.nest = nest

    def live_changed(self, fr, hdr, changed, base):
        """Ignore this frame's locals that are always written before being read in the loop."""
        keep = set()
        for c in changed:
            if c[0] == fr.id and not self.read_before_write(fr, hdr, c[1]):
                continue
            keep.add(c)
        return keep

    def read_before_write(self, fr, hdr, local):
        key = ("rbw", hdr, local)
        memo = fr.body.setdefault("_rbw", {})
        if key in memo:
            return memo[key]
        # is the local live at the header (upward-exposed use from header, over whole CFG)?
        seen = set()
        work = [hdr]
        res = False
        while work and not res:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            r = first_access(fr.body["blocks"][b], local)
            if r == "read":
                res = True
            elif r is None:
                work.extend(succs(fr.body["blocks"][b]["t"]))
        memo[key] = res
        return res

    def make_acc(self, old, key, backs, cell):
        """An accumulator symbol of the right shape for a loop-carried cell."""
        acc = T("acc", *key)
        if old is None:
            return acc, acc
        if old.op == "seq":
            a2 = T("seq", (T("spread", acc),))
            return acc, a2
        if old.op in ("ts",):
            return acc, T("ts", (T("interp", acc),))
        if old.op in ("str", "cat"):
            # only if every back edge appends
            if all(isappend(b.cells.get(cell), old) for b in backs):
                return acc, T("cat", (acc,))
            return acc, acc
        if old.op in ("tuple", "ctor") and not all(old is b.cells.get(cell) for b in backs):
            # component-wise accumulators
            if old.op == "tuple":
                parts = []
                for i, x in enumerate(old.a[0]):
                    if all(isT(b.cells.get(cell), "tuple") and b.cells[cell].a[0][i] is x for b in backs):
                        parts.append(x)
                    else:
                        parts.append(self.make_sub(x, key + (i,)))
                return acc, T("tuple", tuple(parts))
            parts = []
            for n, x in old.a[2]:
                same = all(isT(b.cells.get(cell), "ctor") and b.cells[cell].a[1] == old.a[1] and dict(b.cells[cell].a[2]).get(n) is x for b in backs)
                okv = all(isT(b.cells.get(cell), "ctor") and b.cells[cell].a[1] == old.a[1] for b in backs)
                if not okv:
                    return acc, acc
                parts.append((n, x if same else self.make_sub(x, key + (n,))))
            return acc, T("ctor", old.a[0], old.a[1], tuple(parts))
        return acc, acc

    def make_sub(self, x, key):
        acc = T("acc", *key)
        if x.op == "seq":
            return T("seq", (T("spread", acc),))
        if x.op == "ts":
            return T("ts", (T("interp", acc),))
        return acc

    def close_acc(self, acc, old, alts, coll, elem):
        """The value after the loop, given the per-iteration alternatives."""
        if not alts:
            return old if old is not None else T("uninit")
        if old is not None and old.op in ("tuple", "ctor"):
            vals = [v for _, v in alts]
            if old.op == "tuple" and all(isT(v, "tuple") and len(v.a[0]) == len(old.a[0]) for v in vals):
                parts = []
                for i, x in enumerate(old.a[0]):
                    sub = [(c, v.a[0][i]) for c, v in alts]
                    if all(v is x for _, v in sub):
                        parts.append(x)
                    else:
                        parts.append(self.close_acc(T("acc", *(acc.a + (i,))), x, sub, coll, elem))
                return T("tuple", tuple(parts))
            if old.op == "ctor" and all(isT(v, "ctor") and v.a[1] == old.a[1] for v in vals):
                parts = []
                for n, x in old.a[2]:
                    sub = [(c, dict(v.a[2]).get(n, T("uninit"))) for c, v in alts]
                    if all(v is x for _, v in sub):
                        parts.append((n, x))
                    else:
                        parts.append((n, self.close_acc(T("acc", *(acc.a + (n,))), x, sub, coll, elem)))
                return T("ctor", old.a[0], old.a[1], tuple(parts))
        if old is not None and old.op == "seq":
            pre = T("spread", acc)
            if all(isT(v, "seq") and v.a[0][:1] == (pre,) and not mentions(v.a[0][1:], acc) for _, v in alts):
                tails = [(c, T("seq", v.a[0][1:])) for c, v in alts]
                bodyv = CASE(tuple(tails)) if len(tails) > 1 else tails[0][1]
                return T("seq", norm_each(old.a[0], coll, elem, bodyv))
        if old is not None and old.op in ("str", "cat"):
            if all(isT(v, "cat") and v.a[0][:1] == (acc,) and not mentions(v.a[0][1:], acc) for _, v in alts):
                tails = [(c, CAT(v.a[0][1:])) for c, v in alts]
                bodyv = CASE(tuple(tails)) if len(tails) > 1 else tails[0][1]
                return CAT((old, T("catall", coll, elem, bodyv)))
        if old is not None and old.op == "ts":
            pre = T("interp", acc)
            if all(isT(v, "ts") and v.a[0][:1] == (pre,) and not mentions(v.a[0][1:], acc) for _, v in alts):
                tails = [(c, T("ts", v.a[0][1:])) for c, v in alts]
                bodyv = CASE(tuple(tails)) if len(tails) > 1 else tails[0][1]
                return T("ts", old.a[0] + (T("tsall", coll, elem, bodyv),))
        if all(v is acc for _, v in alts):
            return old
        bodyv = CASE(tuple(alts)) if len(alts) > 1 else alts[0][1]
        return T("fold", coll, elem, old if old is not None else T("uninit"), acc, bodyv)

    def register(self, folds, acc, old, alts, coll, elem):
        folds[acc] = (coll, elem, old, CASE(tuple(alts)) if len(alts) != 1 else alts[0][1])
        if old is not None and old.op == "tuple" and all(isT(v, "tuple") and len(v.a[0]) == len(old.a[0]) for _, v in alts):
            for i, x in enumerate(old.a[0]):
                self.register(folds, T("acc", *(acc.a + (i,))), x, [(c, v.a[0][i]) for c, v in alts], coll, elem)
        if old is not None and old.op == "ctor" and all(isT(v, "ctor") and v.a[1] == old.a[1] for _, v in alts):
            for n, x in old.a[2]:
                self.register(folds, T("acc", *(acc.a + (n,))), x, [(c, dict(v.a[2]).get(n, T("uninit"))) for c, v in alts], coll, elem)

    # ---- convenience for rules
    def run(self, path, args=None, st=None, env=(), hooks=None):
        """Run a function on symbolic parameters. args: list of T or None."""
        b = self.bodies[path]
        st = st or St()
        if args is None:
            args = [None] * b["argc"]
        vals = []
        names = {}
        for n, p in b["vars"]:
            if not p["p"] and 1 <= p["l"] <= b["argc"]:
                names[p["l"]] = n
        for i, a in enumerate(args):
            tid = b["locals"][i + 1]
            v = a
            if a is None:
                v = SYM("p%d" % (i + 1))
            v = self.wrap_refs(st, b["crate"], tid, v)
            vals.append(v)
        return self.run_body(b, vals, st, env)

    def wrap_refs(self, st, crate, tid, v):
        t = crate.types[tid]
        if t["k"] == "ref" and v.op != "ref":
            inner = self.wrap_refs(st, crate, t["t"], v)
            return self.ref_to(st, inner)
        return v


def norm_each(pre, coll, elem, body):
    """pre ++ [body(elem) for elem in coll] in normal form."""
    if isT(body, "seq") and body.a[0] == (elem,):
        return pre + (T("spread", coll),)
    return pre + (T("each", coll, elem, body),)


def isappend(v, old):
    if v is None:
        return False
    if old.op == "str":
        if v.op == "cat":
            f = v.a[0][0]
            return old.a[0] == "" or (isT(f, "str") and f.a[0].startswith(old.a[0]))
        return v.op == "str" and v.a[0].startswith(old.a[0])
    return v.op == "cat" and v.a[0][: len(old.a[0]) - 1] == old.a[0][:-1]


def mentions(x, t):
    return t in subterms(x)


def first_access(blk, local):
    def reads_place(p):
        if p["l"] == local:
            return True
        return any(isinstance(e, list) and e[0] == "i" and e[1] == local for e in p["p"])

    def reads_op(o):
        return o[0] in ("copy", "move") and reads_place(o[1])

    def reads_rv(r):
        k = r[0]
        if k == "use":
            return reads_op(r[1])
        if k in ("ref", "discr"):
            return reads_place(r[1])
        if k == "agg":
            return any(reads_op(o) for o in r[2])
        if k == "bin":
            return reads_op(r[2]) or reads_op(r[3])
        if k in ("un", "cast"):
            return reads_op(r[2])
        if k == "repeat":
            return reads_op(r[1])
        return False

    for p, r, _ in blk["s"]:
        if reads_rv(r):
            return "read"
        if p["l"] == local:
            return "read" if p["p"] else "write"
    t = blk["t"]
    k = t[0]
    if k == "switch" and reads_op(t[1]):
        return "read"
    if k == "assert" and reads_op(t[1]):
        return "read"
    if k == "call":
        if reads_op(t[1]) or any(reads_op(a) for a in t[2]):
            return "read"
        if t[3]["l"] == local:
            return "read" if t[3]["p"] else "write"
    if k == "drop" and t[1]["l"] == local:
        return None
    if k == "return" and local == 0:
        return "read"
    return None


def has_ref(t):
    if t._fr is not None:
        return t._fr
    r = False
    if t.op == "ref":
        r = True
    else:
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                if has_ref(x):
                    r = True
                    break
            elif isinstance(x, tuple):
                st.extend(x)
    t._fr = r
    return r


def f32(x):
    import struct

    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def wrapint(v, name):
    bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}.get(name)
    if not bits:
        return v
    v &= (1 << bits) - 1
    if name[0] == "i" and v >> (bits - 1):
        v -= 1 << bits
    return v


class Ctx:
    __slots__ = ("ip", "fr", "line", "bb")

    def __init__(self, ip, fr, line, bb):
        self.ip = ip
        self.fr = fr
        self.line = line
        self.bb = bb


class FnInfo:
    """A (possibly generic) function reference with type arguments resolved."""

    memo = {}

    def __init__(self, ip, crate, f, env):
        self.f = f
        self.crate = crate
        self.path = f["path"]
        self.key = strip_generics(f["path"])
        r = f.get("res")
        self.rpath = r["path"] if r else None
        self.rkey = strip_generics(r["path"]) if r else None
        self.args = tuple(ip.ty(crate, a, env) for a in f["args"])
        self.rargs = tuple(ip.ty(crate, a, env) for a in r["args"]) if r else None
        self.fwd = f.get("fwd")
        self.env = env
        self.extra = ""
        self._t = None

    @classmethod
    def of(cls, ip, crate, f, env):
        k = (id(f), env)
        x = cls.memo.get(k)
        if x is None:
            x = cls(ip, crate, f, env)
            cls.memo[k] = x
            cls.memo[("keep", k)] = f
        return x

    def __repr__(self):
        return self.name()

    def __str__(self):
        return self.name()

    def name(self):
        return self.rkey or self.key

    def trait(self):
        return self.f.get("trait")

    def method(self):
        return self.f.get("name") or self.key.split("::")[-1]

    def body_env(self, ip, b):
        args = self.rargs if self.rargs is not None and self.rpath == b["path"] else self.args
        return tuple(zip((g[0] for g in nonlife(b["generics"])), args)) if len(nonlife(b["generics"])) == len(args) else self._env(b, args)

    def _env(self, b, args):
        return tuple((g[0], a) for g, a in zip(b["generics"], args))

    def target(self, ip):
        """(body, env) to inline, or (None, None)."""
        if self._t is not None:
            return self._t
        self._t = self._target(ip)
        return self._t

    def _target(self, ip):
        if self.fwd is not None:
            b = ip.bodies.get(self.fwd["path"])
            if b is not None:
                args = tuple(ip.ty(self.crate, a, self.env) for a in self.fwd["args"])
                return b, tuple((g[0], a) for g, a in zip(b["generics"], args))
        if self.rpath is not None:
            b = ip.bodies.get(self.rpath)
            if b is not None and not ("trait_default" in b and self.f.get("trait")):
                return b, self.body_env(ip, b)
        # trait method on a now-concrete Self
        tr = self.f.get("trait")
        if tr is not None and self.args:
            st = self.args[0]
            while st[0] == "ref" and not any(True for c, im in ip.impl_tab.get(tr, []) if ip.ty(c, im["self"])[0] == "ref"):
                st = st[1]
            for c, im in ip.impl_tab.get(tr, []):
                it = ip.ty(c, im["self"])
                ta = im.get("trait_args") or [im["self"]]
                if len(ta) > 1 and not all(unify(ip.ty(c, x), y) for x, y in zip(ta[1:], self.args[1:])):
                    continue
                if it == st or (it[0] == "adt" and st[0] == "adt" and it[1] == st[1]):
                    m = im["items"].get(self.f.get("name"))
                    if m is not None:
                        b = ip.bodies.get(m)
                        if b is not None:
                            return b, tuple((g[0], a) for g, a in zip(b["generics"], self.args[1:]))
                    b = ip.bodies.get(self.path)
                    if b is not None:
                        return b, tuple((g[0], a) for g, a in zip(b["generics"], self.args))
        b = ip.bodies.get(self.path)
        if b is not None and tr is None:
            return b, self.body_env(ip, b)
        if b is not None and "trait_default" in b:
            return b, tuple((g[0], a) for g, a in zip(b["generics"], self.args))
        return None, None

    def mut_args(self, ip):
        return MutArgs(self)

    def ctor(self, ip):
        # Adt::Variant or Struct used as a function
        p = self.key
        base, _, last = p.rpartition("::")
        ad = ip.adts.get(base)
        if ad is not None and ad["kind"] == "enum" and any(v["name"] == last for v in ad["variants"]):
            return base, last
        ad = ip.adts.get(p)
        if ad is not None and ad["kind"] == "struct":
            return p, ad["variants"][0]["name"]
        return None


def unify(pat, t):
    """impl type pattern against a type (parameters match anything)"""
    if pat[0] == "param" or t[0] == "param":
        return True
    if isinstance(pat, tuple) and isinstance(t, tuple):
        if len(pat) != len(t) or pat[0] != t[0]:
            return False
        for a, b in zip(pat[1:], t[1:]):
            if isinstance(a, tuple) and a and isinstance(a[0], str) and isinstance(b, tuple) and b:
                if not unify(a, b):
                    return False
            elif isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b) or not all(unify(x, y) if isinstance(x, tuple) else x == y for x, y in zip(a, b)):
                    return False
            elif a != b:
                return False
        return True
    return pat == t


def nonlife(g):
    return g


class MutArgs:
    """Conservative: any argument that is a reference may be written, unless the callee is
    known to take it by shared reference (decided by the caller through models)."""

    def __init__(self, info):
        self.info = info

    def __iter__(self):
        return iter(self.info.f.get("muts", []))


def totokens(v):
    """Tokens a value contributes when interpolated."""
    if v.op == "ts":
        return v.a[0]
    if v.op == "parsed":
        return totokens(v.a[1])
    if v.op == "id" or v.op == "li" or v.op == "pu" or v.op == "gr":
        return (v,)
    if v.op == "ident" and isT(v.a[0], "str"):
        return (T("id", v.a[0].a[0]),)
    if v.op == "litstr" and isT(v.a[0], "str"):
        return (T("li", v.a[0].a[0]),)
    if v.op == "bool":
        return (T("id", "true" if v.a[0] else "false"),)
    if v.op == "str":
        import json

        return (T("li", json.dumps(v.a[0])),)
    return (T("interp", v),)
