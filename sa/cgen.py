"""The C back end as a syntax-directed translation.

Every visitor method of the C back end is analysed once, with each visit of a
child replaced by the hole c(method, child) (the inductive hypothesis: a visit
pushes one fragment). That gives, per method, guarded text templates over the
holes. `Trans` composes those templates over syntax schemas (trees with named
leaves), which yields the C text of the schema."""
from load import *
import models

VT = "syn::gen::visit::Visit"


class Undecided(Exception):
    pass


class NoElem(Exception):
    pass


class Broken(Exception):
    """the translation contradicts its own protocol (panics, pushes no fragment, ...)"""


# ---------------------------------------------------------------- syntax schemas
class E:
    """enum value"""

    def __init__(self, variant, *payload):
        self.v = variant
        self.p = payload

    def __repr__(self):
        return "%s(%s)" % (self.v, ", ".join(map(repr, self.p)))


class S:
    """struct value"""

    def __init__(self, name, **f):
        self.n = name
        self.f = f

    def __repr__(self):
        return "%s{%s}" % (self.n, ", ".join("%s:%r" % x for x in self.f.items()))


NONE = E("None")


def SOME(*x):
    return E("Some", *x)


class Ident(str):
    pass


def snake(s):
    o = ""
    for ch in s:
        if ch.isupper() and o:
            o += "_"
        o += ch.lower()
    return o


# variant -> visitor method of the payload, per default dispatcher of syn 1.x (library knowledge)
def _disp(prefix, names, **special):
    d = {n: prefix + snake(n) for n in names.split()}
    d.update(special)
    return d


DISPATCH = {
    "visit_expr": _disp("visit_expr_", "Array Assign AssignOp Async Await Binary Block Box Break Call Cast Closure Continue Field ForLoop Group If Index Let Lit Loop Macro Match MethodCall Paren Path Range Reference Repeat Return Struct Try TryBlock Tuple Type Unary Unsafe While Yield"),
    "visit_lit": _disp("visit_lit_", "Str ByteStr Byte Char Int Float Bool"),
    "visit_item": _disp("visit_item_", "Const Enum ExternCrate Fn ForeignMod Impl Macro Macro2 Mod Static Struct Trait TraitAlias Type Union Use"),
    "visit_pat": _disp("visit_pat_", "Box Ident Lit Macro Or Path Range Reference Rest Slice Struct Tuple TupleStruct Type Wild"),
    "visit_type": _disp("visit_type_", "Array BareFn Group ImplTrait Infer Macro Never Paren Path Ptr Reference Slice TraitObject Tuple"),
    "visit_fn_arg": {"Receiver": "visit_receiver", "Typed": "visit_pat_type"},
    "visit_stmt": {"Local": "visit_local", "Item": "visit_item", "Expr": "visit_expr"},
}
VERBATIM = {"visit_expr", "visit_lit", "visit_item", "visit_pat", "visit_type"}


class CGen:
    def __init__(self, p):
        self.p = p
        ip = p.interp()
        self.impl = None
        for c, im in ip.impl_tab.get(VT, []):
            t = c.types[im["self"]]
            path = t.get("path", "")
            if path.startswith("doctor_syn::codegen::c::"):
                self.impl = (c, im, path)
        if self.impl is None:
            return
        c, im, self.adt = self.impl
        self.items = im["items"]
        self.fields = [f if isinstance(f, str) else f[0] for f in c.adts[self.adt]["variants"][0]["fields"]]
        self.stack = self._stack(c)
        self.mutable = [f for f in self.fields if f not in (self.stack, "options")]
        self.cache = {}

    def _stack(self, c):
        if "stack" in self.fields:
            return "stack"
        tys = {}
        for f in c.adts[self.adt]["variants"][0]["fields"]:
            if not isinstance(f, str):
                tys[f[0]] = show_ty(c, f[1])
        l = [n for n, t in tys.items() if t.endswith("Vec<String>")]
        return l[0] if len(l) == 1 else None

    def where(self, m):
        b = self.p.bodies.get(self.items.get(m))
        return "doctor-syn/src/codegen/c.rs:%s" % m

    def mkself(self):
        fs = []
        for n in self.fields:
            fs.append((n, T("seq", (T("spread", T("sym", "S0")),)) if n == self.stack else T("sym", "self." + n)))
        return T("ctor", self.adt, self.adt.split("::")[-1], tuple(fs))

    def _hook(self, root):
        def hook(ip, st, info, args, ctx):
            m, tr, n = info.method(), info.trait(), info.name()
            if n.startswith("syn::gen::visit::visit_") or n.startswith("syn::visit::visit_"):
                m2 = "default:" + n.split("::")[-1]
            elif tr == VT and m.startswith("visit_"):
                if ip.resolve(st, args[1]) is root:
                    if m not in self.items:
                        m2 = "default:" + m
                    else:
                        return None
                else:
                    m2 = m
            else:
                return None
            a = ip.resolve(st, args[1])
            r = models.innermost(ip, st, args[0])
            v = models.val(ip, st, r)
            if v.op != "ctor":
                return None
            d = dict(v.a[2])
            # the child sees, and may change, the visitor's other state
            state = tuple((k, d[k]) for k in self.mutable)
            d[self.stack] = T("seq", models.as_seq(d[self.stack]) + (T("c", m2, a, T("state", state)),))
            for k in self.mutable:
                d[k] = T("aftervisit", m2, a, T("state", state), k)
            ip.write(st, r.a[0], r.a[1], T("ctor", v.a[0], v.a[1], tuple((k, d[k]) for k, _ in v.a[2])))
            return [Leaf(st, "return", UNIT)]

        return hook

    def templates(self, m):
        """[(kind, facts, stack term, {other field: term})] of an overridden method"""
        if m in self.cache:
            return self.cache[m]
        root = SYM("n")
        ip = self.p.interp(hooks=[self._hook(root)], want_panics=True)
        st = St()
        sr = ip.ref_to(st, self.mkself())
        out = []
        try:
            ls = ip.run_body(self.p.bodies[self.items[m]], [sr, ip.ref_to(st, root)], st)
        except Exception as x:
            self.cache[m] = None
            return None
        for l in ls:
            s = ip.resolve(l.st, models.val(ip, l.st, sr))
            d = dict(s.a[2]) if s.op == "ctor" else {}
            facts = [f for f in l.st.order if f[0] in ("b", "is", "isnot")]
            nv = l.st.nv.get(root)
            others = {k: v for k, v in d.items() if k != self.stack and v != T("sym", "self." + k)}
            out.append((l.kind, facts, nv, d.get(self.stack), others))
        self.cache[m] = out
        return out

    def one(self, m):
        """templates of m as [(kind, facts, nv, fragment or None, others, stack)]; fragment None: not exactly one pushed"""
        ts = self.templates(m)
        if ts is None:
            return None
        out = []
        S0 = T("spread", T("sym", "S0"))
        for kind, facts, nv, s, others in ts:
            frag = None
            if s is not None and s.op == "seq" and len(s.a[0]) == 2 and s.a[0][0] == S0:
                frag = s.a[0][1]
            out.append((kind, facts, nv, frag, others, s))
        return out


def show_ty(c, t):
    try:
        return str(c.types[t].get("path") or c.types[t])
    except Exception:
        return ""


# ---------------------------------------------------------------- composition
def toktext(n):
    """token text of a Path schema, as proc_macro2 prints it"""
    return " :: ".join(n.f["segs"])


UNKNOWN = ("unknown",)


def hasop(t, ops):
    return any(x.op in ops for x in subterms(t))


class Trans:
    """text(method, node, state) and after(method, node, state), where state is the visitor's other mutable fields"""

    def __init__(self, cg, prefix="", float_suffix=""):
        self.cg = cg
        self.opt = {"prefix": prefix, "float_suffix": float_suffix}
        self.used = set()
        self.memo = {}
        self.fresh = 0
        self.empty = tuple((k, ()) for k in cg.mutable)
        self.lv = {}

    def call(self, m, n, state=None):
        return self.both(m, n, self.empty if state is None else state)[0]

    def both(self, m, n, state):
        k = (m, id(n), state)
        if k in self.memo:
            return self.memo[k][1]
        r = self._call(m, n, state)
        self.memo[k] = (n, r)
        return r

    def leaves(self, m):
        if m in self.lv:
            return self.lv[m]
        ts = self.cg.one(m)
        if ts is None:
            raise Undecided("%s was not analysed" % m)
        out = []
        for i, (kind, facts, nv, frag, others, s) in enumerate(ts):
            folds = {}
            loopvars = set()
            for t in [x for x in [frag] + list(others.values()) if x is not None] + [f[1] for f in facts if isinstance(f[1], T)]:
                for x in subterms(t):
                    if x.op == "fold":
                        folds.setdefault((x.a[0], x.a[1]), {})[x.a[3]] = (x.a[2], x.a[4])
                    if x.op == "loopvar":
                        loopvars.add(x)
            free = any(x.op == "elem" for f in facts if isinstance(f[1], T) and not hasop(f[1], ("anyof",)) for x in subterms(f[1]))
            out.append((0 if free else 1, i, (kind, facts, nv, frag, others, s, folds, loopvars)))
        out.sort(key=lambda x: x[:2])
        self.lv[m] = [x[2] for x in out]
        return self.lv[m]

    def _call(self, m, n, state):
        if m.startswith("default:"):
            return self.default(m[8:], n, state)
        if m not in self.cg.items:
            return self.default(m, n, state)
        self.used.add(m)
        for kind, facts, nv, frag, others, s, folds, loopvars in self.leaves(m):
            if nv and isinstance(n, E) and n.v in nv:
                continue
            for env in self.envs(n, state, facts, folds, loopvars):
                if kind != "return":
                    if kind == "panic":
                        if any(f[0] == "b" and isT(f[1], "ovf") for f in facts):
                            continue
                        raise Broken("%s panics" % m)
                    raise Undecided(kind)
                if frag is None:
                    if s is None:
                        raise Undecided("stack of %s" % m)
                    raise Broken("%s leaves %s on the stack instead of one fragment" % (m, show(s)[:200]))
                txt = env.text(frag)
                out = []
                for k, v in state:
                    if k in others:
                        try:
                            v = freeze(env.val(others[k]))
                        except (Undecided, NoElem):
                            v = UNKNOWN
                    out.append((k, v))
                return txt, tuple(out)
        raise Undecided("no template of %s applies" % m)

    def envs(self, n, state, facts, folds, loopvars):
        """the first assignment of searched elements and loop results under which the guards hold"""
        cands = [{}]
        if loopvars:
            names = sorted({y for _, v in state if v is not UNKNOWN for x in v for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, str)})
            self.fresh += 1
            lv = sorted(loopvars, key=str)
            cands = [{x: c for x in lv} for c in names + ["fresh_%d" % self.fresh]]
        for c in cands:
            work = [dict(c)]
            while work:
                b = work.pop(0)
                env = Env(self, n, state, folds)
                env.el.update(b)
                try:
                    if all(env.fact(f) for f in facts):
                        yield env
                        return
                except NoElem as x:
                    if x.args and x.args[0] not in b:
                        work = [dict(b, **{}) | {x.args[0]: v} for v in env.lst(x.args[0].a[0])] + work
                    continue

    def default(self, m, n, state):
        d = DISPATCH.get(m)
        if d is None:
            raise Broken("%s is not translated: the default traversal pushes the fragments of the parts one by one" % m)
        v = n.v
        if v not in d:
            if m == "visit_stmt" and v == "Semi":
                raise Broken("default visit_stmt on an expression statement also visits the semicolon")
            raise Broken("%s: the default traversal pushes nothing for %s" % (m, v))
        return self.both(d[v], n.p[0], state)


def freeze(v):
    if isinstance(v, list):
        return tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


class Env:
    def __init__(self, tr, n, state, folds):
        self.tr = tr
        self.n = n
        self.state = dict(state)
        self.folds = folds
        self.el = {}
        self.flags = {}
        self.cache = {}

    # facts
    def fact(self, f):
        k = f[0]
        if k in ("is", "isnot"):
            v = self.val(f[1])
            if v is None:
                raise Undecided(show(f[1])[:100])
            if not isinstance(v, E):
                raise Undecided("variant of " + show(f[1])[:100])
            names = f[2] if isinstance(f[2], (tuple, frozenset, set, list)) else (f[2],)
            return (v.v in names) if k == "is" else (v.v not in names)
        if k == "b":
            return self.val(f[1]) is f[2]
        raise Undecided(str(k))

    def text(self, t):
        v = self.val(t)
        while isinstance(v, S) and v.n == "IdentFragmentAdapter":
            v = v.f["0"]
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        if not isinstance(v, str):
            raise Undecided("text of " + show(t)[:120])
        return str(v)

    def lst(self, t):
        v = self.val(t)
        if not isinstance(v, list):
            raise Undecided("list " + show(t)[:120])
        return v

    def val(self, t):
        if not isinstance(t, T):
            return t
        o, a = t.op, t.a
        if t in self.el:
            v = self.el[t]
            if v is UNKNOWN:
                raise Undecided("state")
            return v
        if o == "call" and not self.el:
            # library terms repeat in every guard
            if t not in self.cache:
                self.cache[t] = self.libcall(t, a[0], a[1])
            return self.cache[t]
        if o in ("str", "int", "bool", "char"):
            return a[0]
        if o == "sym":
            if a[0] == "n":
                return self.n
            if a[0] == "self.options":
                return S("Options", **self.tr.opt)
            if a[0].startswith("self."):
                v = self.state.get(a[0][5:], UNKNOWN)
                if v is UNKNOWN:
                    raise Undecided("state " + a[0])
                return list(v) if isinstance(v, tuple) else v
            raise Undecided(show(t))
        if o == "c":
            return self.tr.both(a[0], self.val(a[1]), self.st(a[2]))[0]
        if o == "aftervisit":
            v = dict(self.tr.both(a[0], self.val(a[1]), self.st(a[2]))[1]).get(a[3], UNKNOWN)
            if v is UNKNOWN:
                raise Undecided("state after " + a[0])
            return list(v) if isinstance(v, tuple) else v
        if o == "after":
            x = self.lst(a[2][0])
            f = a[0].split("::")[-1]
            if f == "truncate":
                return x[: self.val(a[2][1])]
            if f == "clear":
                return []
            if f == "pop":
                return x[:-1]
            raise Undecided(show(t)[:120])
        if o == "fold":
            coll, elem, init, acc, body = a
            return self.loop(coll, elem, None, {acc: (init, body)})[1][acc]
        if o == "cat":
            return "".join(self.text(x) for x in a[0])
        if o in ("disp", "conv", "owned"):
            return self.val(a[0])
        if o == "fmtspec":
            x = self.text(a[1])
            for k, v in a[0]:
                if k == "prec":
                    x = x[:v]
                elif k == "width":
                    x = x.ljust(v)
                else:
                    raise Undecided(show(t)[:120])
            return x
        if o == "dbg":
            return '"' + self.text(a[0]) + '"'
        if o == "join":
            return self.text(a[1]).join(str(x) for x in self.lst(a[0]))
        if o == "tuple":
            return tuple(self.val(x) for x in a[0])
        if o == "fld":
            x = self.val(a[0])
            if a[1] is not None:
                if isinstance(x, E):
                    if x.v != a[1]:
                        raise NoElem()
                    return x.p[int(a[2])]
                raise Undecided(show(t)[:120])
            if isinstance(x, tuple):
                return x[int(a[2])]
            if isinstance(x, S):
                if a[2] in x.f:
                    return x.f[a[2]]
                raise Undecided("field %s of %s" % (a[2], x.n))
            raise Undecided(show(t)[:120])
        if o == "seq":
            out = []
            for x in a[0]:
                if x.op == "each":
                    out += self.each(x)
                elif x.op == "spread":
                    out += self.lst(x.a[0])
                else:
                    out.append(self.val(x))
            return out
        if o == "each":
            return self.each(t)
        if o == "case":
            for facts, b in a[0]:
                if all(self.fact(f) for f in facts):
                    return self.val(b)
            raise Undecided("case")
        if o == "index":
            l = self.lst(a[0])
            i = self.val(a[1])
            if not isinstance(i, int):
                raise Undecided(show(t)[:100])
            if i >= len(l):
                raise Broken("index %d of %d parts" % (i, len(l)))
            return l[i]
        if o in ("rev",):
            return list(reversed(self.lst(a[0])))
        if o == "len":
            x = self.val(a[0])
            return len(x)
        if o == "elem":
            raise NoElem(t)
        if o == "eq":
            x, y = self.val(a[0]), self.val(a[1])
            return x == y
        if o == "not":
            return not self.val(a[0])
        if o == "anyof":
            l = self.lst(a[0])
            if not l:
                return False
            for x in l:
                self.el[a[1]] = x
                try:
                    if self.val(a[2]):
                        return True
                finally:
                    del self.el[a[1]]
            return False
        if o == "ts":
            if len(a[0]) == 1 and a[0][0].op == "interp":
                x = self.val(a[0][0].a[0])
                if isinstance(x, S) and x.n == "Path":
                    return toktext(x)
                if isinstance(x, str):
                    return x
            raise Undecided(show(t)[:120])
        if o == "op":
            x, y = self.val(a[1]), self.val(a[2])
            try:
                return {"Add": lambda: x + y, "Sub": lambda: x - y, "Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Gt": lambda: x > y, "Le": lambda: x <= y, "Ge": lambda: x >= y}[a[0]]()
            except KeyError:
                raise Undecided(show(t)[:120])
        if o == "ovf":
            return False
        if o in ("lt", "le"):
            x, y = self.val(a[0]), self.val(a[1])
            if isinstance(x, int) and isinstance(y, int):
                return x < y if o == "lt" else x <= y
            raise Undecided(show(t)[:120])
        if o in ("and", "or"):
            vs = a[0] if isinstance(a[0], tuple) else a
            return all(self.val(x) for x in vs) if o == "and" else any(self.val(x) for x in vs)
        if o in ("first", "last", "tail", "init", "index_end", "nonempty", "slice", "slicei", "subslice", "enumerate", "zip", "skip", "take", "stepby", "insert", "store", "flatten", "range"):
            return self.listop(t, o, a)
        if o == "isvar":
            x = self.val(a[0])
            if isinstance(x, E):
                return x.v == a[2]
        if o == "get_ident":
            x = self.val(a[0])
            return SOME(Ident(x.f["segs"][0])) if len(x.f["segs"]) == 1 else NONE
        if o == "call":
            return self.libcall(t, a[0], a[1])
        raise Undecided("%s: %s" % (o, show(t)[:160]))

    def listop(self, t, o, a):
        if o == "range":
            x, y = self.val(a[0]), self.val(a[1])
            return list(range(x, y + 1 if a[2] is True or (isT(a[2], "bool") and a[2].a[0]) else y))
        l = self.val(a[0])
        if isinstance(l, str):
            l = list(l) if o in ("enumerate", "zip", "skip", "take") else l
        if not isinstance(l, (list, str)):
            raise Undecided("list " + show(t)[:120])
        if o == "nonempty":
            return len(l) > 0
        if o in ("tail", "init"):
            return l[1:] if o == "tail" else l[:-1]
        if o in ("first", "last", "index_end"):
            i = 0 if o == "first" else -1 if o == "last" else -int(a[1])
            if not -len(l) <= i < len(l):
                raise NoElem()
            return l[i]
        if o == "enumerate":
            return [(i, x) for i, x in enumerate(l)]
        if o == "zip":
            return list(zip(l, self.lst(a[1])))
        if o == "flatten":
            return [y for x in l for y in (x if isinstance(x, list) else [x.p[0]] if isinstance(x, E) and x.v == "Some" else [])]
        if o == "subslice":
            return l[int(a[1]): len(l) - int(a[2]) if a[3] else int(a[2])]
        i = self.val(a[1])
        if not isinstance(i, int):
            raise Undecided(show(t)[:120])
        if o in ("skip", "take", "stepby"):
            return l[i:] if o == "skip" else l[:i] if o == "take" else l[::i]
        if o in ("slice", "slicei"):
            j = self.val(a[2]) if not isT(a[2], "none") else len(l) - 1
            if not isinstance(j, int):
                raise Undecided(show(t)[:120])
            return l[i: j + (o == "slicei")]
        if i > len(l) or (o == "store" and i == len(l)):
            raise Undecided(show(t)[:120])
        x = self.val(a[2])
        return l[:i] + [x] + l[i + (o == "store"):]

    def libcall(self, t, n, args):
        if n.endswith("<impl str>::replace") or n.endswith("str::replace"):
            return self.text(args[0]).replace(self.text(args[1]), self.text(args[2]))
        last = n.split("::")[-1]
        if last in ("base10_digits", "suffix"):
            x = self.val(args[0])
            if isinstance(x, S) and last in x.f:
                return x.f[last]
        if last in ("get_ident",):
            x = self.val(args[0])
            return SOME(Ident(x.f["segs"][0])) if len(x.f["segs"]) == 1 else NONE
        if last in ("value",):
            x = self.val(args[0])
            if isinstance(x, S) and "value" in x.f:
                return x.f["value"]
        if last in ("is_empty", "len"):
            x = self.val(args[0])
            return len(x) == 0 if last == "is_empty" else len(x)
        if last in ("starts_with", "ends_with", "contains"):
            x, y = self.text(args[0]), self.text(args[1])
            return {"starts_with": x.startswith(y), "ends_with": x.endswith(y), "contains": y in x}[last]
        if last in ("trim_start_matches", "trim_end_matches", "trim_matches", "strip_prefix", "strip_suffix") and len(args) > 1:
            x, y = self.text(args[0]), self.text(args[1])
            if y:
                if last.startswith("strip"):
                    hit = x.startswith(y) if last == "strip_prefix" else x.endswith(y)
                    return SOME(x[len(y):] if last == "strip_prefix" else x[:-len(y)]) if hit else NONE
                while last != "trim_end_matches" and x.startswith(y):
                    x = x[len(y):]
                while last != "trim_start_matches" and x.endswith(y):
                    x = x[:-len(y)]
                return x
        if last in ("is_ident",):
            x = self.val(args[0])
            return len(x.f["segs"]) == 1 and x.f["segs"][0] == self.text(args[1])
        if last in ("trim", "to_uppercase", "to_lowercase"):
            x = self.text(args[0])
            return {"trim": x.strip(), "to_uppercase": x.upper(), "to_lowercase": x.lower()}[last]
        if last in ("to_string", "to_owned", "clone", "as_str", "into", "from", "as_ref", "borrow"):
            return self.val(args[0])
        raise Undecided(show(t)[:160])

    def st(self, t):
        out = []
        for k, v in t.a[0]:
            try:
                v = freeze(self.val(v))
            except (Undecided, NoElem):
                v = UNKNOWN
            out.append((k, v))
        return tuple(out)

    def each(self, t):
        coll, elem, body = t.a
        return self.loop(coll, elem, body, self.folds.get((coll, elem), {}))[0]

    def loop(self, coll, elem, body, folds):
        out = []
        saved = dict(self.el)
        cur = {}
        for acc, (init, _) in folds.items():
            try:
                cur[acc] = self.val(init)
            except (Undecided, NoElem):
                cur[acc] = UNKNOWN
        for x in self.lst(coll):
            self.el[elem] = x
            for acc, v in cur.items():
                self.el[acc] = v
            flags = dict(self.flags)
            if body is not None:
                out += self.body(body)
            after = self.flags
            nxt = {}
            for acc, (_, b) in folds.items():
                self.flags = dict(flags)
                try:
                    nxt[acc] = self.val(b) if b.op != "case" else self.body(b, False)
                except (Undecided, NoElem):
                    nxt[acc] = UNKNOWN
            self.flags = after if body is not None else self.flags
            cur = nxt
        self.el = saved
        return out, cur

    def body(self, b, aslist=True):
        if b.op == "case":
            for facts, r in b.a[0]:
                ok = True
                seen = None
                for f in facts:
                    if f[0] == "b" and isT(f[1], "acc"):
                        # a loop-carried flag: assumed false until the branch that requires it false is first taken
                        seen = f[1]
                        if self.flags.get(f[1], False) is not f[2]:
                            ok = False
                            break
                    elif not self.fact(f):
                        ok = False
                        break
                if ok:
                    if seen is not None:
                        self.flags[seen] = True
                    return self.lst(r) if aslist else self.val(r)
            raise Undecided("loop case")
        return self.lst(b)
