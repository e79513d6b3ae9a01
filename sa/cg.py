"""Call graph over the dumped MIR: call sites, function references, reachability with constant branches pruned."""
import re
from load import *


def const_of(body, o, depth=0):
    """integer value of an operand when it is a compile-time constant (through single-assignment locals)"""
    if o[0] == "const":
        return o[1].get("int") if "int" in o[1] else None
    if o[0] in ("copy", "move") and not o[1]["p"] and depth < 6:
        l = o[1]["l"]
        if l <= body["argc"]:
            return None
        defs = []
        for bb in body["blocks"]:
            for pl, rv, ln in bb["s"]:
                if pl["l"] == l:
                    defs.append((pl, rv))
            t = bb["t"]
            if t[0] == "call" and t[3]["l"] == l:
                return None
        if len(defs) == 1 and not defs[0][0]["p"] and defs[0][1][0] == "use":
            return const_of(body, defs[0][1][1], depth + 1)
    return None


def live_blocks(body):
    """blocks reachable from the entry, not following branches on constants"""
    bbs = body["blocks"]
    seen, work = set(), [0]
    while work:
        i = work.pop()
        if i is None or i < 0 or i in seen or i >= len(bbs):
            continue
        seen.add(i)
        t = bbs[i]["t"]
        if t[0] == "switch":
            v = const_of(body, t[1])
            if v is not None:
                for val, tgt in t[2]:
                    if int(val) == int(v):
                        work.append(tgt)
                        break
                else:
                    work.append(t[3])
                continue
            work += [tgt for _, tgt in t[2]] + [t[3]]
        elif t[0] == "call":
            work.append(t[4])
        elif t[0] in ("drop",):
            work.append(t[2])
        elif t[0] in ("goto",):
            work.append(t[1])
        elif t[0] == "assert":
            work += [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)]
        else:
            work += [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)]
    return seen


def operands(rv):
    for x in rv[1:]:
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] in ("copy", "move", "const"):
                yield x
            else:
                for y in x:
                    if isinstance(y, (list, tuple)) and len(y) == 2 and y[0] in ("copy", "move", "const"):
                        yield y


def refs(body):
    """[(kind, fnref or path, line)] for the live part: calls, functions used as values, closures, statics"""
    out = []
    for i in sorted(live_blocks(body)):
        bb = body["blocks"][i]
        for pl, rv, ln in bb["s"]:
            if rv[0] == "agg" and isinstance(rv[1], dict) and "closure" in rv[1]:
                out.append(("closure", rv[1]["closure"], ln))
            for o in operands(rv):
                if o[0] == "const":
                    k = o[1]
                    if "fn" in k:
                        out.append(("fnval", k["fn"], ln))
                    ts = body["crate"].tystr(k["ty"]) if "ty" in k else ""
                    if ts.startswith("*mut "):
                        out.append(("static", "static mut: " + ts, ln))
                    if "static" in k:
                        out.append(("static", k["static"] + ": " + body["crate"].tystr(k["ty"]), ln))
                    if "item" in k:
                        out.append(("constitem", k["item"], ln))
        t = bb["t"]
        if t[0] == "call":
            ln = bb.get("l", 0)
            if t[1][0] == "const" and "fn" in t[1][1]:
                out.append(("call", t[1][1]["fn"], ln, t[2]))
            else:
                out.append(("dyncall", t[1], ln, t[2]))
            for a in t[2]:
                if a[0] == "const" and "fn" in a[1]:
                    out.append(("fnval", a[1]["fn"], ln))
                if a[0] == "const" and "static" in a[1]:
                    out.append(("static", a[1]["static"] + ": " + body["crate"].tystr(a[1]["ty"]), ln))
    return out


class CallGraph:
    def __init__(self, p):
        self.p = p
        self.bodies = p.bodies
        self.impl_methods = {}
        for c in p.crates:
            for im in c.impls:
                for name, path in (im.get("items") or {}).items():
                    self.impl_methods.setdefault((im.get("trait"), name), []).append(path)
        self.refs = {b: refs(body) for b, body in p.bodies.items()}
        self.edges = {}
        self.ext = {}
        for b, rs in self.refs.items():
            es, xs = [], []
            for r in rs:
                k = r[0]
                if k == "closure":
                    es.append((r[1], r[2]))
                elif k in ("call", "fnval", "constitem"):
                    for t in self.targets(r[1]):
                        if t in self.bodies:
                            es.append((t, r[2]))
                        else:
                            xs.append((t, r[2], r))
                elif k == "static":
                    xs.append(("static " + str(r[1]), r[2], r))
            self.edges[b] = es
            self.ext[b] = xs

    def targets(self, f):
        out = []
        res = f.get("res")
        for q in (res, f.get("fwd")):
            if q:
                out.append(q["path"])
        if not res:
            out.append(f["path"])
            # unresolved trait method: every implementation in the workspace
            tr, _, name = f["path"].rpartition("::")
            for (t, n), ps in self.impl_methods.items():
                if n == name and t == tr:
                    out += ps
        return out

    def reach(self, roots):
        """{function: (caller, line)}"""
        seen = {r: None for r in roots if r in self.bodies}
        work = list(seen)
        while work:
            f = work.pop()
            for g, ln in self.edges.get(f, ()):
                if g not in seen:
                    seen[g] = (f, ln)
                    work.append(g)
        return seen

    def path(self, seen, f):
        out = [f]
        while seen.get(f):
            f = seen[f][0]
            out.append(f)
        return " <- ".join(out)
