from itertools import product

from rules.l09 import *

RULE = ("path summary of the driver with the parsed options unknown: the comparisons every path through main decided on the width, the number format and the language are evaluated at the documented values, "
        "at values next to them and at values next to every constant they compare with (restricted to what the option parser's construction admits); a path that writes generated text must be possible only with "
        "documented values of all three and end in success, a path possible only with an undocumented value must write none, say so and end with a failure status, a failed write must not end in success, no path "
        "may refuse documented values, and the parser's defaults must be documented values")

VALUES = {"num_bits": (32, 64), "number_type": ("decimal", "hex"), "language": ("rust", "c", "portable-simd")}
KNOWNLANG = VALUES["language"] + ("help",)


UNK = object()
U64 = (1 << 64) - 1
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def ev(t, env):
    """a term over the options at concrete option values; UNK when it depends on anything else"""
    if not isinstance(t, T):
        return t if isinstance(t, (int, str, bool)) else UNK
    if t in env:
        return env[t]
    if t.op in ("int", "str", "bool"):
        return t.a[0]
    if t.op == "char":
        return str(t.a[0])
    if t.op in ("seq", "arr"):
        xs = [ev(x, env) for x in t.a[0]]
        return UNK if any(x is UNK for x in xs) else tuple(xs)
    op, args = t.op, t.a
    if op == "call" and len(t.a) > 1 and isinstance(t.a[1], tuple):
        op, args = str(t.a[0]).split("::")[-1], t.a[1]
    if op == "op" and isinstance(t.a[0], str):
        op, args = t.a[0].lower(), t.a[1:]
    if op == "as" and len(t.a) == 2:
        x, w = ev(t.a[0], env), WIDTH.get(show(t.a[1]).strip("'") if isinstance(t.a[1], T) else str(t.a[1]))
        return x & ((1 << w) - 1) if w and isinstance(x, int) and not isinstance(x, bool) else UNK
    if op in ("anyof", "allof") and len(t.a) == 3:
        xs = ev(t.a[0], env)
        if not isinstance(xs, tuple):
            return UNK
        ys = [ev(t.a[2], {**env, t.a[1]: x}) for x in xs]
        if (op == "anyof") in ys:
            return op == "anyof"
        return UNK if any(not isinstance(y, bool) for y in ys) else op == "allof"
    xs = [ev(x, env) for x in args if isinstance(x, (T, int, str, bool))]
    if any(x is UNK for x in xs):
        if op in ("and", "or") and any(x is (op == "or") for x in xs):
            return op == "or"
        return UNK
    n = len(xs)
    try:
        if n == 1:
            x = xs[0]
            if op == "not":
                return (not x) if isinstance(x, bool) else (x ^ U64 if isinstance(x, int) else UNK)
            if isinstance(x, str):
                if op in ("as_str", "deref", "as_ref", "to_string", "clone", "borrow", "to_owned", "as_bytes", "into"):
                    return x
                if op in ("len",):
                    return len(x.encode())
                if op == "is_empty":
                    return not x
                if op in ("to_lowercase", "to_ascii_lowercase"):
                    return x.lower()
                if op in ("to_uppercase", "to_ascii_uppercase"):
                    return x.upper()
                if op == "trim":
                    return x.strip()
            if op == "is_power_of_two" and isinstance(x, int):
                return x > 0 and x & (x - 1) == 0
            if op in ("clone", "deref", "into"):
                return x
        if n == 2:
            x, y = xs
            num = isinstance(x, int) and isinstance(y, int)
            if op == "eq":
                return x == y if type(x) is type(y) else UNK
            if op == "ne":
                return x != y if type(x) is type(y) else UNK
            if num and op in ("lt", "le", "gt", "ge"):
                return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
            if num and op in ("rem", "mod") and y:
                return x % y
            if num and op == "div" and y:
                return x // y
            if num and op in ("add", "mul", "and", "bitand", "or", "bitor", "xor", "shr", "shl", "sub"):
                v = {"add": x + y, "mul": x * y, "and": x & y, "bitand": x & y, "or": x | y, "bitor": x | y, "xor": x ^ y, "shr": x >> (y & 63), "shl": x << (y & 63), "sub": x - y}[op]
                return v if 0 <= v <= U64 else UNK
            if isinstance(x, str) and isinstance(y, str):
                if op == "starts_with":
                    return x.startswith(y)
                if op == "ends_with":
                    return x.endswith(y)
                if op == "contains":
                    return y in x
                if op == "split" and y:
                    return tuple(x.split(y))
                if op == "eq_ignore_ascii_case":
                    return x.lower() == y.lower()
            if op == "contains" and isinstance(x, tuple):
                return y in x
            if op == "contains" and isinstance(y, tuple):
                return x in y
    except TypeError:
        pass
    return UNK


DONE = ("write", "write_all", "parse2", "flush", "write_fmt")
NAMES = {opt(k): k for k in VALUES}


def mentions(f):
    """the options a fact decides on"""
    if f[0] == "is" and isinstance(f[1], T) and (f[1].op in DONE or f[1].op == "call" and str(f[1].a[0]).split("::")[-1] in DONE):
        return ()
    return tuple(k for o, k in NAMES.items() if any(isinstance(x, T) and has(x, o) for x in f[1:]))


def consts(order):
    ints, strs = set(), set()
    def walk(t):
        if isinstance(t, T):
            if t.op == "int" and isinstance(t.a[0], int):
                ints.add(t.a[0])
            elif t.op == "str":
                strs.add(t.a[0])
            else:
                walk(t.a)
        elif isinstance(t, (tuple, list)):
            for x in t:
                walk(x)
    for f in order:
        if mentions(f):
            walk(f[1:])
    return ints, strs


def samples(order, adm):
    ints, strs = consts(order)
    ns = {0, 1, 8, 16, 32, 33, 48, 63, 64, 65, 80, 96, 128, 256, 288, 320, 4096, 65568, (1 << 32) + 64} | {v for c in ints for v in (c - 1, c, c + 1) if 0 <= v <= U64}
    ss = {"", "x", "binary", "octal"} | {v for c in strs | set(VALUES["number_type"]) | set(VALUES["language"]) for v in (c, c + "x", "x" + c, c[:-1], c.upper(), " " + c, c + ",")}
    res = {"num_bits": sorted(ns), "number_type": sorted(ss), "language": sorted(ss | {"help", "fortran", "c++", "python"})}
    for k, vs in adm.items():
        if vs is not None and k in res:
            res[k] = sorted(int(v) if k == "num_bits" else v for v in vs)
    return res


def decide(order, smp):
    """option -> sampled values with which the path is possible; options left open by a comparison that is not recognised"""
    left, open_, joint = {k: list(v) for k, v in smp.items()}, set(), []
    for f in order:
        ks = mentions(f)
        if not ks:
            continue
        if f[0] != "b" or not isinstance(f[1], T):
            open_ |= set(ks)
            continue
        if len(ks) > 1:
            joint.append(f)
            continue
        k = ks[0]
        vs = [(v, ev(f[1], {opt(k): v})) for v in left[k]]
        if any(not isinstance(x, bool) for _, x in vs):
            open_.add(k)
        left[k] = [v for v, x in vs if not isinstance(x, bool) or x == f[2]]
    for f in joint:
        ks = mentions(f)
        poss = {k: set() for k in ks}
        for vs in product(*[left[k] for k in ks]):
            x = ev(f[1], {opt(k): v for k, v in zip(ks, vs)})
            if not isinstance(x, bool):
                open_ |= set(ks)
                x = f[2]
            if x == f[2]:
                for k, v in zip(ks, vs):
                    poss[k].add(v)
        for k in ks:
            left[k] = [v for v in left[k] if v in poss[k]]
    return left, open_


def plain(p, clo):
    """the validator calls nothing of the crate's own: the derive's standard parse of the field's type"""
    name = str(clo.a[0])
    for n, b in p.bodies.items():
        if n != name and not n.startswith(name + "::"):
            continue
        for blk in b["blocks"]:
            if blk["t"] and blk["t"][0] == "call" and isinstance(blk["t"][1], list) and blk["t"][1][0] == "const":
                fn = (blk["t"][1][1] or {}).get("fn") or {}
                if fn.get("local") or (fn.get("res") or {}).get("local"):
                    return False
    return True


def admitted(p):
    """option name -> values the option parser admits: a list, None when not recognised; absent when everything is admitted. And its defaults."""
    res, dflt = {}, {}
    for n in p.bin.bodies:
        if not n.endswith("augment_clap"):
            continue
        b = p.bodies[n]
        try:
            ls = list(p.interp().run_body(b, [T("sym", "app")], St()))
        except (Undecided, RecursionError):
            return {"?": None}, {}
        def walk(t):
            if isinstance(t, tuple):
                for x in t:
                    walk(x)
            elif isinstance(t, T):
                if t.op == "call":
                    m = str(t.a[0]).split("::")[-1]
                    if m in ("possible_values", "possible_value", "validator", "validator_os", "default_value", "default_value_os", "case_insensitive"):
                        nm = sub(t.a[1][:1], lambda y: y.op == "call" and str(y.a[0]).endswith("with_name"))
                        nm = nm and sub(nm.a[1], lambda y: y.op == "str")
                        k = nm.a[0].replace("-", "_") if nm is not None else "?"
                        vs = []
                        def strs(x):
                            if isinstance(x, (tuple, list)):
                                for y in x:
                                    strs(y)
                            elif isT(x, "str"):
                                vs.append(x.a[0])
                            elif isinstance(x, T):
                                strs(x.a)
                        strs(t.a[1][1:])
                        if m.startswith("default"):
                            dflt[k] = vs[0] if len(vs) == 1 else None
                        elif m.startswith("possible"):
                            if k not in res or res[k] == "validator":
                                res[k] = tuple(vs) or None
                        elif m.startswith("validator"):
                            clo = sub(t.a[1][1:], lambda y: y.op == "closure")
                            if clo is None or not plain(p, clo):
                                res.setdefault(k, "validator")
                        else:
                            res[k] = None
                walk(t.a)
        for l in ls:
            walk(l.val)
    return {k: None if v == "validator" else v for k, v in res.items()}, dflt


def code(v):
    """the exit status main's return value stands for; None: not recognised"""
    if isT(v, "conv") and "ExitCode" in str(v.a[0]):
        v = v.a[1]
    if isT(v, "int"):
        return v.a[0]
    s = show(v) if isinstance(v, T) else str(v)
    if isinstance(v, T) and v.op == "ctor":
        return 1 if len(v.a) > 1 and v.a[1] == "Err" else code(v.a[2][0][1]) if v.a[1] == "Ok" and v.a[2] and isT(v.a[2][0][1], "int") else 0
    if "FAILURE" in s or "SUCCESS" in s:
        return int("FAILURE" in s)
    return 0 if v is None or s in ("()", "unit") or isT(v, "tuple") and not v.a[0] else None if isinstance(v, T) and sub(v, lambda t: t.op in ("call", "sym")) is not None else 0


def run(r):
    p = prog()
    r.assume("the option parser (structopt/clap) ends the process with a failure status when it rejects a command line")
    try:
        ip, ls = mainrun(p)
    except (NoGen, Undecided) as x:
        return r.undecided("driver", str(x)[:300], W)
    adm, dflt = admitted(p)
    for k in VALUES:
        if dflt.get(k) is not None:
            r.check("default/" + k, dflt[k] in {str(v) for v in VALUES[k]}, "the default of --%s is %r, which is none of %s" % (k.replace("_", "-"), dflt[k], "/".join(map(str, VALUES[k]))), W, "default %s" % dflt[k])
    n = 0
    for l in ls:
        left, open_ = decide(l.st.order, samples(l.st.order, adm))
        open_ |= {k for k, v in adm.items() if v is None and k in VALUES} | (set(VALUES) if "?" in adm else set())
        if not all(left.values()):
            continue                    # no sampled command line takes this path
        wrote = False
        for x in l.st.log:
            if x[0] == "write_all" or (x[0] == "call" and str(x[1]).endswith("fs::write")) or (x[0] == "stdout" and sub(x[1:], lambda t: t.op == "lib") is not None):
                wrote = True
        failed = any(f[0] == "is" and not mentions(f) and isinstance(f[1], T) and (f[1].op == "write_all" or f[1].op == "call" and str(f[1].a[0]).endswith("fs::write")) and "Err" in [x for x in f[2:] if isinstance(x, str)] for f in l.st.order)
        said = any(x[0] == "stderr" for x in l.st.log) or l.kind == "return" and isT(l.val, "ctor") and len(l.val.a) > 1 and l.val.a[1] == "Err"     # the runtime prints the error
        status = None
        if l.kind == "return":
            status = code(l.val)
        elif isT(l.val, "exit"):
            status = l.val.a[0].a[0] if isT(l.val.a[0], "int") else None
        else:
            continue                    # a panic: no text follows, the status is a failure
        n += 1
        ok = {k: VALUES[k] if k != "language" else KNOWNLANG for k in VALUES}
        bad = {k: next(v for v in left[k] if v not in ok[k]) for k in VALUES if all(v not in ok[k] for v in left[k])}
        if wrote:
            for k in VALUES:
                out = [v for v in left[k] if v not in VALUES[k]]
                name = "--" + k.replace("_", "-")
                if k in open_:
                    r.undecided("text/" + k, "%s is tested, or admitted by the option parser, in a way that is not recognised" % name, W)
                elif out:
                    r.bad("text/" + k, "text is written for %s %r: nothing rejects it" % (name, next((v for v in out if v), out[0])), W)
                else:
                    r.ok("text/%s/%s" % (k, "/".join(map(str, left[k]))), "the path is taken only with %s in %s" % (name, left[k]), W)
            if status is None:
                r.undecided("success", "the status after the text was written is not recognised: " + show(l.val)[:100], W)
            elif failed:
                r.check("lost", status % 256 != 0, "the text could not be written, but the process ends successfully", W, "a failed write ends with status %d" % status)
            else:
                r.check("success", status == 0, "a request that was answered ends with status %d" % status, W, "status 0 after the text")
            continue
        closed = {k: v for k, v in bad.items() if k not in open_}
        if closed:
            k = sorted(closed)[0]
            if status is None:
                r.undecided("reject/" + k, "the status of the rejection is not recognised: " + show(l.val)[:100], W)
            else:
                r.check("reject/" + k, status % 256 != 0, "%s is %r: no text is written, but the process ends successfully" % (k, bad[k]), W, "status %d" % status)
            r.check("reject/%s/said" % k, said, "%s is %r: rejected without a message" % (k, bad[k]), W, "a message on the standard error")
            continue
        if status not in (0, None) and not open_:
            # refused although every decided fact admits valid values
            rest = [f for f in l.st.order if not mentions(f)]
            why = [f for f in rest if not (f[0] == "b" and isinstance(f[1], T) and any(has(f[1], opt(x)) for x in ("debug", "functions", "exclude", "output", "generate_tests", "generate_plots", "function_prefix"))
                   and sub(f[1], lambda t: t.op in ("selected", "call")) is None)]
            empty = any(f[0] == "b" and f[2] and isT(f[1], "eq") and has(f[1], opt("functions")) for f in rest)
            on = [k for k in VALUES if any(k in mentions(f) for f in l.st.order)]
            if not why and not empty and on:
                r.bad("refused", "a valid request is refused: " + ", ".join("--%s %s" % (k.replace("_", "-"), next(v for v in left[k] if v in ok[k])) for k in on), W)
            elif why:
                r.undecided("refused", "a failure status on %s" % show(T("x", tuple(why)))[:200], W)
        elif status == 0 and not open_:
            valid = [v for v in left["language"] if v in VALUES["language"]]
            on = any("language" in mentions(f) for f in l.st.order)
            if on and valid and sub(tuple(l.st.order), lambda t: t.op == "selected") is None:
                r.bad("silent", "a request with language %s ends successfully without any text" % valid[0], W)
    r.saw("driver paths", n)
    r.floor("driver paths", n, 4)
