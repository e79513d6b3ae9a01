from rules.l07 import *

EDITS = re.compile(r"::(trim_(start|end|left|right)?_?matches|strip_(suffix|prefix)|replacen?|to_(ascii_)?(upper|lower)case|repeat)$")


def textedit(t):
    """a call in the term that changes the text it is given"""
    return sub(t, lambda y: y.op == "call" and isinstance(y.a[0], str) and EDITS.search(y.a[0]) is not None)


RULE = ("path summary of the driver: every path through main is abstractly interpreted with the parsed options as unknowns; on each path the decided option comparisons are compared with the back end called, "
        "the naming options handed to it, and the single write of its text (file when --output is given, standard output otherwise); unknown languages and option errors must write nothing there")

W = "libmgen/src/main.rs"


def num(t, env):
    """value of a closed integer term, or None"""
    if t in env:
        return env[t]
    if isT(t, "int"):
        return t.a[0]
    nm = t.a[0] if t.op == "call" else t.op
    xs = t.a[1] if t.op == "call" else t.a
    if not isinstance(xs, tuple) or not isinstance(nm, str):
        return None
    if nm in ("as", "cast") and xs and isinstance(xs[0], T):
        return num(xs[0], env)
    vs = [num(x, env) if isinstance(x, T) else None for x in xs]
    if None in vs or not vs:
        return None
    f = {"max": max, "min": min, "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a // b if b else None,
         "and": lambda a, b: a & b, "or": lambda a, b: a | b}.get(nm.split("::")[-1])
    try:
        return f(*vs) if f else None
    except TypeError:
        return None


def run(r):
    p = prog()
    try:
        ip, ls = mainrun(p)
    except (NoGen, Undecided) as x:
        r.undecided("driver", str(x)[:300], W)
        ls = []
        ip = None
    langs = {}
    n = 0
    for l in ls:
        facts = {}
        for f in l.st.order:
            if f[0] == "b" and isinstance(f[1], T):
                facts[f[1]] = f[2]
        lang = None
        neg = set()
        strange = False
        for t, v in facts.items():
            if t.op == "eq" and opt("language") in t.a:
                o = next((x for x in t.a if isT(x, "str")), None)
                if o is None:
                    strange = True
                elif v:
                    lang = o.a[0]
                else:
                    neg.add(o.a[0])
            elif has(t, opt("language")):
                strange = True
        bits = bitsof(l.st.order) or None
        writes = []
        for x in l.st.log:
            if x[0] == "write_all":
                writes.append(("stdout" if "tdout" in str(x[1]) else str(x[1]), x[2], x))
            elif x[0] == "call" and str(x[1]).endswith("fs::write"):
                writes.append(("file", x[2].a[0][1] if isinstance(x[2], T) and x[2].op == "tuple" else x[2], x))
            elif x[0] == "stdout":
                writes.append(("print", x[1], x))
        said = any(x[0] == "stderr" for x in l.st.log)
        selected = any(sub(f, lambda t: t.op == "selected") is not None for f in list(l.st.order) + [x[1:] for x in l.st.log])
        text = [x for x in writes if x[0] != "print"]
        prints = [x for x in writes if x[0] == "print"]
        if not neg and lang is None:
            # nothing was generated: help / empty request
            if text:
                r.undecided("early", "text is written although the language was not looked at", W)
            elif l.kind == "return":
                hl = next((v for t, v in facts.items() if t.op == "eq" and opt("functions") in t.a and any(isT(y, "str") for y in t.a)), None)
                em = next((v for t, v in facts.items() if t.op == "eq" and T("len", opt("functions")) in t.a), None)
                if em and not hl:
                    r.check("empty", said and not prints, "an empty request %s" % ("prints to the standard output" if prints else "says nothing"), W)
                elif hl:
                    r.check("help", bool(prints) or said, "the list of functions is not printed on request", W)
            continue
        n += 1
        if prints:
            r.bad("stdout", "%s is printed to the standard output together with generated code" % show(prints[0][1])[:100], W)
        if l.kind != "return" and not (isT(l.val, "exit") and lang is None):
            continue
        if l.kind != "return" and bitsof(l.st.order) == 0:
            continue
        k = lang if lang is not None else "other"
        if strange:
            r.undecided("lang/" + k, "the language is tested in an unrecognised way", W)
            continue
        langs.setdefault(k, 0)
        langs[k] += 1
        if lang not in ("rust", "c", "portable-simd"):
            if lang is None and {"rust", "c", "portable-simd"} - neg:
                for m in {"rust", "c", "portable-simd"} - neg:
                    r.bad("lang/" + m, "the language %s is not offered: it is rejected like an unknown one" % m, W)
                continue
            if lang is None:
                r.check("lang/unknown", not text, "an unknown language still writes output", W)
                r.check("lang/unknown/message", said, "an unknown language is rejected without a message", W)
            continue
        if not text:
            r.bad("write/" + k, "the generated %s text is not written on the path %s" % (k, [show(t)[:60] + "=" + str(v) for t, v in facts.items()][-4:]), W)
            continue
        if len(text) > 1:
            r.bad("write/" + k, "the generated text is written %d times" % len(text), W)
        dest, val, raw = text[0]
        out = next((f[2] for f in l.st.order if f[0] == "is" and (has(f[1], opt("output")) or "output" in show(f[1]))), None)
        if out is None:
            r.undecided("dest/" + k, "whether an output file was given is not known on the path", W)
        else:
            r.check("dest/%s/%s" % (k, out), (dest == "file") == (out == "Some"), "the text goes to %s when an output file is %s" % (dest, "given" if out == "Some" else "not given"), W, dest)
            if out == "Some":
                r.check("dest/path", sub(raw[1:], lambda t: t == project(opt("output"), ("f", "Some", "0"))) is not None, "the file written is not the one given by --output", W)
        # which back end
        # the text is the outermost back-end call
        v = val if isinstance(val, T) else T("x", val)
        o = sub(v, lambda t: t.op == "lib")
        if o is None:
            r.undecided("back/" + k, "the text written is not recognised: " + show(v)[:200], W)
            continue
        names = []
        def col(t):
            if isinstance(t, tuple):
                for x in t:
                    col(x)
            elif isinstance(t, T):
                if t.op == "lib":
                    names.append(t)
                col(t.a)
        col(v)
        ns = [x.a[0].split("codegen::")[-1] for x in names]
        want = {"rust": ["rust::"], "c": ["c::"], "portable-simd": ["rust::", "portable_simd::"]}[k]
        ns = [x for x in ns if not x.endswith("default")]
        ok = len(ns) == len(want) and all(a.startswith(b) for a, b in zip(ns, want))
        r.check("back/" + k, ok, "language %s is generated by %s" % (k, " of ".join(ns) or "nothing"), W, " of ".join(ns))
        if not ok:
            continue
        opts = sub(names[-1].a[1], lambda t: t.op == "ctor" and t.a[0].endswith("Options"))
        if k == "rust":
            continue
        if opts is None:
            r.undecided("options/" + k, "the options handed to the back end are not recognised", W)
            continue
        d = dict(opts.a[2])
        if k == "portable-simd":
            if "num_bits" in d:
                v_ = d["num_bits"]
                vals = {b_: num(v_, {opt("num_bits"): b_}) for b_ in ((bits,) if bits else (32, 64))}
                if v_ == opt("num_bits") or all(vals[b_] == b_ for b_ in vals):
                    r.ok("simd/bits", show(v_), W)
                elif any(x is not None and x != b_ for b_, x in vals.items()):
                    b_ = next(b_ for b_, x in vals.items() if x is not None and x != b_)
                    r.bad("simd/bits", "with %d bits requested the SIMD back end is told %d" % (b_, vals[b_]), W)
                elif not has(v_, opt("num_bits")) and not bits:
                    r.bad("simd/bits", "the SIMD back end is not given the width of the command line but " + show(v_), W)
                else:
                    r.undecided("simd/bits", "the width handed to the SIMD back end is " + show(v_)[:200], W)
            continue
        pre, suf = d.get("prefix"), d.get("float_suffix")
        fp = opt("function_prefix")
        given = next((not v for t, v in facts.items() if t.op == "eq" and T("len", fp) in t.a and INT(0, "usize") in t.a), None)
        if given is None:
            given = next((not v for t, v in facts.items() if t.op == "eq" and fp in t.a and STR("") in t.a), None)
        for nm, val2, exp in (("prefix", pre, {32: "ds32_", 64: "ds64_"}), ("float_suffix", suf, {32: "f", 64: ""})):
            if val2 is None:
                r.undecided("c/" + nm, "no option " + nm, W)
                continue
            s = val2.a[0] if isT(val2, "str") else None
            if nm == "prefix" and given is True:
                ed = textedit(val2)
                if ed is not None and has(ed, fp):
                    r.bad("c/prefix/given", "the prefix of the command line is edited before it is used: " + show(val2)[:150], W)
                elif has(val2, fp):
                    r.ok("c/prefix/given", "the prefix of the command line", W)
                elif s is not None:
                    r.bad("c/prefix/given", "--function-prefix is ignored: the prefix is %r" % s, W)
                else:
                    r.undecided("c/prefix/given", show(val2)[:200], W)
                continue
            if nm == "prefix" and given is None and not has(val2, fp) and s is not None:
                r.bad("c/prefix/given", "--function-prefix is ignored: the prefix is %r whatever it is" % s, W)
            if s is None:
                if isT(val2, "cat") and len(val2.a[0]) == 1 and isT(val2.a[0][0], "str"):
                    s = val2.a[0][0].a[0]
            if s is None or bits is None:
                ed = textedit(val2)
                if ed is not None and bits is not None and exp[bits] and sub(ed, lambda y: y == STR(exp[bits])) is not None:
                    r.bad("c/" + nm, "at %d bits the C %s is %r with text taken off or replaced: %s" % (bits, nm, exp[bits], show(val2)[:150]), W)
                elif s is not None and bits is None:
                    r.bad("c/" + nm, "the C %s does not depend on the width: %r" % (nm, s), W)
                else:
                    r.undecided("c/%s/%s" % (nm, bits), "the %s is %s" % (nm, show(val2)[:200]), W)
            else:
                r.check("c/%s/%d" % (nm, bits), s == exp[bits], "at %d bits the C %s is %r" % (bits, nm, s), W, repr(s))
    r.saw("driver paths", n)
    for k in ("rust", "c", "portable-simd", "other"):
        if ls and k not in langs:
            r.undecided("lang/" + k, "no path for language %s recognised" % k, W)
    # what the configuration tells the generators
    for m, exp in (("num_bits", None), ("num_digits", None), ("number_type", "number_type"), ("generate_tests", "generate_tests"), ("generate_plots", "generate_plots"), ("output", "output"), ("language", "language")):
        f = [x for x in p.bin.bodies if x.endswith("Config::" + m)]
        if not f:
            r.undecided("config/" + m, "no Config::" + m, "libmgen/src/config.rs")
            continue
        b = p.bodies[f[0]]
        w = "%s:%s %s" % (b["file"], b["line"], f[0])
        for bits in BITS:
            try:
                cfg = gen().config(bits)
                ip = p.interp()
                st = St()
                lv = [x for x in ip.run_body(b, [ip.ref_to(st, cfg)], st) if x.kind == "return"]
            except (NoGen, Undecided) as x:
                r.undecided("config/" + m, str(x)[:200], w)
                continue
            for x in lv:
                v = ip.resolve(x.st, x.val)
                if m == "num_bits":
                    r.check("config/num_bits/%d" % bits, v == INT(bits, "usize"), "the generators see %s bits instead of %d" % (show(v), bits), w)
                elif m == "num_digits":
                    need = 9 if bits == 32 else 17
                    if isT(v, "int"):
                        r.check("config/num_digits/%d" % bits, v.a[0] >= need, "constants of %d-bit code are computed with %d digits: fewer than the %d that identify a value" % (bits, v.a[0], need), w, "%d digits" % v.a[0])
                    else:
                        r.undecided("config/num_digits/%d" % bits, show(v)[:100], w)
                else:
                    o = T("sym", "opt." + exp)
                    if has(v, o):
                        r.ok("config/" + m, show(v)[:80], w)
                    elif sub(v, lambda t: t.op == "sym" and str(t.a[0]).startswith("opt.")) is not None or v.op in ("bool", "str"):
                        r.bad("config/" + m, "the option --%s is not passed on: %s" % (exp.replace("_", "-"), show(v)[:100]), w)
                    else:
                        r.undecided("config/" + m, show(v)[:100], w)
