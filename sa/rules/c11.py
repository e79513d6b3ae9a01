from cg import *

RULE = ("effect analysis over the call graph (constant branches pruned): no function reachable from the library's public functions and trait impls may call an I/O, process, "
        "environment, clock, thread or randomness primitive, or touch a mutable static / hash-ordered container")

DENY = [
    (re.compile(r"^std::io::stdio::(_print|_eprint|stdout|stderr|stdin)"), "console I/O"),
    (re.compile(r"^(<)?std::io::(?!error)"), "I/O"),
    (re.compile(r"^(<)?std::fs::"), "file system"),
    (re.compile(r"^(<)?std::net::"), "network"),
    (re.compile(r"^(<)?std::os::"), "operating system"),
    (re.compile(r"^(<)?std::process::"), "process"),
    (re.compile(r"^(<)?std::env::"), "environment"),
    (re.compile(r"^(<)?std::time::"), "clock"),
    (re.compile(r"^(<)?std::thread::"), "threads"),
    (re.compile(r"RandomState|std::collections::hash::|std::hash::random"), "hash-ordered container"),
    (re.compile(r"^(<)?(rand|getrandom|fastrand)::"), "randomness"),
]
MUTSTATIC = re.compile(r": \*mut |Mutex|RwLock|RefCell|Cell<|Atomic|OnceCell|Lazy")


def effects(g, roots, r, key, where, allow=()):
    seen = g.reach(roots)
    n = 0
    for f in sorted(seen):
        for t, ln, ref in g.ext[f]:
            n += 1
            for rx, what in DENY:
                if rx.search(t) and not any(a.search(t) for a in allow):
                    body = g.bodies[f]
                    r.bad("%s/%s@%s" % (key, what, f.split("::{closure")[0]), "%s is called at %s:%s, reachable by %s" % (t, body["file"], ln, g.path(seen, f)), "%s:%s" % (body["file"], ln))
    return seen, n


def run(r):
    p = prog()
    g = CallGraph(p)
    roots = [b for b, d in p.lib.bodies.items() if d["reachable"] or b.startswith("<") or "<impl " in b]
    r.floor("root functions", len(roots), 100)
    seen, n = effects(g, roots, r, "effect", "doctor-syn/src")
    r.saw("functions reached", len(seen))
    r.saw("external calls inspected", n)
    r.floor("external calls", n, 400)
    for f in sorted(seen):
        b = g.bodies[f]
        own = [x for x in r.obs if x[1] == "bad" and f.split("::{closure")[0] in x[0]]
        if not own:
            r.ok("fn/" + f, "%s:%s: no effectful call" % (b["file"], b["line"]), b["file"])
    for f in sorted(seen):
        for ref in g.refs[f]:
            if ref[0] == "static" and MUTSTATIC.search(str(ref[1])):
                r.bad("static@" + f, "mutable static %s" % (ref[1],), g.bodies[f]["file"])
    for what in ("doctor_syn::expression::Expression::eval", "doctor_syn::expression::Expression::approx", "doctor_syn::expression::Expression::paren", "doctor_syn::codegen::c::"):
        r.anchor(what, any(f.startswith(what) for f in seen))
    r.assume("the dependencies (syn, quote, bigdecimal, ...) and std functions outside the listed effect families are pure")
