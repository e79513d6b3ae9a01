#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seedspec.py: patch.diff, meta.json, demo.sh (+ main.rs).
   seedgen.py [ids...]      write them
   seedgen.py --try ids...  also: apply to /repo, build + tests, demo (both ways), the property's check; undo"""
import os, sys, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

DEMO_RS = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
H="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
D="$(mktemp -d)"
trap 'rm -r "$D"' EXIT
mkdir -p "$D/src"
cp "$H/main.rs" "$D/src/main.rs"
cp "$R/Cargo.lock" "$D/Cargo.lock" 2>/dev/null
cat > "$D/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
doctor-syn = { path = "$R/doctor-syn" }
E
cd "$D" && CARGO_TARGET_DIR="$D/target" cargo build --offline -q || exit 3
timeout 120 "$D/target/debug/demo"
'''

DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
H="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
D="$(mktemp -d)"
trap 'rm -r "$D"' EXIT
cargo build --offline -q --workspace || { sleep 3; cargo build --offline -q --workspace; } || exit 3
GEN="$(find "$R/target" -maxdepth 2 -name libmgen -type f | head -1)"
[ -n "$GEN" ] || GEN="${CARGO_TARGET_DIR:-$R/target}/debug/libmgen"
cd "$D"
'''


def S(id, prop, needs, breaks, edits, main=None, sh=None):
    SEEDS[id] = (prop, needs, breaks, edits, main, sh)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def write(i):
    prop, needs, breaks, edits, main, shs = SEEDS[i]
    W = "/tmp/seedrepo"
    if not os.path.exists(W):
        sh("git clone -q /repo %s" % W)
    sh("cd %s && git fetch -q origin && git checkout -q -f $(git -C /repo rev-parse HEAD)" % W)
    for f, *e in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        for a, b in zip(e[::2], e[1::2]):
            if s.count(a) != 1:
                print(i, "pattern occurs %d times in %s: %r" % (s.count(a), f, a))
                sh("cd %s && git checkout -q -f ." % W)
                return False
            s = s.replace(a, b)
        open(p, "w").write(s)
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    diff = sh("cd %s && git diff" % W).stdout
    sh("cd %s && git checkout -q -f ." % W)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if main is not None:
        open(d + "/main.rs", "w").write(main.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_RS)
    else:
        open(d + "/demo.sh", "w").write(DEMO_SH + shs.lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    return True


def trial(i, tests=True):
    prop = SEEDS[i][0]
    d = os.path.join(V, "seeded", i)
    if sh("git -C /repo status --porcelain").stdout.strip():
        print("repo dirty")
        return
    sh("bash /opt/vp/build.sh")
    c = sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
    res = ["clean demo %d" % c.returncode]
    if c.returncode:
        print((c.stdout + c.stderr)[-800:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        b = sh("bash /opt/vp/build.sh")
        res.append("build %d" % b.returncode)
        c = sh("cd /repo && timeout 300 bash %s/demo.sh" % d)
        res.append("patched demo %d" % c.returncode)
        if c.returncode == 0:
            print(c.stdout[-600:])
        if tests:
            t = sh("bash /tmp/rt.sh")
            res.append(t.stdout.strip()[:200])
        k = sh("python3 %s/check.py %s" % (V, prop))
        res.append("CAUGHT" if k.returncode == 1 and "VIOLATION property=" + prop in k.stdout else "MISSED(%d)" % k.returncode)
    finally:
        sh("git -C /repo checkout -- .")
    print(i, prop, "; ".join(res), flush=True)


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(V, "tools"))
    sys.modules["seedgen"] = sys.modules["__main__"]
    import seedspec

    av = sys.argv[1:]
    t = "--try" in av
    nt = "--notest" in av
    ids = [x for x in av if not x.startswith("-")] or sorted(SEEDS)
    for i in ids:
        if write(i) and t:
            trial(i, not nt)
    if t:
        sh("bash /opt/vp/build.sh")
