"""Builds the MIR dumper and dumps the current tree of /repo (once per process)."""
import fcntl, os, subprocess, sys, shutil, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
            e.pop(k)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    e = env()
    d = os.path.join(VERIF, "driver")
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("building the MIR dumper failed:\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "driver", "release", "mirdump")


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")) or f in ("Cargo.lock",):
                files.append(os.path.join(root, f))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24], files


def dump():
    """-> directory with doctor_syn.lib.json and libmgen.bin.json for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return dump_locked()


def dump_locked():
    drv = build_driver()
    hsh, _ = repo_hash()
    hsh += "-" + hashlib.sha256(open(drv, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "mir", hsh)
    want = [os.path.join(out, "doctor_syn.lib.json"), os.path.join(out, "libmgen.bin.json")]
    if all(os.path.exists(w) for w in want):
        return out
    for old in sorted(glob.glob(os.path.join(BUILD, "mir", "*")), key=os.path.getmtime)[:-16]:
        shutil.rmtree(old, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    e = env()
    tgt = os.path.join(BUILD, "target")
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = "-Awarnings"
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["MIRDUMP_OUT"] = tmp
    # cargo's freshness cache would skip the wrapper
    for p in ("doctor-syn", "libmgen", "doctor_syn"):
        for q in glob.glob(os.path.join(tgt, "debug", ".fingerprint", p + "-*")):
            shutil.rmtree(q, ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, "debug", "build", p), ignore_errors=True)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-p", "doctor-syn", "-p", "libmgen"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("cargo check of /repo failed:\n" + r.stdout[-4000:])
    if not all(os.path.exists(os.path.join(tmp, os.path.basename(w))) for w in want):
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("the compiler wrapper was not run for every crate:\n" + r.stdout[-2000:])
    os.rename(tmp, out)
    return out


if __name__ == "__main__":
    print(dump())
