"""Builds the rustc driver and extracts the facts about /repo's current working tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from facts import CRATES, Facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
if REPO != "/repo":   # experiments on a copy never disturb the results about /repo
    BUILD = os.path.join(BUILD, "alt" + REPO.replace("/", "-"))
ENGINE = os.path.join(VERIF, "engine")


class BuildError(Exception):
    pass


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_files():
    out = []
    for top in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "rust-toolchain", ".cargo", "crates"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if x not in ("target", "node_modules", ".git", "__pycache__")]
            out += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
    return out


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "driver-" + digest([src]), "mcfacts")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTC", "CARGO_", "RUSTFLAGS"))}
        p = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2024", src, "-o", out + ".tmp"],
                           capture_output=True, text=True, env=env)
        if p.returncode:
            raise BuildError("the driver does not build:\n" + p.stderr[-3000:])
        os.rename(out + ".tmp", out)
    return out


def facts():
    """Facts about the current tree; extracted again whenever a source file has changed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = digest(tree_files()) + "-" + digest([drv])[:8]
        d = os.path.join(BUILD, "facts-" + key)
        if not os.path.exists(os.path.join(d, "ok")):
            for old in glob.glob(os.path.join(BUILD, "facts-*")):
                shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d)
            tgt = os.path.join(BUILD, "target")
            for fp in glob.glob(os.path.join(tgt, "release", ".fingerprint", "math*")) + glob.glob(os.path.join(tgt, "release", "build", "math*")):
                shutil.rmtree(fp, ignore_errors=True)
            env = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTC", "CARGO_", "RUSTFLAGS"))}
            env.update(LD_LIBRARY_PATH=sysroot() + "/lib", RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true",
                       CARGO_TARGET_DIR=tgt, FACTS_OUT=d, RUSTC_WORKSPACE_WRAPPER=drv)
            py = "/opt/vp/pyvenv/bin/python"
            env["PYO3_PYTHON"] = py if os.path.exists(py) else sys.executable
            p = subprocess.run(["cargo", "check", "--offline", "--workspace", "--all-features", "--release"],
                               cwd=REPO, env=env, capture_output=True, text=True)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(d, c + ".json"))]
            if p.returncode or missing:
                shutil.rmtree(d, ignore_errors=True)
                raise BuildError("cargo check failed (missing facts: %s)\n%s" % (missing, p.stderr[-4000:]))
            with open(os.path.join(d, "ok"), "w") as f:
                f.write(key)
        F = Facts(d)
        F.key = key
    return F


def cached(F, name, compute, extra=()):
    """Result of an analysis of these facts by the present engine, shared between checks."""
    ek = digest([p for p in glob.glob(os.path.join(ENGINE, "*.py"))])
    p = os.path.join(BUILD, "cache-%s-%s-%s.json" % (name, F.key, ek[:10]))
    with open(os.path.join(BUILD, "lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(p):
            with open(p) as f:
                return json.load(f)
        for old in glob.glob(os.path.join(BUILD, "cache-%s-*.json" % name)):
            os.unlink(old)
        r = compute()
        with open(p + ".tmp", "w") as f:
            json.dump(r, f)
        os.rename(p + ".tmp", p)
        with open(p) as f:
            return json.load(f)
