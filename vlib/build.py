"""Builds everything a check needs: krill-sync from /repo's working tree, the
monitor library. Safe to call concurrently."""
import fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KS_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
KS = os.path.join(TARGET, "debug", "krill-sync")
SHIM = os.path.join(BUILD, "ksmon.so")


class BuildError(Exception):
    pass


def cargo_env(target):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST", "KSMON")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    return env


def _run(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, r.stdout[-6000:]))


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, dn, fn in os.walk(p):
                dn.sort()
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def _stamp_ok(stamp, want, out):
    try:
        with open(stamp) as f:
            return f.read() == want and os.path.exists(out)
    except OSError:
        return False


def build_krill():
    """The binary under test. Rebuilt whenever the content of the sources differs from
    that of the last build (cargo's own time stamps are not trusted)."""
    want = tree_hash([os.path.join(REPO, n) for n in ("src", "Cargo.toml", "Cargo.lock", "build.rs") if os.path.exists(os.path.join(REPO, n))])
    stamp = os.path.join(BUILD, "krill.stamp")
    if _stamp_ok(stamp, want, KS):
        return
    env = cargo_env(TARGET)
    if os.path.exists(stamp):
        os.unlink(stamp)
    if os.path.isdir(TARGET):
        _run(["cargo", "clean", "--offline", "--locked", "-p", "krill-sync"], REPO, env, "cargo clean")
    _run(["cargo", "build", "--bin", "krill-sync", "--locked", "--offline"], REPO, env, "build of krill-sync")
    with open(stamp, "w") as f:
        f.write(want)


def build_shim():
    src = os.path.join(VERIF, "shim", "ksmon.c")
    want = tree_hash([src])
    stamp = os.path.join(BUILD, "shim.stamp")
    if _stamp_ok(stamp, want, SHIM):
        return
    _run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-Wall", "-Wno-nonnull-compare", "-o", SHIM + ".new", src, "-ldl", "-lpthread"], VERIF, dict(os.environ), "build of the monitor")
    os.rename(SHIM + ".new", SHIM)
    with open(stamp, "w") as f:
        f.write(want)


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_shim()
        build_krill()


if __name__ == "__main__":
    try:
        build_all()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("built")
