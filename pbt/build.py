"""Builds pa2 (from /repo's working tree), the driver and the helper into /verif/.build."""
import fcntl, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PA2_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME") or "/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET,
             CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode("utf8", "replace")[-6000:])
        sys.stdout.write("\nBUILD FAILED: %s\n" % " ".join(cmd))
        sys.exit(3)


def build(driver=True, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = tree_hash([os.path.join(REPO, x) for x in ("src", "Cargo.toml", "Cargo.lock")])
        stamp = os.path.join(BUILD, "stamp")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            # Decide by content, never by modification times, that the crate has to be compiled again
            fp = os.path.join(TARGET, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("pipeawesome2-") or d.startswith("pa2driver-"):
                        shutil.rmtree(os.path.join(fp, d))
            if os.path.exists(stamp):
                os.remove(stamp)
        run(["cargo", "build", "--offline", "--locked", "--bin", "pa2"], REPO)
        if driver:
            run(["cargo", "build", "--offline", "--locked"], os.path.join(VERIF, "driver"))
        with open(stamp, "w") as f:
            f.write(want)
        hp = os.path.join(BUILD, "hp")
        src = os.path.join(VERIF, "helper", "hp.rs")
        hh = tree_hash([src])
        hs = os.path.join(BUILD, "hp.stamp")
        if not os.path.exists(hp) or not os.path.exists(hs) or open(hs).read() != hh:
            run(["rustc", "-O", "-C", "debuginfo=0", "-C", "strip=symbols", src, "-o", hp], VERIF)
            with open(hs, "w") as f:
                f.write(hh)
    return {"pa2": os.path.join(TARGET, "debug", "pa2"), "driver": os.path.join(TARGET, "debug", "pa2driver"), "hp": hp, "hash": want}


if __name__ == "__main__":
    print(build(quiet=False))
