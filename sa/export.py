"""Builds the exporter if needed and exports the MIR of /repo's current working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DRIVER = os.path.join(VERIF, "driver", "target", "release", "mirdump")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    src = [os.path.join(VERIF, "driver", x) for x in ("src/main.rs", "Cargo.toml")]
    if os.path.exists(DRIVER) and all(os.path.getmtime(DRIVER) >= os.path.getmtime(s) for s in src):
        return
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=env)
    if r.returncode != 0:
        raise SystemExit("building the exporter failed:\n" + r.stdout)


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock",
                                                                      VERIF + "/driver/src/main.rs"]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def export():
    """directory with lib.json and bin.json for the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        out = os.path.join(CACHE, "mir-" + tree_hash())
        if os.path.exists(out + "/done"):
            return out
        for d in sorted(glob.glob(CACHE + "/mir-*"), key=os.path.getmtime)[:-6]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(CACHE, "target")
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip().splitlines()[-1]
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=sysroot + "/lib", CARGO_TARGET_DIR=tgt, MIRDUMP_OUT=out,
                   RUSTC_WORKSPACE_WRAPPER=DRIVER, CARGO_INCREMENTAL="0",
                   RUSTFLAGS="-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Awarnings")
        for attempt in (1, 2):
            for d in glob.glob(tgt + "/debug/.fingerprint/dinero*") + glob.glob(tgt + "/debug/deps/*dinero*") + glob.glob(tgt + "/debug/build/dinero*"):
                shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)
            r = sh(["cargo", "+nightly", "check", "--offline", "-q", "--lib", "--bins"], cwd=REPO, env=env)
            have = [os.path.exists(out + "/" + x) for x in ("lib.json", "bin.json")]
            if r.returncode == 0 and all(have):
                break
        else:
            shutil.rmtree(out, ignore_errors=True)
            sys.stdout.write("export failed: rc=%d lib,bin=%s\n%s\n" % (r.returncode, have, r.stdout[-4000:]))
            raise SystemExit(2)
        open(out + "/done", "w").close()
        return out


if __name__ == "__main__":
    print(export())
