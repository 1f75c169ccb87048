"""Bring the dump of /repo's type-checked MIR up to date (incremental; serialised by a lock)."""
import fcntl, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RXV_REPO", "/repo")
BUILD = os.environ.get("RXV_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(VERIF, "extract/target/debug/rxv-extract")

CONFIGS = {
    # quick: everything the workspace's own build turns on
    "dev": ["--all-features"],
    # thorough: the same program as a release user compiles it (no debug assertions)
    "rel": ["--all-features", "--config", "profile.dev.debug-assertions=false"],
}


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    return e


def fingerprint():
    h = hashlib.sha256()
    files = []
    for top in ("Cargo.toml", "Cargo.lock"):
        files.append(os.path.join(REPO, top))
    for d, ds, fs in os.walk(os.path.join(REPO, "crates")):
        ds[:] = sorted(x for x in ds if x not in ("target", "tests", "examples", "benches"))
        files += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml"))]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    with open(DRIVER, "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def build_driver():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "extract/target")
    subprocess.run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "extract"), env=e, check=True)


def workspace_libs():
    """crate name -> package name of every workspace member with a lib target"""
    e = env()
    m = json.loads(subprocess.run(
        ["cargo", "+nightly", "metadata", "--offline", "--no-deps", "--format-version", "1"],
        cwd=REPO, env=e, check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout)
    out = {}
    for p in m["packages"]:
        for t in p["targets"]:
            if "lib" in t["kind"] or "rlib" in t["kind"]:
                out[t["name"].replace("-", "_")] = p["name"]
    return out


def extract(config="dev", verbose=False):
    """Returns the dump directory; raises SystemExit(2) if /repo does not compile."""
    os.makedirs(BUILD, exist_ok=True)
    dump = os.path.join(BUILD, "dump" if config == "dev" else "dump-" + config)
    target = os.path.join(BUILD, "target" if config == "dev" else "target-" + config)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(DRIVER):
            build_driver()
        fp = fingerprint()
        stamp = os.path.join(dump, "STAMP")
        if os.path.exists(stamp) and open(stamp).read() == fp:
            return dump
        os.makedirs(dump, exist_ok=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        e = env()
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, check=True,
                              stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = root + "/lib"
        e["RXV_OUT"] = dump
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["CARGO_TARGET_DIR"] = target
        e["CARGO_INCREMENTAL"] = "0"
        cmd = ["cargo", "+nightly", "check", "--offline", "-Zchecksum-freshness", "--workspace", "--lib"] + CONFIGS[config]
        libs = workspace_libs()
        for attempt in (0, 1):
            r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stdout.write(r.stdout[-3000:])
                print("rxv: /repo does not compile, nothing can be decided")
                raise SystemExit(2)
            missing = [c for c in libs if not os.path.exists(os.path.join(dump, c + ".json"))]
            if not missing:
                break
            # cargo thinks these are fresh but their dump is gone: start over
            subprocess.run(["rm", "-rf", target])
        missing = [c for c in libs if not os.path.exists(os.path.join(dump, c + ".json"))]
        if missing:
            print("rxv: no MIR for", missing)
            raise SystemExit(2)
        for f in glob.glob(os.path.join(dump, "*.json")):
            if os.path.basename(f)[:-5] not in libs:
                os.remove(f)
        with open(stamp, "w") as fh:
            fh.write(fp)
    return dump


if __name__ == "__main__":
    t = time.time()
    if "--setup" in sys.argv:
        build_driver()
    for c in (sys.argv[1:] or ["dev"]):
        if not c.startswith("-"):
            print(extract(c), round(time.time() - t, 1), "s")
