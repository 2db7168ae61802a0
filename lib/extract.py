"""Build the driver, run it over /repo's current working tree, load the dumps."""
import json, os, subprocess, shutil, glob, hashlib, sys, time, fcntl, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CRATES = ["ucan", "ucan_key_support"]


DIGEST = {}  # (browser, release, crate) -> of the dump last made


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def _run(cmd, env, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot(env):
    rc, out = _run(["rustc", "--print", "sysroot"], env)
    if rc:
        raise ExtractError("no nightly toolchain: " + out)
    return out.strip()


def build_driver(env):
    env = dict(env)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = _run(["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml")], env)
    if rc:
        raise ExtractError("driver does not build:\n" + out[-4000:])
    return os.path.join(BUILD, "driver", "debug", "mirdump")


def toml(v):
    if isinstance(v, dict):
        return "{ %s }" % ", ".join("%s = %s" % (json.dumps(k), toml(x)) for k, x in v.items())
    if isinstance(v, list):
        return "[%s]" % ", ".join(map(toml, v))
    return json.dumps(v)


def for_browsers(lockfile):
    """A workspace over REPO's sources that depends on what they depend on for wasm32.

    No wasm32 standard library is installed, so this is type-checked for the host: the crates of the
    workspace are compiled with the browser's cfg (MIRDUMP_CFG), everything below them as it is here."""
    w = os.path.join(BUILD, "browser")
    members = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))["workspace"]["members"]
    for m in members:
        t = tomllib.load(open(os.path.join(REPO, m, "Cargo.toml"), "rb"))
        deps = dict(t.get("dependencies", {}))
        for cond, x in t.get("target", {}).items():
            if "wasm32" in cond and "not(" not in cond.replace(" ", ""):
                deps.update(x.get("dependencies", {}))
        p = t["package"]
        out = ["[package]"] + ["%s = %s" % (k, toml(p[k])) for k in ("name", "version", "edition") if k in p]
        out += ["[lib]", "path = %s" % toml(os.path.join(REPO, m, t.get("lib", {}).get("path", "src/lib.rs")))]
        out += ["[features]"] + ["%s = %s" % (k, toml(v)) for k, v in t.get("features", {}).items()]
        out += ["[dependencies]"] + ["%s = %s" % (k, toml(v)) for k, v in deps.items()]
        os.makedirs(os.path.join(w, m), exist_ok=True)
        with open(os.path.join(w, m, "Cargo.toml"), "w") as f:
            f.write("\n".join(out) + "\n")
    with open(os.path.join(w, "Cargo.toml"), "w") as f:
        f.write("[workspace]\nresolver = \"2\"\nmembers = %s\n" % toml(members))
    shutil.copy(lockfile, os.path.join(w, "Cargo.lock"))
    return os.path.join(w, "Cargo.toml")


def dump_dir(browser=False, release=False):
    d = os.path.join(BUILD, "browser", "dump") if browser else os.path.join(BUILD, "dump")
    return d + "-release" if release else d


def extract(browser=False, release=False):
    """Returns {crate: dump}. Always re-reads the current source of REPO."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        env = _env()
        drv = build_driver(env)
        sr = sysroot(env)
        lockfile = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lockfile) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lockfile)
        tgt = os.path.join(BUILD, "target")
        out = dump_dir(browser, release)
        os.makedirs(out, exist_ok=True)
        for c in CRATES:
            f = os.path.join(out, c + ".json")
            if os.path.exists(f):
                os.remove(f)
        # cargo's freshness cache would skip the driver on a warm target directory
        for pat in (".fingerprint/ucan*", "build/ucan*", "deps/*ucan*", "incremental/ucan*"):
            for d in glob.glob(os.path.join(tgt, "debug", pat)):
                shutil.rmtree(d) if os.path.isdir(d) else os.remove(d)
        e = dict(env)
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_OUT"] = out
        e["LD_LIBRARY_PATH"] = os.path.join(sr, "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        manifest = os.path.join(REPO, "Cargo.toml")
        e.pop("MIRDUMP_CFG", None)
        e.pop("MIRDUMP_RELEASE", None)
        if release:
            e["MIRDUMP_RELEASE"] = "1"
        if browser:
            manifest = for_browsers(lockfile)
            e["MIRDUMP_CFG"] = 'target_arch="wasm32"'
        rc, log = _run(["cargo", "check", "--workspace", "--lib", "--offline", "--manifest-path", manifest], e)
        if rc:
            short = "\n".join(l[:300] for l in log.splitlines() if "process didn't exit" not in l)
            raise ExtractError("cargo check of the tree failed:\n" + short[-3000:])
        res = {}
        for c in CRATES:
            f = os.path.join(out, c + ".json")
            if not os.path.exists(f):
                raise ExtractError("no dump for crate " + c + "\n" + log[-2000:])
            with open(f, "rb") as fh:
                raw = fh.read()
            DIGEST[browser, release, c] = hashlib.sha256(raw).hexdigest()
            res[c] = json.loads(raw)
        return res
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    t = time.time()
    for browser, release in ((True, False), (False, True), (False, False)):
        r = extract(browser, release)
        for c, d in r.items():
            print(c + (" for browsers:" if browser else " for release:" if release else ":"), len(d["fns"]), "bodies", len(d["types"]), "types", len(d["adts"]), "adts", len(d["items"]["fns"]), "fns", "stolen", d["stolen"])
    print("%.1fs" % (time.time() - t))
