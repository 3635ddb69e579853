"""Builds the facts extractor, lays out an overlay workspace over /repo/src/rust and
dumps the MIR facts of fcb_core (lib) and fcb_cli (bin fcb). Every run re-extracts from
/repo's current sources; only third-party metadata and the extractor itself are reused."""
import fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src/rust")


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def build_dir():
    b = os.environ.get("SA_BUILD") or os.path.join(VERIF, ".build")
    try:
        os.makedirs(b, exist_ok=True)
        t = os.path.join(b, ".w%d" % os.getpid())
        open(t, "w").close()
        os.remove(t)
        return b
    except OSError:
        b = "/tmp/fcb_sa_build"
        os.makedirs(b, exist_ok=True)
        return b


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ExtractError("%s failed (%s):\n%s" % (what, " ".join(cmd), "\n".join(l[:400] for l in p.stdout.splitlines() if True)[:int(os.environ.get("SA_LOG","6000"))]))
    return p.stdout


def build_driver(b, env):
    tgt = os.path.join(b, "driver")
    run(["cargo", "build", "--offline", "--locked", "--target-dir", tgt, "--manifest-path",
         os.path.join(VERIF, "driver", "Cargo.toml")], os.path.join(VERIF, "driver"), env, "extractor build")
    return os.path.join(tgt, "debug", "mirfacts")


def overlay(b):
    ws = os.path.join(b, "ws")
    os.makedirs(ws, exist_ok=True)
    text = open(os.path.join(SRC, "Cargo.toml")).read()
    for table in ("package", "dependencies"):
        text = re.sub(r"(?ms)^\[%s\].*?(?=^\[|\Z)" % table, "", text)
    text = re.sub(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["cli", "fcb_core"]', text)
    with open(os.path.join(ws, "Cargo.toml"), "w") as f:
        f.write(text)
    for n in ("cli", "fcb_core"):
        l = os.path.join(ws, n)
        t = os.path.join(SRC, n)
        if os.path.islink(l) and os.readlink(l) != t:
            os.remove(l)
        if not os.path.islink(l):
            os.symlink(t, l)
    lock = os.path.join(ws, "Cargo.lock")
    shutil.copyfile(os.path.join(HERE, "Cargo.lock.ws"), lock)
    return ws


def extract():
    """-> (facts dict by crate, info)"""
    b = build_dir()
    t0 = time.time()
    with open(os.path.join(b, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = _env()
        drv = build_driver(b, env)
        ws = overlay(b)
        tgt = os.path.join(b, "target")
        out = tempfile.mkdtemp(prefix="facts", dir=b)
        try:
            sysroot = run(["rustc", "--print", "sysroot"], ws, env, "sysroot").strip()
            env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            env["RUSTC_WORKSPACE_WRAPPER"] = drv
            env["MIRFACTS_CRATES"] = "fcb_core,fcb"
            env["MIRFACTS_OUT"] = out
            env["CARGO_TARGET_DIR"] = tgt
            # the freshness cache would skip the wrapper: drop the two crates' own artefacts
            run(["cargo", "clean", "--offline", "-p", "fcb_core", "-p", "fcb_cli"], ws, env, "cargo clean")
            log = run(["cargo", "check", "--offline", "-p", "fcb_core", "--lib", "-p", "fcb_cli", "--bin", "fcb"],
                      ws, env, "cargo check of /repo under the extractor")
            facts = {}
            for n, f in (("fcb_core", "fcb_core.lib.json"), ("fcb", "fcb.bin.json")):
                p = os.path.join(out, f)
                if not os.path.exists(p):
                    raise ExtractError("no facts for %s were produced\n%s" % (n, log[-3000:]))
                with open(p) as fh:
                    facts[n] = json.load(fh)
        finally:
            shutil.rmtree(out, ignore_errors=True)
    return facts, {"extract_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    f, i = extract()
    print({k: (len(v["fns"]), len(v["types"]), len(v["stolen"])) for k, v in f.items()}, i)
