"""Builds the extractor and the engine, and turns /repo's current source into
facts (typed MIR of every crate).  Everything is keyed by content hashes, so a
stale artefact is never used."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
WORK = os.environ.get("SA_WORK", f"{VERIF}/.work")
sys.path.insert(0, HERE)
import mkws  # noqa: E402

STABLE = "stable"
PKGS = ["grovedb", "grovedb-epoch-based-storage-flags", "grovedb-commitment-tree"]
CRATES = {"grovedb", "grovedb_bulk_append_tree", "grovedb_commitment_tree", "grovedb_costs", "grovedb_dense_fixed_sized_merkle_tree", "grovedb_element",
          "grovedb_epoch_based_storage_flags", "grovedb_merk", "grovedb_merkle_mountain_range", "grovedb_path", "grovedb_query", "grovedb_storage",
          "grovedb_version", "grovedb_visualize", "sa_models"}
FEATS = "grovedb/full,grovedb/estimated_costs,grovedb-commitment-tree/client,grovedb-commitment-tree/server"


def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def tree(root, exts=(".rs", ".toml")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in (".git", "target", "node_modules", ".work")]
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return out


def run(cmd, env=None, cwd=None, log=None):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, "w") as f:
            f.write(r.stdout)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def cargo_tool(name, toolchain):
    src = f"{VERIF}/{name}"
    key = sha(tree(src, (".rs", ".toml", ".lock")))
    stamp = f"{WORK}/{name}.key"
    binn = f"{WORK}/{name}/release/sa-{name}"
    if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(binn):
        return binn, key
    rc, out = run(["cargo", "build", "--offline", "--release"], cwd=src,
                  env={"CARGO_TARGET_DIR": f"{WORK}/{name}", "RUSTUP_TOOLCHAIN": toolchain})
    if rc:
        raise BuildError(f"{name} does not build:\n{out[-3000:]}")
    with open(stamp, "w") as f:
        f.write(key)
    return binn, key


def sysroot():
    rc, out = run(["rustc", "--print", "sysroot"], env={"RUSTUP_TOOLCHAIN": "nightly"})
    return out.strip().splitlines()[-1]


def extract(dst, wrap, driver, ready, pkgs, feats, extra, tgt, expect):
    sr = sysroot()
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    # every crate of the workspace is checked again: cargo's notion of freshness is not relied on
    for fp in (f"{tgt}/debug/.fingerprint", f"{tgt}/debug/build"):
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("grovedb"):
                    shutil.rmtree(f"{fp}/{n}", ignore_errors=True)
    env = {"RUSTUP_TOOLCHAIN": "nightly", "LD_LIBRARY_PATH": f"{sr}/lib", "SA_OUT": tmp,
           "CARGO_TARGET_DIR": tgt, "RUSTC_WORKSPACE_WRAPPER": wrap, "SA_DRIVER": driver, "SA_READY": ready, "RUSTFLAGS": "--cap-lints allow"}
    cmd = ["cargo", "check", "--offline"]
    for p in pkgs:
        cmd += ["-p", p]
    cmd += extra
    if feats:
        cmd += ["--features", feats]
    rc, out = run(cmd, env=env, cwd=f"{WORK}/ws", log=f"{WORK}/extract.log")
    ok = rc == 0
    while not os.path.exists(ready):
        if os.path.exists(ready + ".failed"):
            raise BuildError("the extractor does not build")
        time.sleep(0.05)
    rc2, out2 = run([driver, "rustc", "--crate-name", "sa_models", "--crate-type", "lib", "--edition", "2021",
                     "--emit=metadata", "-o", f"{tmp}/libsa_models.rmeta", f"{VERIF}/models/src/lib.rs",
                     "--sysroot", sr], env=env)
    if rc2:
        raise BuildError("models do not compile:\n" + out2[-3000:])
    os.unlink(f"{tmp}/libsa_models.rmeta")
    got = {n[:-5] for n in os.listdir(tmp) if n.endswith(".json")}
    if ok and not expect <= got:
        raise BuildError(f"facts are missing for {sorted(expect - got)}")
    shutil.rmtree(dst, ignore_errors=True)
    os.rename(tmp, dst)
    return ok, out


WRAP = """#!/bin/sh
# rustc wrapper: for crates of the workspace, waits until the extractor is built, then runs it
case "$*" in
  *"--crate-name grovedb"*)
    while [ ! -e "$SA_READY" ]; do
      [ -e "$SA_READY.failed" ] && exit 101
      sleep 0.05
    done
    exec "$SA_DRIVER" "$@" ;;
  *) exec "$@" ;;
esac
"""


def ensure(quiet=True):
    """-> dict(engine, facts, ok, log, src_key, files)"""
    os.makedirs(WORK, exist_ok=True)
    with open(f"{WORK}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mkws.make(REPO, f"{WORK}/ws")
        files = tree(REPO)
        skey = sha(files)
        mkey = sha(tree(f"{VERIF}/models") + tree(f"{VERIF}/stubs") + tree(f"{VERIF}/driver"))
        key = hashlib.sha256(f"{skey} {mkey} {FEATS}".encode()).hexdigest()[:20]
        dst = f"{WORK}/facts-{key}"
        meta = f"{dst}/meta"
        ready = f"{WORK}/driver.ready"
        for x in (ready, ready + ".failed"):
            if os.path.exists(x):
                os.unlink(x)
        wrap = f"{WORK}/wrap.sh"
        if not os.path.exists(wrap) or open(wrap).read() != WRAP:
            with open(wrap, "w") as f:
                f.write(WRAP)
            os.chmod(wrap, 0o755)
        with cf.ThreadPoolExecutor(3) as ex:
            def drv():
                try:
                    r = cargo_tool("driver", "nightly")
                    open(ready, "w").close()
                    return r
                except BaseException:
                    open(ready + ".failed", "w").close()
                    raise

            def facts():
                if os.path.exists(meta):
                    return
                for n in os.listdir(WORK):
                    if n.startswith("facts-"):
                        shutil.rmtree(f"{WORK}/{n}", ignore_errors=True)
                t = time.time()
                drvbin = f"{WORK}/driver/release/sa-driver"
                ok, out = extract(dst, wrap, drvbin, ready, PKGS, FEATS, [], f"{WORK}/t2", CRATES)
                if not ok:
                    # the database part does not type-check: analyse what does
                    ok2, out2 = extract(dst, wrap, drvbin, ready, PKGS[1:2] + ["grovedb"], "grovedb/verify", ["--no-default-features"], f"{WORK}/t2", set())
                    if not ok2:
                        raise BuildError("/repo does not type-check:\n" + out2[-4000:])
                with open(meta, "w") as f:
                    json.dump({"ok": ok, "secs": time.time() - t, "log": "" if ok else out[-4000:]}, f)

            fd = ex.submit(drv)
            fe = ex.submit(cargo_tool, "engine", STABLE)
            ff = ex.submit(facts)
            fd.result()
            engine, ekey = fe.result()
            ff.result()
        m = json.load(open(meta))
        return {"engine": engine, "ekey": ekey, "facts": dst, "fkey": key, "ok": m["ok"], "log": m["log"],
                "skey": skey, "files": len(files)}


if __name__ == "__main__":
    t = time.time()
    r = ensure()
    print(json.dumps(r, indent=1), f"{time.time() - t:.1f}s")
