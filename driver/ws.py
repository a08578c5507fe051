"""Keeps /verif/.work in step with /repo and builds from it.

 .work/src   content-synchronised copy of /repo's crates (a file is rewritten
             only when its bytes differ, so cargo's mtimes tell the truth)
 .work/sym   workspace for the symbolic build: the same sources, blake3 replaced
             by the shim that hands hashing to the executor, hex by a table-free one
 .work/nat   workspace for native replays: the same sources, real blake3
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", f"{VERIF}/.work")
SHIMS = {"blake3": "blake3shim", "hex": "hexshim", "num_cpus": "numcpusshim"}
# crates that are not available offline: stand-ins, in both builds
GIT = {"rocksdb": "rocksdbshim", "orchard": "orchardshim"}
TABLES = ("dependencies", "dev-dependencies", "build-dependencies")
ENV = dict(os.environ)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)
ENV.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")


class BuildError(Exception):
    pass


def emit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=False)
    if isinstance(v, list):
        return "[" + ", ".join(map(emit, v)) + "]"
    return "{" + ", ".join(f"{json.dumps(k)} = {emit(x)}" for k, x in v.items()) + "}"


def dump(doc):
    out = [f"{json.dumps(k)} = {emit(v)}" for k, v in doc.items() if not isinstance(v, dict)]
    for k, v in doc.items():
        if isinstance(v, dict):
            out.append(f"\n[{json.dumps(k)}]")
            out += [f"{json.dumps(a)} = {emit(b)}" for a, b in v.items()]
    return "\n".join(out) + "\n"


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def sync(src, dst, skip=()):
    """make dst a byte-identical copy of src, touching only what differs"""
    os.makedirs(dst, exist_ok=True)
    want = {}
    for n in os.listdir(src):
        if n in skip:
            continue
        want[n] = os.path.join(src, n)
    for n in os.listdir(dst):
        if n not in want:
            p = os.path.join(dst, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for n, s in want.items():
        d = os.path.join(dst, n)
        if os.path.isdir(s):
            if os.path.exists(d) and not os.path.isdir(d):
                os.unlink(d)
            sync(s, d)
        elif os.path.isfile(s):
            with open(s, "rb") as f:
                write(d, f.read())


def strip_git(doc, git):
    gone = set()
    for holder in [doc, *doc.get("target", {}).values()]:
        holder.pop("dev-dependencies", None)
        for table in TABLES:
            for name, spec in list(holder.get(table, {}).items()):
                if isinstance(spec, dict) and ("git" in spec or spec.get("workspace") and name in git):
                    if name in GIT:
                        holder[table][name] = {k: v for k, v in spec.items() if k in ("optional", "features", "default-features")}
                        holder[table][name]["path"] = f"../{GIT[name]}"
                        continue
                    del holder[table][name]
                    gone.add(name)
    for feature, items in doc.get("features", {}).items():
        doc["features"][feature] = [
            i for i in items if i.removeprefix("dep:").split("/")[0].rstrip("?") not in gone]


def members():
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    return root, list(dict.fromkeys(os.path.normpath(m) for m in root["workspace"]["members"]))


PROFILE = {
    "sym": {"inherits": "release", "opt-level": 2, "lto": "fat", "codegen-units": 1, "panic": "abort",
            "overflow-checks": True, "debug": False, "incremental": False},
    "nat": {"inherits": "release", "opt-level": 1, "lto": False, "codegen-units": 16, "panic": "unwind",
            "overflow-checks": True, "debug": False, "incremental": False},
}


def layout():
    root, mem = members()
    ws = root["workspace"]
    inh = ws.get("dependencies", {})
    git = {n for n, s in inh.items() if isinstance(s, dict) and "git" in s}
    for n in git:
        del inh[n]
    harn = sorted(h for h in os.listdir(f"{VERIF}/harness")
                  if os.path.exists(f"{VERIF}/harness/{h}/Cargo.toml") and h not in SHIMS.values() and h not in GIT.values())
    for m in mem:
        sync(f"{REPO}/{m}", f"{WORK}/src/{m}", {"target", "grovedbg", ".git"})
    for h in harn + list(SHIMS.values()) + list(GIT.values()):
        sync(f"{VERIF}/harness/{h}", f"{WORK}/h/{h}", {"target"})
    for kind in ("sym", "nat"):
        w = f"{WORK}/{kind}"
        doc = {k: v for k, v in root.items() if k not in ("profile", "patch")}
        doc["workspace"] = {**ws, "members": mem + list(GIT.values()) + ["h/" + h for h in harn], "exclude": list(SHIMS.values())}
        doc["profile"] = PROFILE and {kind: PROFILE[kind]}
        doc["patch"] = {"crates-io": {k: {"path": v} for k, v in SHIMS.items()}} if kind == "sym" else {}
        write(f"{w}/Cargo.toml", dump(doc))
        for m in mem:
            with open(f"{REPO}/{m}/Cargo.toml", "rb") as f:
                d = tomllib.load(f)
            strip_git(d, git)
            d.pop("bench", None)
            d.setdefault("package", {})["autobenches"] = False
            d["package"]["autotests"] = False
            write(f"{w}/{m}/Cargo.toml", benchless(d))
            link_children(f"{WORK}/src/{m}", f"{w}/{m}", {"Cargo.toml", "benches", "tests"})
        for h in harn:
            if os.path.islink(f"{w}/h/{h}"):
                os.unlink(f"{w}/h/{h}")
            with open(f"{VERIF}/harness/{h}/Cargo.toml", "rb") as f:
                write(f"{w}/h/{h}/Cargo.toml", f.read())
            link_children(f"{WORK}/h/{h}", f"{w}/h/{h}", {"Cargo.toml"})
        for h in [*GIT.values()] + [*SHIMS.values()] * (kind == "sym"):
            with open(f"{VERIF}/harness/{h}/Cargo.toml", "rb") as f:
                write(f"{w}/{h}/Cargo.toml", f.read())
            link_children(f"{WORK}/h/{h}", f"{w}/{h}", {"Cargo.toml"})
        # the lock file pins the versions that are in the offline cache
        if not os.path.exists(f"{w}/Cargo.lock"):
            shutil.copy(f"{VERIF}/driver/Cargo.lock", f"{w}/Cargo.lock")


def benchless(d):
    tables = {k: v for k, v in d.items()}
    return dump(tables)


def link_children(src, dst, skip):
    os.makedirs(dst, exist_ok=True)
    want = {n for n in os.listdir(src) if n not in skip}
    for n in os.listdir(dst):
        p = os.path.join(dst, n)
        if os.path.islink(p) and (n not in want or os.readlink(p) != os.path.join(src, n)):
            os.unlink(p)
    for n in want:
        p = os.path.join(dst, n)
        if not os.path.lexists(p):
            os.symlink(os.path.join(src, n), p)


def run(cmd, cwd, log, timeout=1500):
    with open(log, "wb") as f:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        with open(log, errors="replace") as f:
            t = f.read()
        raise BuildError(f"{' '.join(cmd)}\n{t[-6000:]}")


def build_engine():
    os.makedirs(f"{WORK}/log", exist_ok=True)
    run(["cargo", "build", "--release", "--offline", "--target-dir", f"{WORK}/engine"],
        f"{VERIF}/engine", f"{WORK}/log/engine.log")
    return f"{WORK}/engine/release/symir"


def build_sym(crate):
    t = f"{WORK}/t-sym"
    deps = f"{t}/sym/deps"
    name = crate.replace("-", "_")

    def lls():
        return [f"{deps}/{n}" for n in (os.listdir(deps) if os.path.isdir(deps) else [])
                if n.startswith(name + "-") and n.endswith(".ll")]
    cmd = ["cargo", "rustc", "--offline", "-p", crate, "--lib", "--crate-type", "staticlib", "--profile", "sym",
           "--target-dir", t, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    run(cmd, f"{WORK}/sym", f"{WORK}/log/sym-{crate}.log")
    f = lls()
    if len(f) != 1:
        for x in f:
            os.unlink(x)
        run(["cargo", "clean", "--offline", "-p", crate, "--profile", "sym", "--target-dir", t], f"{WORK}/sym",
            f"{WORK}/log/clean-{crate}.log")
        run(cmd, f"{WORK}/sym", f"{WORK}/log/sym-{crate}.log")
        f = lls()
    if len(f) != 1:
        raise BuildError(f"no IR produced for {crate}: {f}")
    return f[0]


def build_nat(crate):
    t = f"{WORK}/t-nat"
    run(["cargo", "build", "--offline", "-p", crate, "--features", "native", "--bin", crate, "--profile", "nat",
         "--target-dir", t], f"{WORK}/nat", f"{WORK}/log/nat-{crate}.log")
    return f"{t}/nat/{crate}"


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(f"{WORK}/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()
