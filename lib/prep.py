"""Builds the MIR driver and dumps the current tree of /repo.

Everything derived lives under /verif/.cache (git-ignored) and is keyed by a
hash of the analysed sources plus the driver/stub sources, so a dump can only
be reused for byte-identical input.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOLCHAIN = "nightly"

CORE = ["stacks-core", "sbtc-core", "sbtc-cli"]
CRATES = {"stacks-core": "stacks_core", "sbtc-core": "sbtc_core", "sbtc-cli": "sbtc", "romeo": "romeo"}
REPO_LOCK = "/opt/vp/ws/Cargo.lock"


class PrepError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, cwd, e, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise PrepError(f"{what} failed ({p.returncode}):\n" + trim(p.stdout))
    return p.stdout


def trim(o):
    lines = [l[:400] for l in o.splitlines() if not l.lstrip().startswith(("Compiling", "Checking", "process didn't exit", "Caused by"))]
    return "\n".join(lines[-120:])


def files_under(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return sorted(out)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    d = os.path.join(VERIF, "driver")
    key = digest(files_under(os.path.join(d, "src"), os.path.join(d, "Cargo.toml")))
    tgt = os.path.join(CACHE, "driver")
    exe = os.path.join(tgt, "debug", "mirdump")
    stamp = os.path.join(tgt, "stamp")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        e = env()
        e["CARGO_TARGET_DIR"] = tgt
        run(["cargo", "build", "--offline"], d, e, "building the MIR driver")
        open(stamp, "w").write(key)
    return exe, key


def write_if_changed(p, text):
    if not os.path.exists(p) or open(p).read() != text:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text)


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def shadow_core():
    """Workspace with the members that build without network (as /opt/vp does)."""
    ws = os.path.join(CACHE, "ws-core")
    text = open(f"{REPO}/Cargo.toml").read()
    text, n = re.subn(r"^members\s*=\s*\[[^\]]*\]", "members = [" + ", ".join(f'"{m}"' for m in CORE) + "]", text, count=1, flags=re.M)
    if n != 1:
        raise PrepError("no members list in /repo/Cargo.toml")
    write_if_changed(ws + "/Cargo.toml", text)
    for m in CORE:
        link(f"{REPO}/{m}", f"{ws}/{m}")
    if not os.path.exists(ws + "/Cargo.lock"):
        shutil.copy(REPO_LOCK, ws + "/Cargo.lock")
    return ws


STUBBED = {"blockstack-core", "reqwest", "backoff", "derivative", "rs_merkle", "tracing", "tracing-subscriber", "futures"}


def shadow_romeo():
    """Workspace for romeo: unavailable dependencies are replaced by the API
    stubs in /verif/stubs (types and signatures only)."""
    ws = os.path.join(CACHE, "ws-romeo")
    text = open(f"{REPO}/Cargo.toml").read()
    text, n = re.subn(r"^members\s*=\s*\[[^\]]*\]", 'members = ["romeo"]', text, count=1, flags=re.M)
    root = tomllib.loads(text)
    wd = root["workspace"]["dependencies"]
    man = tomllib.load(open(f"{REPO}/romeo/Cargo.toml", "rb"))
    out = ["[workspace]", 'members = ["romeo", "sbtc-core", "stacks-core"]', 'exclude = ["stubs"]', 'resolver = "2"', "", "[workspace.package]" if "package" in root["workspace"] else ""]
    for k, v in root["workspace"].get("package", {}).items():
        out.append(f"{k} = {json.dumps(v)}")
    out.append("[workspace.dependencies]")
    for k, v in wd.items():
        out.append(f"{k} = {toml_val(v)}")
    write_if_changed(ws + "/Cargo.toml", "\n".join(out) + "\n")
    rom = ["[package]", 'name = "romeo"', f'version = {json.dumps(man["package"].get("version", "0.1.0"))}', f'edition = {json.dumps(man["package"].get("edition", "2021"))}', "", "[dependencies]"]
    for k, v in man["dependencies"].items():
        if k in STUBBED:
            rom.append(f'{k} = {{ path = "../stubs/{k}" }}')
            continue
        if isinstance(v, dict):
            v = dict(v)
            if k == "bdk":
                v["features"] = [f for f in v.get("features", []) if "esplora" not in f]
            if k == "tokio":
                v["features"] = ["fs", "io-util", "macros", "rt-multi-thread", "sync", "time"]
        rom.append(f"{k} = {toml_val(v)}")
    write_if_changed(ws + "/romeo/Cargo.toml", "\n".join(rom) + "\n")
    link(f"{REPO}/romeo/src", f"{ws}/romeo/src")
    for f in ("README.md",):
        if os.path.exists(f"{REPO}/romeo/{f}"):
            link(f"{REPO}/romeo/{f}", f"{ws}/romeo/{f}")
    link(f"{REPO}/sbtc-core", f"{ws}/sbtc-core")
    link(f"{REPO}/stacks-core", f"{ws}/stacks-core")
    link(f"{VERIF}/stubs", f"{ws}/stubs")
    if not os.path.exists(ws + "/Cargo.lock"):
        shutil.copy(os.path.join(VERIF, "stubs", "Cargo.lock"), ws + "/Cargo.lock") if os.path.exists(os.path.join(VERIF, "stubs", "Cargo.lock")) else shutil.copy(REPO_LOCK, ws + "/Cargo.lock")
    return ws


def toml_val(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml_val(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml_val(x) for x in v) + "]"
    return json.dumps(v)


def sysroot_lib():
    e = env()
    out = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
    return out + "/lib"


def clean_members(tgt, names):
    """cargo's freshness must never skip the wrapper for a workspace member"""
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if any(re.fullmatch(re.escape(n) + r"-[0-9a-f]{16}", d) for n in names):
                shutil.rmtree(os.path.join(fp, d))
    for n in names:
        d = os.path.join(tgt, "debug", "build", n)
        if os.path.isdir(d):
            shutil.rmtree(d)


def dump(which):
    """which: 'core' or 'romeo'. Returns {crate: dump-json-path}."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, f"lock-{which}"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        with open(os.path.join(CACHE, "lock-driver"), "w") as lf2:
            fcntl.flock(lf2, fcntl.LOCK_EX)
            exe, dkey = build_driver()
        roots = [f"{REPO}/Cargo.toml"] + [f"{REPO}/{m}" for m in CORE]
        if which == "romeo":
            roots += [f"{REPO}/romeo/src", f"{REPO}/romeo/Cargo.toml", f"{VERIF}/stubs"]
        key = digest([p for p in files_under(*roots)], extra=dkey + which + open(__file__).read())
        out = os.path.join(CACHE, "dump", f"{which}-{key}")
        want = [CRATES[m] for m in CORE] if which == "core" else ["romeo"]
        paths = {c: os.path.join(out, c + ".json") for c in want}
        if os.path.exists(out + "/ok") and all(os.path.exists(p) for p in paths.values()):
            return paths
        base = os.path.join(CACHE, "dump")
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d.startswith(which + "-"):
                    shutil.rmtree(os.path.join(base, d))
        os.makedirs(out)
        ws = shadow_core() if which == "core" else shadow_romeo()
        tgt = os.path.join(CACHE, "target-" + which)
        clean_members(tgt, list(CRATES))
        e = env()
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["LD_LIBRARY_PATH"] = sysroot_lib() + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        e["MIRDUMP_OUT"] = out
        e["MIRDUMP_CRATES"] = ",".join(want)
        cmd = ["cargo", "check", "--offline"]
        if which == "core":
            cmd += ["--workspace"]
        else:
            cmd += ["-p", "romeo", "--lib"]
        run(cmd, ws, e, f"type-checking the {which} crates")
        for c, p in paths.items():
            if not os.path.exists(p):
                raise PrepError(f"no dump was produced for {c}")
        open(out + "/ok", "w").write("ok")
        return paths


if __name__ == "__main__":
    for w in sys.argv[1:] or ["core", "romeo"]:
        for c, p in dump(w).items():
            print(c, p, os.path.getsize(p))
