"""Builds: the engine, the IR module of (harness + level_db_rust + std), the native replay drivers."""
import json, os, re, shutil, subprocess, sys, time, glob, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
TC = "nightly"
TGT = "x86_64-unknown-linux-gnu"

class BuildError(Exception):
    pass

def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUST_BACKTRACE", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(kw)
    return e

def run(cmd, cwd=None, e=None, timeout=880, what=None):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stderr.decode(errors="replace")[-6000:]))
    return p.stdout

def tree_hash():
    h = hashlib.sha256()
    for l in sorted(run(["git", "-c", "safe.directory=*", "ls-files", "-co", "--exclude-standard"], cwd="/repo").decode().split("\n")):
        f = os.path.join("/repo", l)
        if l and os.path.isfile(f):
            h.update(l.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()

def fresh(target):
    """cargo goes by modification times; a tree with other contents is built anew whatever its times are"""
    d = os.path.join(B, target)
    os.makedirs(d, exist_ok=True)
    try: h = tree_hash()
    except Exception: h = "unknown-%f" % time.time()
    f = os.path.join(d, "repo.sha")
    if not os.path.exists(f) or open(f).read() != h:
        for n in ("level_db_rust", "custom_proc_macro", "vh"):
            for pat in ("/**/.fingerprint/%s-*", "/**/build/%s", "/**/build/%s-*", "/**/incremental/%s-*"):
                for x in glob.glob(d + pat % n, recursive=True, include_hidden=True): shutil.rmtree(x, ignore_errors=True)
        open(f, "w").write(h)

def llvm_bin():
    root = run(["rustc", "--print", "sysroot"], cwd=V).decode().strip()
    return os.path.join(root, "lib/rustlib", TGT, "bin")

def engine():
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"),
        e=env(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(B, "engine")), what="engine build")
    return os.path.join(B, "engine/release/rsym")

def ir(entries=None, out=None):
    """-> path of a .ll module with the harness entry points and everything they reach"""
    fresh("ir")
    e = env(RUSTFLAGS="-Clinker-plugin-lto --cfg verif_hooks -Awarnings", CARGO_TARGET_DIR=os.path.join(B, "ir"))
    so = run(["cargo", "build", "--offline", "--lib", "-Zbuild-std=std,panic_abort", "-Zbuild-std-features=", "--target", TGT, "--message-format=json-render-diagnostics"],
             cwd=os.path.join(V, "harness"), e=e, what="IR build of /repo with the harness")
    rlibs = []
    for l in so.decode().splitlines():
        if not l.startswith("{"): continue
        j = json.loads(l)
        if j.get("reason") == "compiler-artifact":
            for f in j["filenames"]:
                if f.endswith(".rlib") and ("/%s/" % TGT) in f and not re.search("compiler_builtins|panic_unwind|proc_macro-", os.path.basename(f)): rlibs.append(f)
    bin_ = llvm_bin()
    out = out or os.path.join(B, "mod")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    objs = []
    for r in sorted(set(rlibs)):
        d = os.path.join(out, os.path.basename(r)[:-5])
        os.makedirs(d, exist_ok=True)
        run([bin_ + "/llvm-ar", "x", r], cwd=d, what="llvm-ar")
        objs += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".o")]
    allbc = out + "/all.bc"
    with open(out + "/objs.rsp", "w") as f: f.write("\n".join(objs))
    run([bin_ + "/llvm-link", "@" + out + "/objs.rsp", "-o", allbc], what="llvm-link")
    names = sorted(all_entries())
    pub = ",".join(names + ["rsym_empty_string"])
    run([bin_ + "/opt", "-passes=internalize,globaldce", "--internalize-public-api-list=" + pub, allbc, "-o", out + "/p.bc"], what="opt")
    run([bin_ + "/llvm-dis", out + "/p.bc", "-o", out + "/p.ll"], what="llvm-dis")
    for d in os.listdir(out):
        if os.path.isdir(os.path.join(out, d)): shutil.rmtree(os.path.join(out, d))
    os.remove(allbc); os.remove(out + "/p.bc")
    return out + "/p.ll"

def all_entries():
    r = set()
    for f in glob.glob(V + "/harness/src/*.rs"):
        r |= set(re.findall(r'pub extern "C" fn (h_\w+)\(', open(f).read()))
    return r

def replay_bin(kind):
    """native replay driver: kind in dev, release, asan"""
    fresh("replay-" + kind)
    flags = "--cfg verif_hooks -Awarnings"
    args = ["cargo", "build", "--offline", "--bin", "replay", "--features", "native"]
    if kind == "asan":
        flags += " -Zsanitizer=address"
        args += ["--target", TGT]
    if kind == "release": args.append("--release")
    run(args, cwd=os.path.join(V, "harness"), e=env(RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(B, "replay-" + kind)), what="replay build (%s)" % kind)
    sub = "release" if kind == "release" else "debug"
    return os.path.join(B, "replay-" + kind, *( [TGT] if kind == "asan" else []), sub, "replay")

if __name__ == "__main__":
    t = time.time()
    for w in sys.argv[1:]:
        print(w, globals()[w.split(":")[0]](*w.split(":")[1:]), "%.1fs" % (time.time() - t))
