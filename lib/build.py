"""Build steps: engine, harness (bitcode + native replay binary), optimised IR per group.

Everything is derived from /repo's current working tree and goes to BUILD (outside /repo and /verif)."""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.environ.get("SYMX_BUILD", "/var/tmp/symx-build")
TC = "stable-x86_64-unknown-linux-gnu"
SYSROOT = os.path.expanduser(f"~/.rustup/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu")
BIN = os.path.join(SYSROOT, "bin")
PIPELINE = ("globaldce,function(sroa,early-cse,simplifycfg),"
            "cgscc(inline,function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),"
            "globaldce,function(jump-threading,gvn,simplifycfg)")
STD = "core alloc std hashbrown memchr gimli addr2line rustc_demangle object miniz_oxide".split()


def env():
    e = dict(os.environ)
    e.update(
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
        CARGO_INCREMENTAL="0",
    )
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault("env", env())
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-6000:]))
    return p.stdout


def engine():
    """Build the symbolic executor."""
    t = os.path.join(BUILD, "engine")
    e = env()
    e["CARGO_TARGET_DIR"] = t
    sh(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "engine/Cargo.toml")], env=e)
    return os.path.join(t, "release/symx")


def stdlib():
    """Bitcode of the standard library (embedded in the toolchain's rlibs)."""
    d = os.path.join(BUILD, "std")
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".bc"))
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(SYSROOT, "lib")
    files = os.listdir(lib)

    def one(c):
        r = [f for f in files if re.match(rf"lib{c}-[0-9a-f]+\.rlib$", f)]
        if not r:
            return
        w = os.path.join(d, "x-" + c)
        os.makedirs(w, exist_ok=True)
        sh([f"{BIN}/llvm-ar", "x", os.path.join(lib, r[0])], cwd=w)
        for i, o in enumerate(sorted(f for f in os.listdir(w) if f.endswith(".o"))):
            try:
                sh([f"{BIN}/llvm-objcopy", f"--dump-section=.llvmbc={d}/{c}{i}.bc", os.path.join(w, o), os.path.join(w, "x.tmp")])
            except BuildError:
                pass
        shutil.rmtree(w)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, STD))
    open(done, "w").close()
    return stdlib()


def harness(release=True):
    """Compile harness + /repo + dependencies: bitcode of every crate and the native replay binary."""
    t = os.path.join(BUILD, "harness")
    e = env()
    e["CARGO_TARGET_DIR"] = t
    e["RUSTC_BOOTSTRAP"] = "1"
    e["RUSTFLAGS"] = "--emit=llvm-bc,link -C no-prepopulate-passes -Zinline-mir=no -Awarnings --cap-lints=allow"
    sh(["cargo", "build", "--offline", "--locked", "--release", "--target", "x86_64-unknown-linux-gnu",
        "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml"), "--message-format=short"], env=e)
    rel = os.path.join(t, "x86_64-unknown-linux-gnu/release")
    deps = os.path.join(rel, "deps")
    # newest bitcode file per crate (stale ones from earlier sources may be around)
    best = {}
    for f in os.listdir(deps):
        m = re.match(r"(.+)-[0-9a-f]{16}\.bc$", f)
        if not m or m.group(1) == "replay":
            continue
        p = os.path.join(deps, f)
        k = m.group(1)
        if k not in best or os.path.getmtime(p) > os.path.getmtime(best[k]):
            best[k] = p
    return sorted(best.values()), os.path.join(rel, "replay")


def link(bcs, stds):
    out = os.path.join(BUILD, "all.bc")
    sh([f"{BIN}/llvm-link", *bcs, *stds, "-o", out])
    return out


def functions(ll_text):
    return re.findall(r"^define [^@]*@\"?([^\"(]+)\"?\(", ll_text, re.M)


def group_ir(symx, allbc, name, roots):
    """Reduce to what the roots reach, cut modelled functions, optimise. Returns (.ll path, function list)."""
    d = os.path.join(BUILD, "ir", name)
    os.makedirs(d, exist_ok=True)
    p = lambda f: os.path.join(d, f)
    api = p("api.txt")
    with open(api, "w") as f:
        f.write("\n".join(roots) + "\n")
    sh([f"{BIN}/opt", "-S", "-passes=internalize,globaldce", f"-internalize-public-api-file={api}", allbc, "-o", p("int.ll")])
    sh([symx, "strip", p("int.ll"), p("cut.ll")])
    sh([f"{BIN}/opt", "-S", "-strip-debug", "-passes=" + PIPELINE, p("cut.ll"), "-o", p("o2.ll")])
    fns = functions(open(p("cut.ll"), errors="replace").read())
    for f in ("int.ll",):
        os.unlink(p(f))
    return p("o2.ll"), fns


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


if __name__ == "__main__":
    t0 = time.time()
    def tick(w):
        global t0
        print("%-10s %.1fs" % (w, time.time() - t0)); t0 = time.time()
    with Lock():
        with ThreadPoolExecutor(3) as ex:
            a, b, c = ex.submit(engine), ex.submit(stdlib), ex.submit(harness)
            symx, stds, (bcs, replay) = a.result(), b.result(), c.result()
        tick("compile")
        allbc = link(bcs, stds)
        tick("link")
        for g in sys.argv[1:]:
            n, roots = g.split("=")
            print(group_ir(symx, allbc, n, roots.split(","))[0])
            tick("ir " + n)
