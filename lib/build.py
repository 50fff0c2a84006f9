"""Builds, from /repo's current working tree, what the checks need:

- the engine (symx),
- the LLVM IR of the harnesses + diffy + the standard library, linked and optimised,
- the native replayers (dev and release profile) with the same harness source.

Everything lands in /verif/build, keyed by the contents of the sources it was made of.
"""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TC = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for _k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(_k, None)


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, what=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", "--print", "sysroot"]).strip()
    return _sysroot


def tool(name):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


def prune(prefix, keep):
    """Removes old keyed build directories, leaving the two newest."""
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)
    for d in ds[:-2]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def keyed(prefix, key, make):
    """make(dir) once per key, atomically."""
    d = os.path.join(BUILD, "%s-%s" % (prefix, key))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, prefix + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            make(d)
            open(os.path.join(d, "ok"), "w").close()
        os.utime(d)
        prune(prefix, d)
    return d


def engine():
    src = os.path.join(VERIF, "engine")
    key = digest([os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(src, "build.rs")])

    def make(d):
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(d, "t"))
        run(["cargo", "build", "--release", "--offline", "-q"], cwd=src, env=env, what="engine build")
        shutil.move(os.path.join(d, "t/release/symx"), os.path.join(d, "symx"))
        shutil.rmtree(os.path.join(d, "t"))

    return os.path.join(keyed("engine", key, make), "symx")


def stdbc():
    ver = run(["rustc", "-vV"])
    key = hashlib.sha256(ver.encode()).hexdigest()[:16]

    def make(d):
        lib = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib")
        for c in ("core", "alloc", "std", "hashbrown"):
            r = glob.glob(os.path.join(lib, "lib%s-*.rlib" % c))
            if len(r) != 1:
                raise BuildError("no unique rlib for " + c)
            t = os.path.join(d, c)
            os.makedirs(t)
            run([tool("llvm-ar"), "x", r[0]], cwd=t)
            objs = sorted(glob.glob(os.path.join(t, "*.o")))
            bcs = []
            for i, o in enumerate(objs):
                b = os.path.join(t, "%d.bc" % i)
                run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + b, o, "/dev/null"])
                if os.path.exists(b) and os.path.getsize(b):
                    bcs.append(b)
            run([tool("llvm-link")] + bcs + ["-o", os.path.join(d, c + ".bc")])
            shutil.rmtree(t)

    return keyed("std", key, make)


SIP = re.compile(r"4hash3sip.*6Hasher(5write|6finish)C")
SIP_BODY = {
    "5write": ["  %s = load i64, ptr %0, align 8", "  %h = call i64 @__sym_hash(i64 %s, ptr %1, i64 %2)", "  store i64 %h, ptr %0, align 8", "  ret void"],
    "6finish": ["  %s = load i64, ptr %0, align 8", "  ret i64 %s"],
}


def stub(text):
    """Replaces the bodies of the functions the encoding abstracts:

    - SipHash's write and finish keep one word of state, which the engine's __sym_hash
      updates: with a hash of the bytes if they start with "pad:" and with nothing
      otherwise (a HashMap's observable behaviour does not depend on hash values; keys
      that do not start so all collide, which forces every probe to compare them);
    - hashmap_random_keys loses its body (the engine returns constants);
    - core::panicking::* lose their bodies, so that reaching one is seen as the panic.
    """
    out = []
    names = []
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("define "):
            m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
            name = m.group(1).strip('"')
            m = SIP.search(name)
            if m:
                j = i
                while lines[j] != "}":
                    j += 1
                # keep the header, drop the body (personality clauses are harmless)
                out.append(l)
                out += SIP_BODY[m.group(1)]
                out.append("}")
                names.append(name)
                i = j + 1
                continue
            if ("4core9panicking" in name or "3std9panicking" in name or "hashmap_random_keys" in name) and " alias " not in l:
                j = i
                while lines[j] != "}":
                    j += 1
                head = re.sub(r"^define (?:internal |private |hidden |linkonce_odr |weak_odr |available_externally |dso_local |unnamed_addr )*", "", l)
                head = re.sub(r"\)\s*[^()]*(?:personality[^{]*)?\{\s*$", ")", head)
                out.append("declare " + head)
                names.append(name)
                i = j + 1
                continue
        out.append(l)
        i += 1
    if any(SIP.search(n) for n in names):
        out.append("declare i64 @__sym_hash(i64, ptr, i64)")
    return "\n".join(out), names


def crate_rlib(tdir, name):
    r = glob.glob(os.path.join(tdir, "release/deps/lib%s-*.rlib" % name))
    if len(r) != 1:
        raise BuildError("no unique rlib for %s: %s" % (name, r))
    return r[0]


def source_key(extra=""):
    paths = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness/src"), os.path.join(VERIF, "harness/Cargo.toml"), os.path.abspath(__file__)]
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        paths.append(lock)
    return digest(paths, extra)


def copy_harness(d):
    """A private copy of the harness crate: its Cargo.lock is made here, not in /verif."""
    h = os.path.join(d, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), h, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    return h


def ir():
    """Links and optimises the harness module; returns the directory with opt.ll."""
    std = stdbc()
    key = source_key(std)

    def make(d):
        h = copy_harness(d)
        t = os.path.join(d, "t")
        env = dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS="-Clinker-plugin-lto -Cno-prepopulate-passes -Cpasses= -Awarnings")
        run(["cargo", "build", "--release", "--offline", "-q", "--lib"], cwd=h, env=env, what="IR build of /repo and the harnesses")
        # only rlibs' object members matter; they hold raw bitcode
        objs = []
        for c in sorted(glob.glob(os.path.join(t, "release/deps/*.rlib"))):
            x = os.path.join(d, "x_" + os.path.basename(c)[3:-5])
            os.makedirs(x)
            run([tool("llvm-ar"), "x", c], cwd=x)
            objs += sorted(glob.glob(os.path.join(x, "*.o")))
        all_bc = os.path.join(d, "all.bc")
        run([tool("llvm-link")] + objs + [os.path.join(std, c + ".bc") for c in ("alloc", "core", "std", "hashbrown")] + ["-o", all_bc], what="llvm-link")
        src = "".join(open(f).read() for f in glob.glob(os.path.join(h, "src/*.rs")))
        api = sorted(set(re.findall(r"\bh_[a-z0-9_]+", src)))
        pub = "-internalize-public-api-list=" + ",".join(api)
        pre = os.path.join(d, "pre.ll")
        run([tool("opt"), "-strip-debug", "-passes=internalize,globaldce,function(lower-invoke,simplifycfg),globaldce", pub, all_bc, "-S", "-o", pre], what="opt (prepare)")
        text, names = stub(open(pre).read())
        with open(pre, "w") as f:
            f.write(text)
        with open(os.path.join(d, "stubs.txt"), "w") as f:
            f.write("\n".join(names))
        run([tool("opt"), "-passes=globaldce,default<O2>,function(scalarizer),globaldce", pub, "-vectorize-loops=false", "-vectorize-slp=false", pre, "-S", "-o", os.path.join(d, "opt.ll")], what="opt (O2)")
        for x in glob.glob(os.path.join(d, "x_*")) + [t, h]:
            shutil.rmtree(x, ignore_errors=True)
        for f in (all_bc, pre):
            os.remove(f)

    return keyed("ir", key, make)


def native():
    """Replayers: returns (dev, release) binaries."""
    key = source_key("native" + digest([os.path.join(VERIF, "replay/src"), os.path.join(VERIF, "replay/Cargo.toml")]))

    def make(d):
        copy_harness(d)
        r = os.path.join(d, "replay")
        shutil.copytree(os.path.join(VERIF, "replay"), r, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(d, "t"), RUSTFLAGS="-Awarnings")
        for prof, args in (("debug", []), ("release", ["--release"])):
            run(["cargo", "build", "--offline", "-q"] + args, cwd=r, env=env, what="native build of /repo and the harnesses")
            shutil.move(os.path.join(d, "t", prof, "replay"), os.path.join(d, "replay-" + prof))
        shutil.rmtree(os.path.join(d, "t"))

    d = keyed("native", key, make)
    return os.path.join(d, "replay-debug"), os.path.join(d, "replay-release")


def all_parallel():
    import concurrent.futures as cf
    t0 = time.time()
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fi, fn = ex.submit(engine), ex.submit(ir), ex.submit(native)
        e, i, n = fe.result(), fi.result(), fn.result()
    return e, i, n, time.time() - t0


if __name__ == "__main__":
    e, i, n, t = all_parallel()
    print(e, i, n, "%.1fs" % t)
