"""Builds the harness against the working tree of /repo. Nothing is written below /repo."""
import fcntl, hashlib, os, re, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
TARGET = os.environ.get("VH_TARGET", os.path.join(ROOT, "target"))
SHIM = os.path.join(TARGET, "shim.so")
TRIPLE = "x86_64-unknown-linux-gnu"


def sources():
    """The content of everything in /repo that the library is built from."""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "ipmb", "ipmb-derive", "ipmb-ffi", "ipmb-js"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f)
            for d, ds, fs in os.walk(p)
            for f in fs
            if not any(x in d for x in ("/target", "/node_modules", "/examples"))
        )
        for f in files:
            if f.endswith((".rs", ".toml", ".cc", ".h", ".js", ".json")):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def run(cmd, cwd, env=None, what="build"):
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        print(f"{what} failed: {' '.join(cmd)}\n{p.stdout[-4000:]}")
        sys.exit(4)
    return p.stdout


def cargo(crate, tdir, packages, env=None, toolchain=None, extra=()):
    """cargo build, with fingerprints decided by content instead of time stamps."""
    os.makedirs(tdir, exist_ok=True)
    lock = open(os.path.join(tdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(tdir, f".sources.{os.path.basename(crate)}")
    h = sources()
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else [])
    e = {"CARGO_TARGET_DIR": tdir, **(env or {})}
    if not os.path.exists(stamp) or open(stamp).read() != h:
        if os.path.exists(stamp):
            os.unlink(stamp)
        clean = cmd + ["clean", "--offline"]
        if "--target" in extra:
            clean += ["--target", TRIPLE]
        for p in packages:
            clean += ["-p", p]
        subprocess.run(clean, cwd=crate, env={**os.environ, **e}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    run(cmd + ["build", "--offline", *extra], crate, e)
    with open(stamp, "w") as f:
        f.write(h)


def crate_dir(name):
    """The harness crates depend on /repo by path; another tree is given through a rewritten copy."""
    src = os.path.join(ROOT, name)
    if REPO == "/repo":
        return src
    dst = os.path.join(TARGET, "crates", name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if f.endswith((".toml", ".rs")):
                p = os.path.join(d, f)
                s = open(p).read()
                if "/repo" in s:
                    open(p, "w").write(s.replace("/repo/", REPO + "/"))
    return dst


def shim():
    src = os.path.join(ROOT, "shim", "shim.c")
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        tmp = f"{SHIM}.{os.getpid()}"
        run(["gcc", "-O2", "-fPIC", "-shared", "-w", "-o", tmp, src, "-ldl"], ROOT)
        os.rename(tmp, SHIM)


def b_plain():
    cargo(crate_dir("harness"), TARGET, ["ipmb", "ipmb-derive", "vh"])
    shim()


def base_version():
    m = re.search(r'^version = "(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, "ipmb", "Cargo.toml")).read(), re.M)
    return tuple(int(x) for x in m.groups())


def version_list():
    """Versions next to the current one: only the patch differs, the minor, the major; two of major 1."""
    a, b, c = base_version()
    v = [(a, b, c + 91), (a, b + 1, c), (a + 1, b, c), (a + 1, b + 1, 0), (a + 2, b, c)]
    if b > 0:
        v.append((a, b - 1, c))
    return v


def b_versions():
    """The harness with the library under other version numbers (nothing else is changed)."""
    b_plain()
    base = os.path.join(TARGET, "versions")
    ws = os.path.join(base, "ws")
    shutil.rmtree(ws, ignore_errors=True)
    shutil.rmtree(os.path.join(base, "trees"), ignore_errors=True)
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    root = re.sub(r"members = \[[^\]]*\]", 'members = ["ipmb"]', root)
    root = root.replace('path = "ipmb-derive"', f'path = "{REPO}/ipmb-derive"')
    members = []
    for v in version_list():
        t = "v" + "_".join(map(str, v))
        tree = os.path.join(base, "trees", t)
        ignore = shutil.ignore_patterns("target", "examples", "tests")
        shutil.copytree(os.path.join(REPO, "ipmb"), os.path.join(tree, "ipmb"), ignore=ignore)
        p = os.path.join(tree, "ipmb", "Cargo.toml")
        text = open(p).read()
        text = re.sub(r'^version = "[^"]*"', f'version = "{v[0]}.{v[1]}.{v[2]}"', text, count=1, flags=re.M)
        open(p, "w").write(text)
        open(os.path.join(tree, "Cargo.toml"), "w").write(re.sub(r"(\[workspace.dependencies.ipmb\]\nversion = )\S+", rf'\1"{v[0]}.{v[1]}.{v[2]}"', root))
        vh = os.path.join(ws, "vh-" + t)
        shutil.copytree(os.path.join(ROOT, "harness"), vh, ignore=shutil.ignore_patterns(".cargo", "Cargo.lock", "target"))
        p = os.path.join(vh, "Cargo.toml")
        text = open(p).read().replace("/repo/ipmb", tree + "/ipmb").replace('name = "vh"', f'name = "vh-{t}"')
        text = text[: text.index("[profile")]
        open(p, "w").write(text)
        members.append(f'"vh-{t}"')
    root = '[workspace]\nresolver = "2"\nmembers = [' + ", ".join(members) + "]\n"
    prof = '[profile.dev]\npanic = "abort"\nopt-level = 0\ndebug = 0\n'
    open(os.path.join(ws, "Cargo.toml"), "w").write(root + "\n" + prof)
    shutil.copy(os.path.join(ROOT, "harness", "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    # Same content, same time: nothing is rebuilt that did not change
    h = sources()
    for f in os.listdir(os.path.join(ROOT, "harness", "src")):
        h += hashlib.sha256(open(os.path.join(ROOT, "harness", "src", f), "rb").read()).hexdigest()
    stamp = os.path.join(TARGET, "versions", ".stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    run(["cargo", "build", "--offline"], ws, {"CARGO_TARGET_DIR": os.path.join(TARGET, "versions", "target")})
    open(stamp, "w").write(h)


def versions_env():
    v = [(base_version(), binary("plain"))]
    for x in version_list():
        v.append((x, os.path.join(TARGET, "versions", "target", "debug", "vh-v" + "_".join(map(str, x)))))
    return ",".join(".".join(map(str, a)) + "=" + b for a, b in v)


def b_asan():
    cargo(crate_dir("harness"), os.path.join(TARGET, "asan"), ["ipmb", "ipmb-derive", "vh"], {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}, "nightly", ["--no-default-features", "--target", TRIPLE])


def b_tsan():
    cargo(
        crate_dir("harness"), os.path.join(TARGET, "tsan"), ["ipmb", "ipmb-derive", "vh"],
        {"RUSTFLAGS": "-Zsanitizer=thread -Cforce-frame-pointers=yes"}, "nightly", ["--no-default-features", "--target", TRIPLE, "-Zbuild-std"],
    )


def b_msan():
    cargo(
        crate_dir("harness"), os.path.join(TARGET, "msan"), ["ipmb", "ipmb-derive", "vh"],
        {"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes"}, "nightly",
        ["--no-default-features", "--target", TRIPLE, "-Zbuild-std"],
    )


FFI = os.path.join(TARGET, "ffi", "ffinode")


def b_ffi():
    """Programs in C and C++ on top of ipmb-ffi: everything under AddressSanitizer, the C++ parts under UBSan too."""
    b_versions()
    crate, tdir = crate_dir("ffi"), os.path.join(TARGET, "ffi")
    cargo(crate, tdir, ["ipmb", "ipmb-derive", "ffinode"], {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}, "nightly", ["--target", TRIPLE])
    lib = os.path.join(tdir, TRIPLE, "debug", "libipmb_ffi.a")
    node = os.path.join(ROOT, "ffi", "node.cc")
    h = hashlib.sha256((sources() + open(node).read()).encode()).hexdigest()
    stamp = FFI + ".stamp"
    if os.path.exists(FFI) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    tmp = f"{FFI}.{os.getpid()}"
    run(
        ["clang++", "-std=c++17", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-include", "memory", "-include", "string",
         f"-I{REPO}/ipmb-ffi/include", node, f"{REPO}/ipmb-ffi/ipmb.cc", lib, "-lpthread", "-ldl", "-lm", "-o", tmp],
        tdir,
    )
    os.rename(tmp, FFI)
    open(stamp, "w").write(h)


JS = os.path.join(TARGET, "js")


def b_js(asan=False):
    b_plain()
    crate, tdir = crate_dir("js"), JS + ("asan" if asan else "")
    names = ["ipmb", "ipmb-derive", "jsnode"]
    if asan:
        cargo(crate, tdir, names, {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}, "nightly", ["--target", TRIPLE])
        lib = os.path.join(tdir, TRIPLE, "debug", "libipmb_js.so")
    else:
        cargo(crate, tdir, names)
        lib = os.path.join(tdir, "debug", "libipmb_js.so")
    node = os.path.join(tdir, "ipmb_js.node")
    if not os.path.exists(node) or open(node, "rb").read() != open(lib, "rb").read():
        shutil.copy(lib, f"{node}.{os.getpid()}")
        os.rename(f"{node}.{os.getpid()}", node)


COMPAT = os.path.join(TARGET, "compat")


def ref_compatible():
    """Whether the tree's version is one that must work with the frozen one."""
    text = open(os.path.join(ROOT, "ref", "ipmb", "Cargo.toml")).read()
    r = tuple(int(x) for x in re.search(r'^version = "(\d+)\.(\d+)\.(\d+)', text, re.M).groups())
    v = base_version()
    return v[0] == r[0] and (v[0] != 0 or v[1] == r[1])


def b_compat():
    """The harness on top of the frozen library, optimised, and on top of the tree with shuffled data layouts."""
    b_plain()
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(ROOT, "ref"))):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), "rb").read())
    for f in sorted(os.listdir(os.path.join(ROOT, "harness", "src"))):
        h.update(open(os.path.join(ROOT, "harness", "src", f), "rb").read())
    for name, tree, key, cmd, flags in (
        ("ref", os.path.join(ROOT, "ref"), h.hexdigest(), ["cargo", "build"], "-Copt-level=3"),
        ("shuffled", REPO, h.hexdigest() + sources(), ["cargo", "+nightly", "build"], "-Zrandomize-layout -Zlayout-seed=7"),
    ):
        base = os.path.join(COMPAT, name)
        stamp = os.path.join(base, ".stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            continue
        os.makedirs(base, exist_ok=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
        crate = os.path.join(base, "harness")
        shutil.rmtree(crate, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "harness"), crate, ignore=shutil.ignore_patterns(".cargo", "target"))
        p = os.path.join(crate, "Cargo.toml")
        text = open(p).read().replace("/repo/ipmb", tree + "/ipmb")
        open(p, "w").write(text)
        e = {"CARGO_TARGET_DIR": os.path.join(base, "target"), "RUSTFLAGS": flags}
        clean = cmd[:-1] + ["clean", "--offline", "-p", "ipmb", "-p", "ipmb-derive", "-p", "vh"]
        subprocess.run(clean, cwd=crate, env={**os.environ, **e}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        run(cmd + ["--offline"], crate, e)
        with open(stamp, "w") as f:
            f.write(key)


def compat_exes():
    """Builds that must understand each other: the tree's, the tree's with other data layouts, the frozen one's."""
    names = ["shuffled"] + (["ref"] if ref_compatible() else [])
    return [binary("plain")] + [os.path.join(COMPAT, n, "target", "debug", "vh") for n in names]


BUILDERS = {"compat": b_compat, "plain": b_plain, "versions": b_versions, "asan": b_asan, "tsan": b_tsan, "msan": b_msan, "ffi": b_ffi, "js": b_js, "jsasan": lambda: b_js(True)}


def binary(variant, seed=0):
    if variant == "compat":
        # Programs of each kind are where most things happen, in turn
        exes = compat_exes()
        return exes[seed % len(exes)]
    if variant in ("plain", "versions", "ffi", "js", "jsasan"):
        return os.path.join(TARGET, "debug", "vh")
    return os.path.join(TARGET, variant, TRIPLE, "debug", "vh")


def env_of(variant):
    if variant == "compat":
        return {"VH_PEER_EXES": ",".join(compat_exes())}
    if variant == "versions":
        return {"VH_VERSIONS": versions_env()}
    if variant == "ffi":
        return {
            "VH_VERSIONS": versions_env(),
            "VH_FFI": FFI,
            "ASAN_OPTIONS": "log_path=$DIR/san:detect_leaks=1:exitcode=23:handle_abort=0",
            "UBSAN_OPTIONS": "log_path=$DIR/san:print_stacktrace=1:halt_on_error=1:exitcode=23",
        }
    if variant in ("js", "jsasan"):
        e = {"VH_JS": os.path.join(ROOT, "js", "node.js"), "VH_ADDON": os.path.join(TARGET, variant, "ipmb_js.node")}
        if variant == "jsasan":
            e["VH_NODE_PRELOAD"] = subprocess.run(
                ["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True, check=True
            ).stdout.strip()
            e["VH_NODE_ASAN"] = "log_path=$DIR/san:detect_leaks=0:handle_segv=0:handle_abort=0:exitcode=23"
        return e
    if variant == "asan":
        return {
            "ASAN_OPTIONS": "log_path=$DIR/san:allocator_may_return_null=1:detect_leaks=0:detect_odr_violation=0:handle_abort=0",
            "RUST_MIN_STACK": str(32 << 20),
        }
    if variant == "tsan":
        return {"TSAN_OPTIONS": "log_path=$DIR/san:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0"}
    if variant == "msan":
        return {"MSAN_OPTIONS": "log_path=$DIR/san:handle_abort=0"}
    return {}


def need(variants):
    for v in variants:
        BUILDERS[v]()


def setup():
    need(list(BUILDERS))
