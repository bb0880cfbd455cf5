"""Builds instrumented copies of the code under test from /repo's current working tree.

Everything is derived from the sources at call time (amalgamation of src/*.c, the
same include-once rule as scripts/fabricate) and cached by content hash under
/verif/.build (git-ignored), so that an unchanged tree is not recompiled.
"""
import hashlib, os, re, subprocess, sys, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REF = os.path.join(VERIF, "ref")
CORE = ["coco_random.c", "coco_suite.c", "coco_observer.c", "coco_archive.c",
        "coco_version.c", "coco_runtime_c.c"]


def build_root():
    d = os.path.join(VERIF, ".build")
    try:
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryFile(dir=d):
            pass
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-build-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def amalgamate(srcdir, files=None):
    out, done = [], set()

    def go(name):
        path = os.path.normpath(os.path.join(srcdir, name))
        if path in done:
            return
        done.add(path)
        if not os.path.exists(path):
            if os.path.basename(name) == "coco_version.c":
                # generated by the project's fabricate step, absent in a clean checkout
                out.append('const char *coco_version = "verif";\n')
                return
            raise FileNotFoundError(path)
        if os.path.basename(name) == "coco_version.c":
            out.append('const char *coco_version = "verif";\n')
            return
        out.append('#line 1 "%s"\n' % os.path.basename(path))
        with open(path, encoding="utf-8", errors="replace") as f:
            for ln, line in enumerate(f, 1):
                m = re.match(r'\s*#\s*include\s+"(.*)"', line)
                if m and os.path.exists(os.path.join(os.path.dirname(path), m.group(1))) \
                        or (m and m.group(1) == "coco_version.c"):
                    go(os.path.relpath(os.path.join(os.path.dirname(path), m.group(1)), srcdir))
                    out.append('#line %d "%s"\n' % (ln + 1, os.path.basename(path)))
                else:
                    out.append(line)

    for f in files or CORE:
        go(f)
    return "".join(out)


class BuildError(Exception):
    pass


def srcdir_of(tree):
    return os.path.join(REPO, "src") if tree == "cut" else os.path.join(REF, "src")


VARIANTS = {
    # name: (compiler, flags)
    "fast": ("gcc", ["-O2", "-g1", "-ffp-contract=off"]),
    "asan": ("gcc", ["-O1", "-g", "-ffp-contract=off", "-fno-omit-frame-pointer",
                     "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow"]),
    "msan": ("clang", ["-O1", "-g", "-ffp-contract=off", "-fno-omit-frame-pointer",
                       "-fsanitize=memory", "-fsanitize-memory-track-origins"]),
    "tsan": ("gcc", ["-O1", "-g", "-ffp-contract=off", "-fsanitize=thread"]),
    "ndebug": ("gcc", ["-O2", "-g1", "-ffp-contract=off", "-DNDEBUG"]),
    # arithmetic re-associated and contracted: shows how sensitive a value is to rounding
    "loose": ("gcc", ["-O2", "-g1", "-mfma", "-ffp-contract=fast", "-fassociative-math", "-fno-signed-zeros", "-fno-trapping-math"]),
    "dbg": ("gcc", ["-O0", "-g", "-ffp-contract=off"]),
}


def build(tree="cut", variant="fast", driver="driver.c", extra=()):
    """Compile the driver together with the amalgamated library; returns the binary's path."""
    cc, flags = VARIANTS[variant]
    src = amalgamate(srcdir_of(tree))
    with open(os.path.join(VERIF, "drv", driver)) as f:
        drv = f.read()
    with open(os.path.join(srcdir_of(tree), "coco.h")) as f:
        hdr = f.read()
    key = hashlib.sha256("\0".join([src, drv, hdr, cc, " ".join(flags), " ".join(extra)]).encode()).hexdigest()[:20]
    root = build_root()
    exe = os.path.join(root, "%s-%s-%s-%s" % (os.path.splitext(driver)[0], tree, variant, key))
    if os.path.exists(exe):
        return exe
    with tempfile.TemporaryDirectory(dir=root) as td:
        with open(os.path.join(td, "coco.c"), "w") as f:
            f.write(src)
        with open(os.path.join(td, "coco.h"), "w") as f:
            f.write(hdr)
        with open(os.path.join(td, driver), "w") as f:
            f.write(drv)
        cmd = [cc] + flags + ["-w", "-I", td, "-o", os.path.join(td, "out"),
                              os.path.join(td, driver), os.path.join(td, "coco.c"), "-lm", "-lpthread"] + list(extra)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("build of %s/%s failed:\n%s" % (tree, variant, r.stderr[-4000:]))
        os.replace(os.path.join(td, "out"), exe)
    return exe


def build_shim(name="shim.c"):
    """the LD_PRELOAD helper (depends on /verif only)"""
    with open(os.path.join(VERIF, "drv", name)) as f:
        src = f.read()
    root = build_root()
    so = os.path.join(root, "%s-%s.so" % (name[:-2], hashlib.sha256(src.encode()).hexdigest()[:16]))
    if not os.path.exists(so):
        with tempfile.TemporaryDirectory(dir=root) as td:
            out = os.path.join(td, "x.so")
            subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", out, os.path.join(VERIF, "drv", name), "-ldl"], check=True)
            os.replace(out, so)
    return so


if __name__ == "__main__":
    import time
    for t in sys.argv[1:] or ["cut:fast", "cut:asan"]:
        a, b = t.split(":")
        t0 = time.time()
        print(build(a, b), round(time.time() - t0, 1))
