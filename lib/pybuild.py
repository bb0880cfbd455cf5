"""Builds the Python package from /repo's working tree into a content-addressed folder of /verif/.build."""
import hashlib, os, shutil, subprocess, tempfile
from vbuild import BuildError, REPO, amalgamate, build_root, srcdir_of

VENV = "/opt/vp/venv/bin/python"
FLAGS = {
    "fast": ["-O2", "-DNDEBUG"],
    "asan": ["-O1", "-g", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=address"],
}
COMMON = ["-w", "-shared", "-fPIC", "-ffp-contract=off", "-DNPY_NO_DEPRECATED_API=NPY_1_23_API_VERSION"]


def sources():
    d = os.path.join(REPO, "build", "python", "src", "cocoex")
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith((".py", ".pyx")) and f != "_version.py":
            with open(os.path.join(d, f), encoding="utf-8") as h:
                out[f] = h.read()
    out["_version.py"] = '__version__ = "verif"\n'
    return out


def build(variant="fast"):
    """returns the folder to put on PYTHONPATH"""
    src = sources()
    coco = amalgamate(srcdir_of("cut"))
    with open(os.path.join(srcdir_of("cut"), "coco.h")) as f:
        hdr = f.read()
    flags = COMMON + FLAGS[variant]
    key = hashlib.sha256("\0".join([coco, hdr, repr(sorted(src.items())), " ".join(flags)]).encode()).hexdigest()[:20]
    root = build_root()
    dest = os.path.join(root, "py-%s-%s" % (variant, key))
    if os.path.isdir(dest):
        return dest
    inc = subprocess.run([VENV, "-c", "import sysconfig, numpy; print(sysconfig.get_path('include')); print(numpy.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True, check=True).stdout.split()
    with tempfile.TemporaryDirectory(dir=root) as td:
        pkg = os.path.join(td, "site", "cocoex")
        os.makedirs(pkg)
        w = os.path.join(td, "w")
        os.makedirs(os.path.join(w, "cocoex"))
        for n, t in src.items():
            with open(os.path.join(pkg if n.endswith(".py") else os.path.join(w, "cocoex"), n), "w", encoding="utf-8") as f:
                f.write(t)
        with open(os.path.join(w, "cocoex", "__init__.py"), "w") as f:
            f.write("")
        with open(os.path.join(w, "coco.c"), "w") as f:
            f.write(coco)
        with open(os.path.join(w, "coco.h"), "w") as f:
            f.write(hdr)

        def run(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=w)
            if r.returncode:
                raise BuildError("%s failed:\n%s" % (" ".join(cmd)[:300], r.stderr[-4000:]))
        jobs = []
        base = ["gcc"] + flags + ["-I", w, "-I", inc[0], "-I", inc[1]]
        run([x for x in base if x != "-shared"] + ["-c", "-o", "coco.o", "coco.c"])
        from concurrent.futures import ThreadPoolExecutor

        def ext(m):
            run([VENV, "-m", "cython", "-3", "--module-name", "cocoex." + m, "-o", m + ".c", os.path.join("cocoex", m + ".pyx")])
            run(base + ["-o", os.path.join(pkg, m + inc[2]), m + ".c", "coco.o", "-lm"])
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(ext, [n[:-4] for n in src if n.endswith(".pyx")]))
        try:
            os.rename(os.path.join(td, "site"), dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
    return dest


def env(variant, site):
    e = {"PYTHONPATH": site, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    if variant == "asan":
        e["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=86:handle_segv=1:allocator_may_return_null=1"
        e["PYTHONMALLOC"] = "malloc"
    return e
