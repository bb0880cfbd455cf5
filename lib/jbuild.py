"""Builds the Java classes, the JNI library and the Java driver from /repo's working tree into a content-addressed folder."""
import glob, hashlib, os, subprocess, tempfile
from vbuild import BuildError, REPO, VERIF, amalgamate, build_root, srcdir_of

HOME = os.environ.get("JAVA_HOME") or "/usr/lib/jvm/java-17-openjdk-amd64"
FLAGS = {"fast": ["-O2"], "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]}
COMMON = ["-w", "-shared", "-fPIC", "-ffp-contract=off", "-DNDEBUG"]


def build(variant="asan"):
    """returns a folder with classes/ and libCocoJNI.so"""
    jd = os.path.join(REPO, "build", "java")
    src = {}
    for f in sorted(glob.glob(os.path.join(jd, "*.java")) + [os.path.join(jd, "CocoJNI.c")]):
        with open(f, encoding="utf-8") as h:
            src[os.path.basename(f)] = h.read()
    with open(os.path.join(VERIF, "drv", "JDrv.java")) as f:
        src["JDrv.java"] = f.read()
    coco = amalgamate(srcdir_of("cut"))
    with open(os.path.join(srcdir_of("cut"), "coco.h")) as f:
        hdr = f.read()
    flags = COMMON + FLAGS[variant]
    key = hashlib.sha256("\0".join([coco, hdr, repr(sorted(src.items())), " ".join(flags)]).encode()).hexdigest()[:20]
    root = build_root()
    dest = os.path.join(root, "java-%s-%s" % (variant, key))
    if os.path.isdir(dest):
        return dest
    with tempfile.TemporaryDirectory(dir=root) as td:
        w, out = os.path.join(td, "w"), os.path.join(td, "out")
        os.makedirs(w)
        os.makedirs(os.path.join(out, "classes"))
        for n, t in list(src.items()) + [("coco.c", coco), ("coco.h", hdr)]:
            with open(os.path.join(w, n), "w", encoding="utf-8") as f:
                f.write(t)

        def run(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=w)
            if r.returncode:
                raise BuildError("%s failed:\n%s" % (" ".join(cmd)[:300], r.stderr[-4000:]))
        run(["javac", "-nowarn", "-encoding", "UTF-8", "-d", os.path.join(out, "classes"), "-h", "."] + sorted(n for n in src if n.endswith(".java")))
        run(["gcc"] + flags + ["-I.", "-I" + os.path.join(HOME, "include"), "-I" + os.path.join(HOME, "include", "linux"), "-o", os.path.join(out, "libCocoJNI.so"), "CocoJNI.c", "-lm"])
        try:
            os.rename(out, dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
    return dest


def command(dest):
    return ["java", "-Xcheck:jni", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx256m", "-Djava.library.path=" + dest, "-cp", os.path.join(dest, "classes"), "JDrv"]


def env(variant):
    e = {}
    if variant == "asan":
        e["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=86:handle_segv=0:handle_sigill=0:handle_sigfpe=0:allow_user_segv_handler=1:detect_stack_use_after_return=0"
    return e
