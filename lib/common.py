"""Shared machinery of the checks: running instrumented drivers, reading event logs, verdicts, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, REPO

NCPU = max(2, min(8, os.cpu_count() or 2))
NULL = "NULL"

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=0:allocator_may_return_null=0:handle_abort=1",
    "LSAN_OPTIONS": "exitcode=87:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=88",
    "MSAN_OPTIONS": "exitcode=89:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=90:halt_on_error=1",
    "MALLOC_PERTURB_": "165",       # uninitialised memory is not zero by chance, freed memory is overwritten
    "LC_ALL": "C",
}


class HarnessError(Exception):
    """The check itself could not do its work: never a verdict."""


def fl(s):
    """exact number of an event field"""
    s = s.strip()
    if s == "nan":
        return float("nan")
    if s in ("inf", "-inf"):
        return float(s)
    return float.fromhex(s)


def hx(v):
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    return float(v).hex()


class Event:
    __slots__ = ("n", "cmd", "f", "whole")

    def __init__(self, n, cmd, f):
        self.n, self.cmd, self.f = n, cmd, f

    def nums(self, a=0, b=None):
        return [fl(s) for s in self.f[a:b]]

    def __repr__(self):
        return "%s %s %s" % (self.n, self.cmd, self.f[:12])


class Result:
    def __init__(self):
        self.events, self.rc, self.out, self.err, self.dir, self.timeout = [], None, "", "", None, False
        self.ended = self.clean = False

    @property
    def crashed(self):
        return not (self.ended and self.clean and self.rc == 0)

    def describe(self):
        last = self.events[-1] if self.events else None
        tail = self.err.strip().splitlines()
        pick = [l for l in tail if re.search(r"ERROR: |runtime error|SUMMARY|FATAL|WARNING: MemorySan|Assertion|leak", l)][:6] or tail[-4:]
        return "rc=%s%s after event %r; %s" % (self.rc, " (timeout)" if self.timeout else "", last, " / ".join(pick)[:900])

    def signature(self):
        """stable one-line class of an abnormal end"""
        if self.timeout:
            return "hang"
        m = re.search(r"Assertion `(.*)' failed", self.err)
        if m:
            return "assert " + m.group(1)[:100]
        m = re.search(r"SUMMARY: (\S+: \S+)(?:.*? in (\S+))?", self.err)
        if m:
            frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ((?:coco|suite|f_|transform|logger|mo_|observer|c_|obs|avl|_)\w*)", self.err)
            return "%s %s" % (m.group(1), ",".join(frames[:2]) or m.group(2))
        m = re.search(r"runtime error: (.*)", self.err)
        if m:
            return "UBSan " + m.group(1)[:80]
        m = re.search(r"COCO FATAL ERROR: (.*)", self.err)
        if m:
            return "fatal: " + m.group(1)[:100]
        return "rc=%s" % self.rc


def parse_events(path):
    ev, ended, clean = [], False, False
    try:
        with open(path, encoding="utf-8", errors="replace", newline="\n") as f:
            for line in f:
                whole = line.endswith("\n")
                line = line.rstrip("\n")
                if line == "END":
                    ended = True
                elif line == "CLEAN":
                    clean = True
                else:
                    t = line.split("\t")
                    if len(t) >= 2 and t[0].isdigit():
                        ev.append(Event(int(t[0]), t[1], t[2:]))
                        ev[-1].whole = whole
    except FileNotFoundError:
        pass
    return ev, ended, clean


def to_text(cmds):
    out = []
    for c in cmds:
        if isinstance(c, str):
            out.append(c)
        else:
            out.append("\t".join(hx(v) if isinstance(v, float) else str(v).replace("\t", "\x01").replace("\n", "\x02") for v in c))
    return "\n".join(out) + "\n"


class Stop(Exception):
    """enough is known: a violation that makes going on pointless or too slow"""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.viol = []         # (key, message, replay path)
        self.known_hit = {}
        self.stop = False
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.n = 0
        self.known = self.load_known()

    # -- bookkeeping -------------------------------------------------------
    def load_known(self):
        known = []
        try:
            with open(os.path.join(VERIF, "known-findings.txt")) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=(\S.*?) :: (.*)", line.strip())
                    if m and m.group(1) == self.pid:
                        known.append((m.group(2), m.group(3)))
        except FileNotFoundError:
            pass
        return known

    def count(self, n=1, **kw):
        with self.lock:
            self.evaluations += n
            for k, v in kw.items():
                self.counters[k] = self.counters.get(k, 0) + v

    def bump(self, **kw):
        self.count(0, **kw)

    def case(self, key, sample=None, n=1):
        """one executed case; key identifies it up to distinctness"""
        with self.lock:
            self.evaluations += n
            self.distinct.add(key if isinstance(key, (str, tuple)) else repr(key))
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def violation(self, key, message, replay=None):
        with self.lock:
            for k, what in self.known:
                if k == key:
                    self.known_hit[k] = what
                    return
            self.n += 1
            if any(v[0] == key for v in self.viol) or len(self.viol) >= 20:
                return
            d = os.path.join(VERIF, "evidence")
            path = os.path.join(d, "replay-%s-%d.json" % (self.pid, len(self.viol) + 1))
            try:
                os.makedirs(d, exist_ok=True)
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "message": message, "seed": self.seed,
                               "tier": self.tier, "replay": replay}, f, indent=1)
            except OSError:
                pass
            self.viol.append((key, message, path))

    # -- running -----------------------------------------------------------
    def build(self, *specs):
        """specs: 'tree:variant' ; returns list of binaries (built in parallel)"""
        def one(s):
            p = s.split(":")
            return vbuild.build(p[0], p[1], *(p[2:3]))
        with ThreadPoolExecutor(4) as ex:
            return list(ex.map(one, specs))

    def mkdir(self, name=None):
        with self.lock:
            self._d = getattr(self, "_d", 0) + 1
            p = os.path.join(self.scratch, "%s%d" % (name or "w", self._d))
        os.makedirs(p)
        return p

    def drop(self, *dirs):
        for d in dirs:
            if isinstance(d, Result):
                d = d.dir
            if d and os.path.abspath(d).startswith(self.scratch + os.sep):
                shutil.rmtree(d, ignore_errors=True)

    def run(self, exe, cmds, loglevel="warning", timeout=120, cwd=None, env=None, keep=False, prefix=(), retry=True, argv=()):
        if self.quick and retry is True:
            timeout = min(timeout, 60)
        d = cwd or self.mkdir()
        r = Result()
        r.dir = d
        io = self.mkdir("io")
        sc, evp = os.path.join(io, "script"), os.path.join(io, "events")
        with open(sc, "w", encoding="utf-8", newline="\n") as f:
            f.write(to_text(cmds))
        e = dict(os.environ)
        e.update(SAN_ENV)
        if env:
            e.update(env)
        so, se = os.path.join(io, "o"), os.path.join(io, "e")
        with open(so, "wb") as fo, open(se, "wb") as fe:
            p = subprocess.Popen(list(prefix) + [exe] + list(argv) + [sc, evp, loglevel], cwd=d, stdin=subprocess.DEVNULL,
                                 stdout=fo, stderr=fe, env=e, start_new_session=True)
            try:
                r.rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                r.timeout = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                r.rc = p.wait()
        r.out = open(so, encoding="utf-8", errors="replace").read()
        r.err = open(se, encoding="utf-8", errors="replace").read()
        r.events, r.ended, r.clean = parse_events(evp)
        shutil.rmtree(io, ignore_errors=True)
        if r.timeout and not cwd:
            if retry is True:      # a busy machine? once more with much more time
                shutil.rmtree(d, ignore_errors=True)
                return self.run(exe, cmds, loglevel, timeout * 4, cwd, env, keep, prefix, "last", argv)
            if retry:
                self.violation("hang", "no end after %d s of a program that normally takes a few seconds, after %d of %d calls: %s" % (
                    timeout, len(r.events), len(cmds), [str(c)[:120] for c in list(cmds)[max(0, len(r.events) - 1):len(r.events) + 1]]), {"script": to_text(cmds)[:200000]})
                raise Stop()
        if not keep and not cwd:
            shutil.rmtree(d, ignore_errors=True)
        return r

    def legit(self, r, what, cmds):
        """a workload that only uses the API as documented must end normally and silently for the sanitizers"""
        if r.crashed:
            self.violation("abnormal-end: " + r.signature(), "%s: %s" % (what, r.describe()), {"script": to_text(cmds)[:200000]})
            return False
        return True

    def par(self, fn, items, workers=NCPU):
        items = list(items)
        if not items:
            return []

        def wrap(x):
            if self.viol and time.time() - self.t0 > (400 if self.quick else 3000):
                self.stop = True
            if self.stop:
                return None
            try:
                return fn(x)
            except Stop:
                self.stop = True
            except subprocess.TimeoutExpired as e:
                self.violation("hang", "%s: %s" % (str(x)[:300], str(e)[:300]))
                self.stop = True
            except (LookupError, ValueError, TypeError, AttributeError, ArithmeticError) as e:
                # on a tree with the property every record can be read: see DESIGN.md, "unreadable records"
                t = traceback.format_exc()
                self.violation("unreadable record: %s" % type(e).__name__, "%s: %s" % (str(x)[:300], t[-1500:]))
            return None

        with ThreadPoolExecutor(workers) as ex:
            out = list(ex.map(wrap, items))
        if self.stop:
            raise Stop()
        return out

    # -- end ---------------------------------------------------------------
    def finish(self, level="exploration"):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples[:6]}
        cov.update(self.counters)
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))
        for k, what in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for key, msg, path in self.viol:
            print("  %s :: %s" % (key, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violation(s), %.1f s  %s" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.viol), time.time() - self.t0,
            " ".join("%s=%s" % kv for kv in sorted(self.counters.items()))))
        return 1 if self.viol else 0


def close(a, b, rel=1e-9, ab=1e-9):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if abs(a) == float("inf") or abs(b) == float("inf"):
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
