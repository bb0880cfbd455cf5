"""Executable model of the single-objective log: from a call history to the expected contents of all files."""
import math

DBL_MAX = 1.7976931348623157e308
NAN_LOG, INF_LOG = 2e21, 3e21


def pow10(x):
    """pow(10, x) as in C: infinite where it overflows"""
    try:
        return math.pow(10, x)
    except OverflowError:
        return math.inf


class Targets:
    """targets at 10**(k/n) down to the precision, and at multiples of the linear precision"""

    def __init__(self, n, logp, linp, use_log=True):
        self.n, self.logp, self.linp, self.use_log = n, logp, linp, use_log
        self.exp, self.lin = 2147483647, DBL_MAX

    def log_trigger(self, v):
        if not self.use_log or v != v or math.isinf(v):
            return False
        if v >= 0:
            w = self.logp / 10.0 if v == 0 else max(v, self.logp)
            e = int(math.ceil(math.log10(w) * self.n))
        else:
            w = max(-v, self.logp)
            e = 2 * int(math.ceil(math.log10(self.logp / 10.0) * self.n)) - int(math.floor(math.log10(w) * self.n)) - 1
        if e < self.exp:
            self.exp = e
            return True
        return False

    def lin_trigger(self, v):
        p = self.linp
        up, near = math.ceil(v / p) * p, math.floor(v / p + 0.5) * p
        t = up if abs(near - up) < p or not abs(v - near) < 1e-12 else near
        if t < self.lin:
            self.lin = t
            return True
        return False

    def trigger(self, v):
        a, b = self.log_trigger(v), self.lin_trigger(v)
        return a or b


class Evaluations:
    """floor(10**(k/20)) for all k, and dimension * base * 10**k for all k"""

    def __init__(self, base, dim, n=20):
        self.n, self.base, self.dim = n, base, dim
        self.v1, self.e1 = 1, 0
        self.bi, self.e2 = 0, 0
        self.v2 = dim * base[0]

    def trigger(self, k):
        hit = False
        if k >= self.v1:
            f = lambda: int(math.floor(math.pow(10, self.e1 / self.n)))
            while f() <= self.v1:
                self.e1 += 1
            self.v1 = f()
            hit = True
        if k >= self.v2:
            self.bi += 1
            if self.bi == len(self.base):
                self.bi, self.e2 = 0, self.e2 + 1
            self.v2 = int(10 ** self.e2 * self.dim * self.base[self.bi])
            hit = True
        return hit


def digit(c):
    for i, lim in enumerate((0, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1)):
        if c <= lim:
            return i
    return 9


def logged(y):
    return NAN_LOG if y != y else INF_LOG if math.isinf(y) else y


class Options:
    def __init__(self, nt=100, logp=1e-8, linp=1e-5, base=(1, 2, 5), as_int=0, alg="ALG", prefix="bbobexp", observer="bbob", nev=20, info=""):
        self.nt, self.logp, self.linp, self.base, self.as_int = nt, logp, linp, tuple(base), as_int
        self.alg, self.prefix, self.observer, self.nev, self.info = alg, prefix, observer, nev, info


HEADER = ("%% f evaluations | g evaluations | best noise-free fitness - Fopt (%13.12e) + sum g_i+ | measured fitness | "
          "best measured fitness or single-digit g-values | x1 | x2...")


class Folder:
    """the expected contents of the result folder of one observer"""

    def __init__(self, opt):
        self.o = opt
        self.files = {}      # relative name -> list of lines (info: pieces without line structure)
        self.last = None
        self.lastdat = None

    def begin(self, suite, f, d, inst, fopt, nint, ncons):
        return Problem(self, suite, f, d, inst, fopt, nint, ncons)

    def open(self, p):
        o = self.o
        info = "%s_f%d.info" % (o.prefix, p.f)
        new = self.last != (p.f, p.d)
        if new:
            rel = "data_f%d/bbobexp_f%d_DIM%d" % (p.f, p.f, p.d)
            name, k = rel, 1
            while name + ".dat" in self.files:
                name = "%s-%04d" % (rel, k)
                k += 1
            self.last, self.lastdat = (p.f, p.d), name
            text = self.files.get(info)
            head = "suite = '%s', funcId = %d, DIM = %d, Precision = 1.000e-08, algId = '%s', coco_version = 'verif', logger = '%s', data_format = 'bbob-new2'\n%%%s\n%s.dat" % (
                p.suite, p.f, p.d, o.alg, o.observer, " " + o.info if o.info else "", name)
            self.files[info] = (text + "\n" if text is not None else "") + head
        p.info = info
        self.files[info] += ", %d" % p.inst
        p.out = {}
        for e in ("dat", "tdat", "rdat", "mdat"):
            p.out[e] = self.files.setdefault("%s.%s" % (self.lastdat, e), [])
            p.out[e].append(HEADER % p.fopt)


class Problem:
    def __init__(self, folder, suite, f, d, inst, fopt, nint, ncons):
        o = folder.o
        self.fd, self.suite, self.f, self.d, self.inst, self.fopt, self.nint, self.ncons = folder, suite, f, d, inst, fopt, nint, ncons
        self.t, self.mt = Targets(o.nt, o.logp, o.linp), Targets(o.nt, o.logp, o.linp)
        self.ev = Evaluations(o.base, d, o.nev)
        self.info = None
        self.nf = self.ng = 0          # counters as the logger sees them
        self.ncon = 0                  # constraint evaluations so far
        self.best, self.xbest = DBL_MAX, None
        self.rbest, self.xrbest = INF_LOG, None
        self.ldat = self.ltdat = self.lmdat = 0
        self.restarted = False

    def line(self, e, x, cur, best, g):
        s = "%d %d %+10.9e %+10.9e " % (self.nf, self.ng, best - self.fopt, cur)
        s += "".join(str(digit(c)) for c in g) if self.ncons > 0 and g is not None else "%+10.9e" % best
        if self.d < 22:
            for i, v in enumerate(x):
                s += " %d" % int(math.floor(v + 0.5)) if i < self.nint and self.fd.o.as_int else " %+5.4e" % v
        self.out[e].append(s)

    def value(self, y, g):
        y = logged(y)
        s = 0.0
        for c in g or ():
            if not c <= 0:
                s += c
        return y, max(y, self.fopt) + logged(s)

    def cons(self):
        self.ncon += 1

    def evaluate(self, x, y, g=None):
        if self.info is None:
            self.fd.open(self)
        self.nf += 1
        self.ng = self.ncon
        y, v = self.value(y, g)
        if self.nf == 1 or v < self.best:
            self.best, self.xbest = v, x
            if self.nf == 1 or self.t.trigger(v - self.fopt):
                self.line("dat", x, y, v, g)
                self.ldat = self.nf
        if self.ev.trigger(self.nf + self.ng):
            self.line("tdat", x, y, self.best, g)
            self.ltdat = self.nf
        if self.restarted:
            self.line("rdat", x, y, self.best, g)
            self.restarted = False

    def recommend(self, x, y, g=None):
        if self.info is None:
            self.fd.open(self)
        y, v = self.value(y, g)
        if v < self.rbest:
            self.rbest, self.xrbest = v, x
            if self.mt.trigger(v - self.fopt):
                self.line("mdat", x, y, v, g)
                self.lmdat = self.nf

    def restart(self):
        if self.nf > 0:
            self.restarted = True

    def end(self):
        if self.info is None:
            return
        self.fd.files[self.info] += ":%d|%.1e" % (self.nf, self.best - self.fopt)
        if self.nf != self.ldat:
            self.line("dat", self.xbest, self.best, self.best, None)
        if self.nf != self.ltdat:
            self.line("tdat", self.xbest, self.best, self.best, None)
        if self.nf != self.lmdat and self.lmdat != 0:
            self.line("mdat", self.xrbest, self.rbest, self.rbest, None)


def same_line(a, b, rel):
    if a == b:
        return True
    u, v = a.replace("(", " ").replace(")", " ").split(), b.replace("(", " ").replace(")", " ").split()
    if len(u) != len(v):
        return False
    for k, (p, q) in enumerate(zip(u, v)):
        if p == q:
            continue
        if "e" not in p or "e" not in q:
            return False
        try:
            p, q = float(p), float(q)
        except ValueError:
            return False
        if abs(p - q) > rel * max(abs(p), abs(q)) + 1e-300:
            # the difference to the optimum inherits the absolute error of the value
            scale = max(abs(float(t)) for t in v[3:4]) if len(v) > 3 else 0
            if k == 2 and abs(p - q) <= rel * (scale + 1000):
                continue
            return False
    return True


def compare(expected, actual, rel=3e-9):
    """first difference between two sets of files (name -> text), or None"""
    for n in sorted(set(expected) | set(actual)):
        if n not in actual:
            return "missing file", "%s is missing" % n
        if n not in expected:
            return "unexpected file", "%s was not expected" % n
        e, a = expected[n], actual[n]
        ext = n.rsplit(".", 1)[-1]
        if isinstance(e, list):
            if a and not a.endswith("\n"):
                return ext + " unfinished", "%s does not end with a newline" % n
            al = a.split("\n")[:-1]
            for k, (x, y) in enumerate(zip(e, al)):
                if not same_line(y, x, rel):
                    return ext + " line", "%s line %d is %r, expected %r" % (n, k + 1, y, x)
            if len(e) != len(al):
                k = min(len(e), len(al))
                return ext + " number of lines", "%s has %d lines, expected %d; first surplus %r" % (n, len(al), len(e), (e + al)[k] if len(e) > len(al) else al[k])
        elif e != a:
            k = next((k for k in range(min(len(e), len(a))) if e[k] != a[k]), min(len(e), len(a)))
            if rel > 1e-8:      # values known approximately only: the one-digit final precision may round differently
                import re
                z = lambda s: re.sub(r"\|[-+.0-9e]+", "|#", s)
                if z(e) == z(a):
                    continue
            return ext + " text", "%s differs at position %d: %r, expected %r" % (n, k, a[max(0, k - 60):k + 60], e[max(0, k - 60):k + 60])
    return None


def read_tree(root):
    import os
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, encoding="utf-8", errors="replace", newline="") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out
