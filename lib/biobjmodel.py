"""Executable model of the bi-objective log: archive, hypervolume indicator and expected contents of all files."""
import math, os, re
from bbobmodel import pow10, Targets, Evaluations, DBL_MAX
from vbuild import VERIF

EPS, GRID = 1e-13, 5e-13


def reference_values():
    out = {}
    text = open(os.path.join(VERIF, "ref", "src", "suite_biobj_best_values_hyp.c")).read()
    for k, v in re.findall(r'"(\S+) ([-+.0-9e]+)"', text):
        out.setdefault(k, float(v))
    return out


class Archive:
    """brute-force non-dominated set over rounded normalised objective vectors"""

    def __init__(self, ideal, nadir):
        self.ideal, self.nadir, self.items = ideal, nadir, []      # (normalised, payload)

    def normalise(self, y):
        n = []
        for v, i, a in zip(y, self.ideal, self.nadir):
            w = (v - i) / (a - i)
            w = math.floor(w / GRID + 0.5) * GRID if abs(w) < 1e280 else w
            n.append(max(w, 0.0))
        for k in (0, 1):
            if abs(n[k]) < EPS and n[1 - k] < 1:
                n[1 - k] = 1.0
        return n

    def add(self, y, payload):
        if any(v != v for v in y):
            return None
        n = self.normalise(y)
        le = lambda a, b: a <= b + EPS * 0.999      # equal if closer than EPS
        for m, _ in self.items:
            if le(m[0], n[0]) and le(m[1], n[1]):
                return None
        self.items = [(m, p) for m, p in self.items if not (le(n[0], m[0]) and le(n[1], m[1]))]
        self.items.append((n, payload))
        return n

    def hypervolume(self):
        inside = sorted((m for m, _ in self.items if m[0] <= 1 + EPS and m[1] <= 1 + EPS), key=lambda m: m[0])
        hv, top = 0.0, 1.0
        for m in inside:      # first objective grows, second shrinks
            hv += (1 - m[0]) * (top - m[1])
            top = m[1]
        return hv

    @staticmethod
    def distance(n):
        a, b = max(n[0] - 1, 0), max(n[1] - 1, 0)
        if n[0] <= 1 + EPS and n[1] <= 1 + EPS:
            return 0.0
        return math.sqrt(a * a + b * b)


class BTargets(Targets):
    value = DBL_MAX

    def log_trigger(self, v):
        hit = Targets.log_trigger(self, v)
        if hit:
            w = max(abs(v), self.logp)
            n = self.n
            if v == 0:
                self.value = 0.0
            elif v > 0:
                self.value = pow10(math.ceil(math.log10(w) * n) / n)
            else:
                self.value = -pow10(math.floor(math.log10(w) * n) / n)
        return hit

    def last(self):
        return min(self.lin, self.value) if self.use_log else self.lin


class Options:
    def __init__(self, nt=100, logp=1e-8, linp=1e-5, base=(1, 2, 5), as_int=0, alg="ALG", info="", px=8, pf=15, mode="all", lvars="low_dim", ind=1):
        self.nt, self.logp, self.linp, self.base, self.as_int = nt, logp, linp, tuple(base), as_int
        self.alg, self.info, self.px, self.pf, self.mode, self.lvars, self.ind = alg, info, px, pf, mode, lvars, ind


class Approx:
    def __init__(self, v, prec):
        self.v, self.prec = v, prec

    def matches(self, tok):
        if not re.fullmatch(r"-?\d\.\d{%d}e[-+]\d\d+" % self.prec, tok):
            return False
        a = float(tok)
        if self.v == DBL_MAX:
            return tok == "%.*e" % (self.prec, self.v)
        e = int(tok.split("e")[1])
        return abs(a - self.v) <= 0.5001 * 10.0 ** (e - self.prec) + 2e-12 + 1e-11 * abs(self.v)

    def __repr__(self):
        return "%.*e" % (self.prec, self.v)


class Folder:
    def __init__(self, opt, shift=0.0):
        self.o, self.files, self.prev, self.shift = opt, {}, None, shift

    def begin(self, *a, **kw):
        return Problem(self, *a, **kw)


class Problem:
    """f: function, d: dimension, inst: instance, info fields of the problem, ideal and nadir"""

    def __init__(self, fd, suite, f, d, inst, pid, name, ptype, index, nint, ideal, nadir, ref, known):
        o = fd.o
        self.fd, self.d, self.inst, self.nint = fd, d, inst, nint
        s = fd.shift
        ideal = [i + s * 1e-15 * (abs(i) + abs(n)) for i, n in zip(ideal, nadir)]
        self.arch, self.ref = Archive(ideal, nadir), ref
        self.n, self.restarted = 0, False
        self.targets, self.evals = BTargets(o.nt, o.logp, o.linp, known), Evaluations(o.base, d)
        self.penalty, self.overall, self.hit, self.logged = DBL_MAX, 0.0, False, False
        self.lvars = o.lvars == "all" or (o.lvars == "low_dim" and d <= 5)
        self.active = not (o.mode == "none" and not o.ind)
        if not self.active:
            return
        prefix = re.sub(r"_i\d+", "", pid, 1)
        F = fd.files
        head = ["%% instance = %d, name = %s" % (inst, name), "% function evaluation | 2 objectives" + (" | %d variables" % d if self.lvars else "")]
        self.adat = None
        if o.mode in ("all", "final"):
            self.adat = F.setdefault("archive/%s_nondom_%s.adat" % (pid, o.mode), [])
            self.adat += head if self.lvars else [head[0], head[1] + " "]
        self.mdat = F.setdefault("%s/%s.mdat" % (ptype, prefix), [])
        self.mdat += head
        if o.ind:
            k = "%s_hyp.info" % ptype
            if k not in F:
                F[k] = ["suite = '%s', algorithm = '%s', indicator = 'hyp', folder = '%s', coco_version = 'verif'" % (suite, o.alg, ptype),
                        "%% %s%s" % (o.info, " (reconstructed)" if o.mode == "read" else "")]
            if fd.prev != (f, d):
                fd.prev = (f, d)
                F[k].append("function = %2d, dim = %2d, %s_hyp.dat" % (f, d, prefix))
            self.info = F[k]
            self.ind = {}
            for e in ("dat", "tdat", "rdat"):
                self.ind[e] = F.setdefault("%s/%s_hyp.%s" % (ptype, prefix, e), [])
                self.ind[e] += ["%", "%% index = %s, name = %s" % (index, name), "%% instance = %d, reference value = %.*e" % (inst, o.pf, ref),
                                "% function evaluation | indicator value" + (" | target hit" if e == "dat" else "")]

    def vec(self, n, x, y):
        o = self.fd.o
        s = "%d\t" % n + "".join("%.*e\t" % (o.pf, v) for v in y)
        if self.lvars:
            for k, v in enumerate(x):
                s += "%d\t" % int(math.floor(v + 0.5)) if k < self.nint and o.as_int else "%.*e\t" % (o.px, v)
        return s

    def evaluate(self, x, y, number=None):
        if not self.active:
            return False
        o = self.fd.o
        before, prev = self.n, self.overall
        self.n = number if number is not None else self.n + 1
        n = self.arch.add(y, (self.n, x, y))
        if n is not None and o.mode == "all":
            self.adat.append(self.vec(self.n, x, y))
        if o.ind:
            self.hit = False
            if n is not None:
                hv = self.arch.hypervolume()
                if abs(hv) < EPS:
                    self.penalty = min(self.penalty, Archive.distance(n))
                else:
                    self.penalty = 0.0
                self.overall = self.ref - hv + self.penalty
                v = self.overall + self.fd.shift * 1e-13 * (abs(self.overall) + 1)
                self.hit = self.targets.trigger(v)
            if self.hit:
                self.ind["dat"].append([str(self.n), Approx(self.overall, o.pf), Approx(self.targets.last(), o.pf)])
            if o.mode == "read":
                for j in range(before + 1, self.n):
                    self.logged = self.evals.trigger(j)
                    if self.logged:
                        self.ind["tdat"].append([str(j), Approx(prev, o.pf)])
            self.logged = self.evals.trigger(self.n)
            if self.logged:
                self.ind["tdat"].append([str(self.n), Approx(self.overall, o.pf)])
            if self.restarted:
                self.ind["rdat"].append([str(self.n), Approx(self.overall, o.pf)])
        self.restarted = False
        return n is not None

    def recommend(self, x, y):
        if self.active:
            self.mdat.append(self.vec(self.n, x, y))

    def restart(self):
        if self.n > 0:
            self.restarted = True

    def end(self):
        if not self.active:
            return
        o = self.fd.o
        if o.mode == "final":
            for _, (n, x, y) in sorted(self.arch.items, key=lambda t: t[1][0]):
                self.adat.append(self.vec(n, x, y))
        if o.ind:
            if not self.hit:
                self.ind["dat"].append([str(self.n), Approx(self.overall, o.pf), Approx(self.targets.last(), o.pf)])
            if not self.logged:
                self.ind["tdat"].append([str(self.n), Approx(self.overall, o.pf)])
            last = self.info[-1]
            if isinstance(last, str):
                self.info[-1] = last = [last]
            last.append((self.inst, self.n, Approx(self.overall, 1)))
        if self.adat is not None:
            self.adat.append("%% evaluations = %d" % self.n)


def shape(fd):
    return {n: [(l if isinstance(l, str) else str(l[0])) for l in v] for n, v in fd.files.items()}


def same(e, a):
    if isinstance(e, str):
        return e == a
    if len(e) > 1 and isinstance(e[1], tuple):      # info line
        parts = a.split(", ")
        k = len(parts) - (len(e) - 1)
        if ", ".join(parts[:k]) != e[0]:
            return False
        for (i, n, v), p in zip(e[1:], parts[k:]):
            m = re.fullmatch(r"(\d+):(\d+)\|(\S+)", p)
            if not m or int(m.group(1)) != i or int(m.group(2)) != n or not v.matches(m.group(3)):
                return False
        return True
    t = a.split("\t")
    return len(t) == len(e) and all(x.matches(y) if isinstance(x, Approx) else x == y for x, y in zip(e, t))


def compare(expected, actual):
    for n in sorted(set(expected) | set(actual)):
        if n not in actual:
            return "missing file", "%s is missing" % n
        if n not in expected:
            return "unexpected file", "%s was not expected" % n
        e, a = expected[n], actual[n]
        ext = n.rsplit(".", 1)[-1]
        if ext == "info":
            al = a.split("\n")
        else:
            if a and not a.endswith("\n"):
                return ext + " unfinished", "%s does not end with a newline" % n
            al = a.split("\n")[:-1]
        for k, (x, y) in enumerate(zip(e, al)):
            if not same(x, y):
                return ext + " line", "%s line %d is %r, expected %r" % (n, k + 1, y, x)
        if len(e) != len(al):
            k = min(len(e), len(al))
            return ext + " number of lines", "%s has %d lines, expected %d; first surplus %r" % (n, len(al), len(e), (e + al)[k] if len(e) > len(al) else al[k])
    return None
