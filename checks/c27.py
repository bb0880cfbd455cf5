"""Old-format log: files after random experiments compared with an executable model."""
import os, random, re
import bbobmodel as bm, gen
from common import fl


class OldProblem:
    """lines which the old-format observer writes for one problem"""

    def __init__(self, o, f, d, inst, fopt, nint, ncons):
        self.o, self.f, self.d, self.inst, self.fopt, self.nint, self.nc = o, f, d, inst, fopt, nint, ncons
        self.t, self.ev = bm.Targets(o["nt"], o["logp"], 1), bm.Evaluations(o["base"], d)
        self.nf = self.ng = self.ncon = 0
        self.out = {e: [bm.HEADER % fopt] for e in ("dat", "tdat", "rdat")}

    def line(self, e, x, cur, g):
        s = "%d %d %+10.9e %+10.9e " % (self.nf, self.ng, self.best - self.fopt, cur)
        s += "".join(str(bm.digit(c)) for c in g) if g else "%+10.9e" % self.best
        if self.d - self.nint < 22:
            for i, v in enumerate(x):
                s += " %d" % int(v + 0.5 if v >= -0.5 else -int(0.5 - v)) if i < self.nint and self.o["as_int"] else " %+5.4e" % v
        self.out[e].append(s)

    def evaluate(self, x, y, g):
        self.nf += 1
        self.ng = self.ncon
        self.written = False
        y = bm.logged(y)
        v = max(y, self.fopt) + bm.logged(sum(c for c in g or () if not c <= 0) if g else 0.0)
        if self.nf == 1 or v < self.best:
            self.best, self.xbest = v, x
            if self.nf == 1 or self.t.log_trigger(v - self.fopt):
                self.line("dat", x, y, g)
        if self.ev.trigger(self.nf + self.ng):
            self.line("tdat", x, y, g)
            self.written = True

    def end(self):
        if self.nf and not self.written:
            self.line("tdat", self.xbest, self.best, None)


def info_blocks(text):
    """[(header line, comment line, data file, [(instance, evaluations, precision)])] of one .info file, or a complaint"""
    out, ls = [], text.split("\n")
    if len(ls) % 3:
        return "has %d lines, no multiple of three" % len(ls)
    for k in range(0, len(ls), 3):
        es = ls[k + 2].split(", ")
        rows = []
        for e in es[1:]:
            m = re.fullmatch(r"(\d+):(\d+)\|(\S+)", e)
            if not m:
                return "line %d has the entry %r" % (k + 3, e)
            rows.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        out.append((ls[k], ls[k + 1], es[0], rows))
    return out


def run(ctx):
    ctx.rule = ("one case = one to three experiments with the old-format observer in one process: random options, one to thirty problems each (several suites, any order), "
                "random histories; all files compared with a model; distinct by experiment; non-trivial = at least one evaluation")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 600 if ctx.quick else 8000

    def point(rng, d, xopt, st):
        u = rng.random()
        if xopt and u < .5:
            st[0] = max(st[0] * rng.choice([.5, .8, .95]), 1e-11)
            return [v + rng.gauss(0, 1) * st[0] for v in xopt]
        if xopt and u < .53:
            return list(xopt)
        return gen.point(rng, d) if u < .58 else [rng.uniform(-5, 5) for _ in range(d)]

    def knowledge(head, probs):
        c = list(head)
        for k, (s, f, d, i) in enumerate(probs):
            c += [["getfdi", k, s, f, d, i], ["info", k] + (["notype"] if head[s][2] == "toy" else []), ["fopt", k], ["best", k]]
        r = ctx.run(fast, c)
        if not ctx.legit(r, "problems of %s" % [h[2] for h in head], c):
            return None
        out = {}
        for k, t in enumerate(probs):
            inf, fo, be = (r.events[len(head) + 4 * k + q] for q in (1, 2, 3))
            one = inf.f[4] == "1"
            out[t] = (inf.f[0], inf.f[1], int(inf.f[5]), int(inf.f[6]), fl(fo.f[0]) if one else None, [fl(v) for v in be.f[1:]] if one and be.f[0] == "1" else None)
        return out

    def old(rep):
        rng = random.Random("C27old/%d/%d" % (ctx.seed, rep))
        names = rng.sample([s for s in gen.SINGLE if s != "bbob-noisy"], rng.choice([1, 1, 1, 2, 3]))
        head = [["suite", k, s, "instances: 1-15", ""] for k, s in enumerate(names)]
        cmds, cells, obs = list(head), [], []
        wide = len(names) > 1 and rng.random() < .5      # more dimensions than any suite has
        for k in range(len(names) if wide else rng.choice([1, 1, 2, 3])):      # one experiment after the other in the same process
            o = {"nt": 100, "logp": 1e-8, "base": [1, 2, 5], "as_int": 0, "alg": "ALG", "info": ""}
            text = ["result_folder: F%d" % k]
            for p, key, a, vals in ((.5, "number_target_triggers", "nt", [1, 2, 10, 333]), (.4, "log_target_precision", "logp", [1e-1, 1e-4, 1e-10]), (.3, "log_discrete_as_int", "as_int", [1]),
                                    (.4, "algorithm_name", "alg", ["A1", "my-algo_v2"]), (.3, "algorithm_info", "info", ["an info: text"])):
                if rng.random() < p:
                    o[a] = rng.choice(vals)
                    text.append("%s: %s" % (key, "%g" % o[a] if isinstance(o[a], float) else '"%s"' % o[a] if a == "info" else o[a]))
            if rng.random() < .4:
                o["base"] = rng.choice([[1], [3, 7], [1, 2, 3, 4, 5, 6, 7, 8, 9], [4]])
                text.append('base_evaluation_triggers: "%s"' % ",".join(map(str, o["base"])))
            rng.shuffle(text)
            o["text"], o["folder"] = " ".join(text), "F%d" % k
            s = rng.randrange(len(names))
            ds = gen.dims(names[s]) if rng.random() < .4 else rng.sample(gen.dims(names[s]), rng.randint(1, 3))
            if wide:
                s, ds = k, gen.dims(names[k])
            ds = [d for d in ds if d <= 160]
            fs, ins = rng.sample(gen.functions(names[s]), rng.randint(1, 3)), rng.sample(range(1, 16), 1 if wide else rng.randint(1, 3))
            ps = [(s, f, d, i) for d in ds for f in sorted(fs) for i in ins]      # the order of a suite
            u = rng.random()
            if u < .25:
                ps.sort(key=lambda t: (t[1], t[2]))
            elif u < .5:
                rng.shuffle(ps)
            if rng.random() < .2:
                ps += rng.sample(ps, min(3, len(ps)))
            o["ps"] = ps[:rng.choice([4, 12, 30])]
            cells += o["ps"]
            obs.append(o)
        cells = list(dict.fromkeys(cells))
        know = knowledge(head, cells) if len(cells) <= 60 else None
        if know is None:
            return
        twins = [["suite", 8 + k, h[2], h[3], h[4]] for k, h in enumerate(head)]
        cmds += twins
        for k, o in enumerate(obs):
            cmds.append(["observer", k, "bbob-old", o["text"]])
            o["hist"] = []
            for t in o["ps"]:
                ident, name, nc, nint, fopt, xopt = know[t]
                ops = []
                o["hist"].append((t, ops))
                cmds += [["getfdi", 0, t[0], t[1], t[2], t[3]], ["addobs", 0, k]]
                if nc:
                    cmds.append(["getfdi", 1, 8 + t[0], t[1], t[2], t[3]])
                st = [rng.choice([1.0, 3.0])]
                for _ in range(rng.choice([0, 1, 2, 9, 40])):
                    x = point(rng, t[2], xopt, st)
                    if o["as_int"]:
                        x = [max(-1e5, min(1e5, v)) for v in x]
                    if nc and rng.random() < .1:
                        for _ in range(rng.choice([1, 2, 20])):
                            cmds.append(["cons", 0] + x)
                            ops.append(None)
                    if rng.random() < .03:
                        bad = list(x)
                        bad[rng.randrange(len(x))] = rng.choice([float("nan"), float("inf")])
                        cmds.append(["eval", 0] + bad)
                    if nc:
                        cmds.append(["cons", 1] + x)
                    cmds.append(["eval", 0] + x)
                    ops.append((x, len(cmds) - 1))
                cmds.append(["pfree", 0])
                if nc:
                    cmds.append(["pfree", 1])
            cmds.append(["obsfree", k])
        r = ctx.run(asan if rep % 4 == 0 or len(set(names[t[0]] for t in cells)) > 1 and rep % 3 else fast, cmds, keep=True)
        what = "%s observed by bbob-old %s" % ([[names[t[0]] + "%s" % (t[1:],) for t in o["ps"]] for o in obs], [o["text"] for o in obs])
        if not ctx.legit(r, what[:3000], cmds):
            return ctx.drop(r)
        nev = nl = 0
        for o in obs:
            want = []      # evaluated problems in the order of the experiment
            for t, ops in o["hist"]:
                p = OldProblem(o, t[1], t[2], t[3], know[t][4], know[t][3], know[t][2])
                p.suite = names[t[0]]
                for q in ops:
                    if q is None:
                        p.ncon += 1
                    else:
                        g = [fl(v) for v in r.events[q[1] - 1].f] if p.nc else None
                        p.evaluate(q[0], fl(r.events[q[1]].f[0]), g)
                        nev += 1
                p.end()
                if p.nf:
                    want.append(p)
            got = bm.read_tree(os.path.join(r.dir, "exdata", o["folder"]))
            e = self_check(o, want, got)
            nl += sum(len(p.out[x]) for p in want for x in p.out)
            if e:
                ctx.violation("bbob-old " + e[0], "%s, folder %s: %s" % (what[:1500], o["folder"], e[1]), {"script": cmds[:400]})
        ctx.drop(r)
        if nev:
            ctx.case(("old", rep), {"experiment": what[:300], "evaluations": nev} if nev > 300 else None)
        ctx.bump(old_evaluations=nev, old_lines=nl, old_experiments_in_sequence=len(obs) - 1)

    def self_check(o, want, got):
        """the info files list exactly the evaluated problems, and the data files have the lines of the problems listed under them"""
        listed, files = [], {}
        for name in sorted(got):
            if not name.endswith(".info"):
                continue
            m = re.fullmatch(r"bbobexp_f(\d+)_i(\d+)\.info", name)
            if not m:
                return "info file name", "unexpected file %s" % name
            bl = info_blocks(got[name])
            if isinstance(bl, str):
                return "info text", "%s %s: %r" % (name, bl, got[name][:400])
            for h, c, dat, rows in bl:
                for row in rows:
                    listed.append((int(m.group(1)), h, c, dat, row))
        rest = list(want)
        keys = [(p.suite, p.f, p.d, p.inst, p.nf, "%.1e" % (p.best - p.fopt)) for p in want]
        if len(set(keys)) < len(keys):      # the same problem twice with the same entry: which data file belongs to which run cannot be told
            return None
        for f, h, c, dat, row in listed:
            # the first problem not yet found with this header and this entry
            for p in rest:
                hh = "suite = '%s', funcId = %d, DIM = %d, Precision = 1.000e-08, algId = '%s', coco_version = 'verif', logger = 'bbob_old', data_format = 'bbob-new2'" % (p.suite, p.f, p.d, o["alg"])
                if p.f == f and hh == h and row == (p.inst, p.nf, "%.1e" % (p.best - p.fopt)) and dat.startswith("data_f%d/bbobexp_f%d_DIM%d_i" % (p.f, p.f, p.d)) and dat.endswith(".dat"):
                    break
            else:
                return "info entry", "entry %s under %r, %s is for none of the evaluated problems left: %s" % (row, h, dat, [(p.suite, p.f, p.d, p.inst, p.nf, "%.1e" % (p.best - p.fopt)) for p in rest][:20])
            if c != "%" + (" " + o["info"] if o["info"] else ""):
                return "info comment", "comment line %r, expected %r" % (c, o["info"])
            rest.remove(p)
            files.setdefault(dat, []).append(p)
        if rest:
            return "info entry missing", "%s evaluated but not listed" % [(p.suite, p.f, p.d, p.inst, p.nf) for p in rest][:10]
        exp = {}
        order = {id(p): k for k, p in enumerate(want)}
        for dat, ps in files.items():
            for e in ("dat", "tdat", "rdat"):
                exp[dat[:-3] + e] = [l for p in sorted(ps, key=lambda p: order[id(p)]) for l in p.out[e]]
        return bm.compare(exp, {k: v for k, v in got.items() if not k.endswith(".info")})

    ctx.par(old, range(n))
