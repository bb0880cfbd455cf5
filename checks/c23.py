"""Real-world and toy logs: files after random, interleaved histories compared with an executable model of both formats."""
import math, os, random, re
import bbobmodel as bm, gen
from common import fl


def rw_options(rng):
    o, t = dict(vars="all", cons="all", ldv=10, ldc=10, better=0, time=0, px=8, pf=15, pg=3, as_int=0), []

    def put(p, key, attr, vals):
        if rng.random() < p:
            o[attr] = rng.choice(vals)
            t.append("%s: %s" % (key, o[attr]))
    put(.6, "log_variables", "vars", ["none", "all", "low_dim"])
    put(.6, "log_constraints", "cons", ["none", "all", "low_dim"])
    put(.4, "low_dim_vars", "ldv", [0, 1, 2, 3, 4, 5, 9, 10, 11, 20, 100])
    put(.4, "low_dim_cons", "ldc", [0, 1, 2, 3, 5, 6, 9, 11, 30])
    put(.6, "log_only_better", "better", [0, 1, 1])
    put(.2, "log_time", "time", [0, 1])
    put(.4, "precision_x", "px", [1, 2, 5, 8, 15, 17])
    put(.4, "precision_f", "pf", [1, 3, 8, 15, 17])
    put(.4, "precision_g", "pg", [1, 3, 8, 15, 17])
    put(.4, "log_discrete_as_int", "as_int", [0, 1, 1])
    if rng.random() < .2:
        t.append("algorithm_name: A%d" % rng.randint(1, 9))
    rng.shuffle(t)
    return o, " ".join(["result_folder: R"] + t)


def toy_options(rng):
    o, t = dict(file="first_hitting_times.dat", nt=100, logp=1e-8, px=8, pf=15), []

    def put(p, key, attr, vals, fmt="%s"):
        if rng.random() < p:
            o[attr] = rng.choice(vals)
            t.append("%s: %s" % (key, fmt % o[attr]))
    put(.4, "file_name", "file", ["x.dat", "hits", "a_b.txt"])
    put(.6, "number_target_triggers", "nt", [1, 2, 5, 10, 100, 333])
    put(.4, "log_target_precision", "logp", [1e-1, 1e-4, 1e-8, 1e-10, 3e-6, 1, 10, 40], "%g")
    put(.4, "precision_x", "px", [1, 2, 5, 8, 15, 17])
    put(.4, "precision_f", "pf", [1, 3, 8, 15, 17])
    rng.shuffle(t)
    return o, " ".join(["result_folder: R"] + t)


def e(p, v, plus="+"):
    if v != v or math.isinf(v):
        return None                # spelling of non-finite numbers is the C library's
    return ("%" + plus + ".*e") % (p, v)


def field_ok(want, v, got):
    return got == want if want is not None else (got.lstrip("+").lower() in ("inf", "nan", "-nan", "-inf") and (v != v) == ("nan" in got))


class RW:
    def __init__(self, o, p):
        self.o, self.p = o, p
        self.n, self.best = 0, None
        self.lv = o["vars"] == "all" or o["vars"] == "low_dim" and p.d <= o["ldv"]
        self.lc = p.nc > 0 and (o["cons"] == "all" or o["cons"] == "low_dim" and p.nc <= o["ldc"])
        self.lines = []

    def eval(self, x, y, g, ng):
        self.n += 1
        better = True
        if len(y) == 1:
            better = self.best is None and y[0] < bm.DBL_MAX or self.best is not None and y[0] < self.best
            if better:
                self.best = y[0]
        if len(y) > 1 or better or not self.o["better"] or self.n == 1:
            row = [(str(self.n), 0.0), (str(ng), 0.0)] + [(e(self.o["pf"], v), v) for v in y]
            if self.lv:
                row += [(str(int(math.floor(v + .5))) if i < self.p.nint and self.o["as_int"] else e(self.o["px"], v), v) for i, v in enumerate(x)]
            if self.lc:
                row += [(e(self.o["pg"], v), v) for v in g]
            self.lines.append(row)

    def check(self, text, pos, suite, last):
        """compares from line pos on; returns (next position, difference)"""
        p = self.p
        head = "%% suite = '%s', problem_id = '%s', problem_name = '%s', coco_version = 'verif'" % (suite, p.id, p.name)
        if text[pos:pos + 2] != ["", head]:
            return pos, "header %r, expected %r" % (text[pos:pos + 2], head)
        h = text[pos + 2] if len(text) > pos + 2 else ""
        cols = [c.strip() for c in h.lstrip("% ").split("|")]
        want = ["f-evaluations", "g-evaluations", "%d objective" % p.m] + ["%d variable" % p.d] * self.lv + ["%d constraint" % p.nc] * self.lc + ["evaluation time (s)"] * bool(self.o["time"])
        if len(cols) != len(want) or any(not re.fullmatch(re.escape(w) + "s*", c) for w, c in zip(want, cols)):
            return pos, "column header %r, expected %r" % (h, want)
        pos += 3
        for row in self.lines:
            if pos >= len(text):
                return pos, "missing line of evaluation %s" % row[0][0]
            f = text[pos].split("\t")
            if f[-1] != "":
                return pos, "line %r" % text[pos]
            f = f[:-1]
            if self.o["time"]:
                if not re.fullmatch(r"\d{1,3}", f[-1]):
                    return pos, "evaluation time %r" % f[-1]
                f = f[:-1]
            if len(f) != len(row) or not all(field_ok(w, v, t) for (w, v), t in zip(row, f)):
                return pos, "line %r, expected %r" % (text[pos][:300], "\t".join(str(w) for w, _ in row)[:300])
            pos += 1
        return pos, None


class P:
    pass


def run(ctx):
    ctx.rule = ("one case = one experiment: a real-world or toy observer with random options watching one to five problems, also interleaved and re-observed, evaluated, constraints "
                "evaluated and fed non-finite points at random; every line of the logs compared with a model of the format driven by the recorded answers; distinct by experiment; non-trivial = at least one evaluation")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 200 if ctx.quick else 1500
    jobs = [(o, s, k) for o in ("rw", "toy") for s in gen.SUITES for k in range(n)]
    ctx.rng.shuffle(jobs)

    def one(job):
        kind, s, rep = job
        rng = random.Random("C23/%d/%s/%s/%d" % (ctx.seed, kind, s, rep))
        o, otext = (rw_options if kind == "rw" else toy_options)(rng)
        dims = [d for d in gen.dims(s) if d <= 20]
        ds = rng.sample(dims, min(len(dims), rng.choice([1, 2])))
        fs = rng.sample(gen.functions(s), 3)
        ins = [1] if s == "toy" else sorted(rng.sample(range(1, 16), 2))
        probs = [(rng.choice(fs), rng.choice(ds), rng.choice(ins)) for _ in range(rng.randint(1, 5))]
        head = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: " + ",".join(map(str, sorted(ds)))]]
        fdi = sorted(set(probs))
        c = list(head)
        for k, (f, d, i) in enumerate(fdi):
            c += [["getfdi", k, 0, f, d, i], ["info", k, "notype"]]
        know_opt = s not in ("toy",) and "biobj" not in s
        if know_opt:
            for k in range(len(fdi)):
                c.append(["best", k])
        r0 = ctx.run(fast, c)
        if not ctx.legit(r0, "%s %s" % (s, fdi), c):
            return
        K = {}
        for k, t in enumerate(fdi):
            f = r0.events[2 + 2 * k].f
            p = K[t] = P()
            p.id, p.name, p.d, p.m, p.nc, p.nint = f[0], f[1], int(f[3]), int(f[4]), int(f[5]), int(f[6])
            p.xopt = None
            if know_opt:
                b = r0.events[1 + 2 * len(fdi) + k].f
                p.xopt = [fl(v) for v in b[1:]] if b[0] == "1" else None
        cmds = head + [["suite", 1] + head[0][2:], ["observer", 0, kind, otext]]
        # slots: live observed problems; a log entry per observed period
        hist, live = [], {}
        order = list(probs)
        inter = rng.random() < .5

        def start(slot, t):
            f, d, i = t
            cmds.append(["getfdi", slot, 0, f, d, i])
            ng0 = 0
            if rng.random() < .3:
                # some calls before the observer comes
                for _ in range(rng.choice([1, 3, 10])):
                    x = [rng.gauss(v, 1e-3) for v in K[t].xopt] if K[t].xopt and rng.random() < .5 else [rng.uniform(-5, 5) for _ in range(d)]
                    con = K[t].nc and rng.random() < .3
                    ng0 += bool(con)
                    cmds.append(["cons" if con else "eval", slot] + x)
            cmds.append(["addobs", slot, 0])
            if K[t].nc:
                cmds.append(["getfdi", 20 + slot, 1, f, d, i])
            live[slot] = (t, [("before", ng0)], [rng.choice([1.0, 5.0, 100.0])])
            hist.append(("start", t, live[slot][1], s))

        def stop(slot):
            t = live.pop(slot)[0]
            if rng.random() < .3:
                cmds.append(["rmobs", slot, 0])
            cmds.append(["pfree", slot])
            if K[t].nc:
                cmds.append(["pfree", 20 + slot])

        def step(slot):
            t, ops, rad = live[slot]
            p = K[t]
            u = rng.random()
            if u < .4 and p.xopt:
                rad[0] = max(rad[0] * .7, 1e-11)
                x = [v + rng.gauss(0, 1) * rad[0] for v in p.xopt]
            elif u < .43 and p.xopt:
                x = list(p.xopt)
            elif u < .5 and not o.get("as_int"):
                x = gen.point(rng, p.d)
            elif u < .55:
                x = [float(rng.randint(-3, 17)) for _ in range(p.d)]
            else:
                x = [rng.uniform(-5, 5) for _ in range(p.d)]
            w = rng.random()
            if w < .05:
                bad = list(x)
                bad[rng.randrange(p.d)] = rng.choice([float("nan"), float("inf"), -float("inf")])
                cmds.append(["eval", slot] + bad)
                return
            if w < .2 and p.nc:
                cmds.append(["cons", slot] + x)
                ops.append(("cons",))
                return
            if w < .25:
                cmds.append(["state", slot])
                return
            g = None
            if p.nc:
                cmds.append(["cons", 20 + slot] + x)
                g = len(cmds) - 1
            cmds.append(["eval", slot] + x)
            ops.append(("eval", x, len(cmds) - 1, g))
            hist.append(("eval", t, ops, len(ops) - 1))

        if inter:
            slots = list(range(len(order)))
            pend = list(zip(slots, order))
            while pend or live:
                if pend and (not live or rng.random() < .3):
                    # two live loggers of the same problem would write to one file: out of scope
                    for q, (sl, t) in enumerate(pend):
                        if t not in [v[0] for v in live.values()]:
                            start(sl, t)
                            pend.pop(q)
                            break
                    else:
                        stop(rng.choice(list(live)))
                elif rng.random() < .04:
                    stop(rng.choice(list(live)))
                else:
                    step(rng.choice(list(live)))
        else:
            for t in order:
                start(0, t)
                for _ in range(rng.choice([0, 1, 2, 10, 40])):
                    step(0)
                stop(0)
        exe = asan if rep % 15 == 0 else fast
        r = ctx.run(exe, cmds, keep=True, loglevel="error")
        what = "%s %s observer %s '%s'" % (s, order, kind, otext)
        if not ctx.legit(r, what, cmds):
            return ctx.drop(r)
        got = bm.read_tree(os.path.join(r.dir, "exdata", "R"))
        ctx.drop(r)
        diff, lines, nev = None, 0, 0
        if kind == "rw":
            files = {}
            for h in hist:
                if h[0] != "start":
                    continue
                p = K[h[1]]
                w = RW(o, p)
                ng = 0
                for op in h[2]:
                    if op[0] == "before":
                        ng = op[1]       # the constraint evaluations are those of the problem
                    elif op[0] == "cons":
                        ng += 1
                    else:
                        nev += 1
                        w.eval(op[1], r.events[op[2]].nums(), r.events[op[3]].nums() if op[3] is not None else [], ng)
                files.setdefault(p.id + "_rw.txt", []).append(w)
            for name in sorted(set(files) | set(got)):
                if name not in got or name not in files:
                    diff = ("files", "%s is %s" % (name, "missing" if name not in got else "unexpected"))
                    break
                text = got[name].split("\n")
                if text[-1] != "":
                    diff = ("unfinished", "%s does not end with a newline" % name)
                    break
                text, pos = text[:-1], 0
                for w in files[name]:
                    pos, dd = w.check(text, pos, s, False)
                    lines += len(w.lines)
                    if dd:
                        diff = ("rw log", "%s line %d: %s" % (name, pos + 1, dd))
                        break
                if not diff and pos != len(text):
                    diff = ("rw surplus", "%s: surplus line %d %r" % (name, pos + 1, text[pos][:200]))
                if diff:
                    break
        else:
            exp, T = [], {}
            for h in hist:
                p = K[h[1]]
                if h[0] == "start":
                    T[id(h[2])] = [bm.Targets(o["nt"], o["logp"], 1.0), 0]
                    exp += ["", "suite = '%s', problem_id = '%s', problem_name = '%s', coco_version = 'verif'" % (s, p.id, p.name),
                            "%% evaluation number | function value | target hit | %d variables " % p.d]
                    continue
                op = h[2][h[3]]
                t = T[id(h[2])]
                t[1] += 1
                nev += 1
                y = r.events[op[2]].nums()[0]
                if t[0].log_trigger(y):
                    if y == 0:
                        tv = 0.0
                    elif y > 0:
                        tv = bm.pow10(t[0].exp / o["nt"])
                    else:
                        tv = -bm.pow10(math.floor(math.log10(max(-y, o["logp"])) * o["nt"]) / o["nt"])
                    exp.append((t[1], y, tv, op[1]))
            if set(got) != {o["file"]}:
                diff = ("files", "files %s, expected %s" % (sorted(got), o["file"]))
            else:
                text = got[o["file"]].split("\n")
                if text[-1] != "":
                    diff = ("unfinished", "no newline at the end")
                text = text[:-1]
                for k, w in enumerate(exp):
                    if k >= len(text):
                        diff = ("toy log", "missing line %d: %r" % (k + 1, w))
                        break
                    g = text[k]
                    if isinstance(w, str):
                        if g != w:
                            diff = ("toy log", "line %d is %r, expected %r" % (k + 1, g, w))
                            break
                        continue
                    f = g.split("\t")
                    want = [(str(w[0]), 0.0), (e(o["pf"], w[1], ""), w[1])] + [(e(o["px"], v, ""), v) for v in w[3]]
                    if len(f) != len(want) + 1 or not all(field_ok(a, v, b) for (a, v), b in zip(want, f[:2] + f[3:])) or abs(float(f[2]) - w[2]) > abs(w[2]) * (1e-9 + .6 * 10 ** -o["pf"]):
                        diff = ("toy log", "line %d is %r, expected evaluation %d, value %r, target %r" % (k + 1, g[:300], w[0], w[1], w[2]))
                        break
                if not diff and len(text) != len(exp):
                    diff = ("toy surplus", "surplus line %r" % text[len(exp)][:200])
                lines = len(exp)
        if diff:
            ctx.violation(diff[0], "%s: %s" % (what, diff[1]), {"script": cmds[:400]})
        if nev:
            ctx.case((kind, s, rep), {"experiment": what[:300], "evaluations": nev, "lines": lines} if nev > 20 else None)
        ctx.bump(**{kind + "_lines": lines, kind + "_evaluations": nev, "interleaved": int(inter)})

    ctx.par(one, jobs)
