"""Bi-objective log: files after random experiments compared with an executable model (brute-force archive and hypervolume)."""
import os, random, re
import bbobmodel as bm, biobjmodel as bo, gen
from c07 import outer_optimum
from common import fl

REF = bo.reference_values()


def options(rng):
    kw, text = {}, []

    def put(p, key, attr, vals, fmt="%s"):
        if rng.random() < p:
            v = rng.choice(vals)
            kw[attr] = v
            text.append("%s: %s" % (key, fmt % (v,)))
    put(0.4, "number_target_triggers", "nt", [1, 2, 5, 10, 100, 333])
    put(0.3, "log_target_precision", "logp", [1e-1, 1e-4, 1e-8, 3e-6], "%g")
    put(0.4, "lin_target_precision", "linp", [1.0, 1e-2, 1e-5, 1e3, 250.0, 0.7], "%g")
    if rng.random() < 0.4:
        b = rng.choice([[1, 2, 5], [1], [3, 7], [1, 2, 3, 4, 5, 6, 7, 8, 9], [4]])
        kw["base"] = b
        text.append('base_evaluation_triggers: "%s"' % ",".join(map(str, b)))
    put(0.4, "algorithm_name", "alg", ["ALG1", "my-algo_v2", "x"])
    put(0.3, "algorithm_info", "info", ["no description", "a 2-line description: it works"], '"%s"')
    put(0.3, "precision_x", "px", [1, 4, 8, 17])
    put(0.3, "precision_f", "pf", [1, 6, 15, 17])
    put(0.4, "log_discrete_as_int", "as_int", [0, 1])
    put(0.6, "log_nondominated", "mode", ["all", "final", "none", "final", "all", "read"])
    put(0.5, "log_decision_variables", "lvars", ["all", "none", "low_dim"])
    put(0.2, "compute_indicators", "ind", [0, 1])
    if rng.random() < 0.1:
        v = rng.choice([0, 1])
        text.append("produce_all_data: %d" % v)
        if v:
            kw.update(mode="all", lvars="low_dim", ind=1)
    rng.shuffle(text)
    return bo.Options(**kw), " ".join(["result_folder: R"] + text)


def run(ctx):
    ctx.rule = ("one case = one experiment: a bi-objective observer with random options watching one to five problems, each with a random history of evaluations (random, near the "
                "Pareto set, at the optima, repeated, far away), recommendations and restarts or, in read mode, fed objective vectors; all files compared with the model; distinct by "
                "experiment; non-trivial = at least one evaluation")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 450 if ctx.quick else 4000
    jobs = [(s, k) for s in gen.BIOBJ for k in range(n)]
    ctx.rng.shuffle(jobs)

    def one(job):
        s, rep = job
        rng = random.Random("C12/%d/%s/%d" % (ctx.seed, s, rep))
        mix = "mixint" in s
        opt, otext = options(rng)
        big = rng.random() < 0.08
        dims = [d for d in gen.dims(s) if d <= (5 if big else 40)] or [gen.dims(s)[0]]
        ds = rng.sample(dims, min(len(dims), rng.choice([1, 1, 2])))
        fs = rng.sample(gen.functions(s), rng.randint(1, 2))
        ins = rng.sample(range(1, 16) if rng.random() < .9 else range(1, 70), rng.randint(1, 3))
        probs = [(rng.choice(fs), rng.choice(ds), rng.choice(ins)) for _ in range(1 if big else rng.randint(1, 5))]
        if rng.random() < 0.6:
            probs.sort()
        fdi = sorted(set(probs))
        head = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: " + ",".join(map(str, sorted(ds)))]]
        c = list(head)
        for k, (f, d, i) in enumerate(fdi):
            c += [["getfdi", k, 0, f, d, i], ["info", k]]
        r = ctx.run(fast, c)
        if not ctx.legit(r, "%s %s" % (s, fdi), c):
            return
        infos, comps = {}, {}
        for k, t in enumerate(fdi):
            e = r.events[2 + 2 * k]
            infos[t] = e
            comps[t] = [tuple(map(int, m)) for m in re.findall(r"_f0*(\d+)_i0*(\d+)_d0*(\d+)", e.f[1])]
        c, at = list(head), {}
        every = sorted({q[1] for v in comps.values() for q in v})
        c += [["suite", 1, "bbob-largescale" if d >= 50 else "bbob", "instances: " + ",".join(map(str, every)), "dimensions: %d" % d] for d in ()]
        for d in sorted(set(ds)):
            c.append(["suite", 1, "bbob", "instances: " + ",".join(map(str, every)), "dimensions: %d" % d])
            for t in fdi:
                if t[1] == d:
                    for q in range(2):
                        c += [["getfdi", 1, 1, comps[t][q][0], d, comps[t][q][1]], ["best", 1], ["pfree", 1]]
                        at[t, q] = len(c) - 2
            c.append(["suitefree", 1])
        r = ctx.run(fast, c)
        if not ctx.legit(r, "components of %s %s" % (s, fdi), c):
            return
        xo = {}
        for k in at:
            x = r.events[at[k]].nums(1)
            xo[k] = outer_optimum(x) if mix else x
        # histories on observed problems; the optima are evaluated on an unobserved twin
        cmds = head + [["suite", 1] + head[0][2:], ["observer", 0, rng.choice([s, "bbob-biobj"]), otext]]
        hist, ideal_at = [], {}
        for t in fdi:
            f, d, i = t
            cmds += [["getfdi", 1, 1, f, d, i], ["eval", 1] + xo[t, 0], ["eval", 1] + xo[t, 1], ["pfree", 1]]
            ideal_at[t] = len(cmds) - 3
        for t in probs:
            f, d, i = t
            a, b = xo[t, 0], xo[t, 1]
            cmds += [["getfdi", 0, 0, f, d, i], ["addobs", 0, 0], ["getfdi", 1, 1, f, d, i]]
            ops = []
            hist.append((t, ops))
            total = rng.choice([600, 1200]) if big else rng.choice([0, 1, 2, 5, 12, 30, 80])
            radius, rate, pool, num = rng.choice([0.3, 2.0, 20.0]), rng.choice([0.7, 0.9, 0.97]), [], 0
            mode = rng.random()
            for _ in range(total):
                u = rng.random()
                if u < 0.05 and pool:
                    x = rng.choice(pool)
                elif u < 0.08 and mode < 0.7:
                    x = list(rng.choice([a, b]))
                elif u < 0.7 and mode < 0.7:
                    radius = max(radius * rate, 1e-3)
                    w = rng.random()
                    x = [p + w * (q - p) + rng.gauss(0, 1) * radius / d ** 0.5 for p, q in zip(a, b)]
                elif u < 0.75:
                    x = [rng.uniform(-1e3, 1e3) for _ in range(d)]
                else:
                    x = [rng.uniform(-5, 5) for _ in range(d)]
                pool.append(x)
                if opt.mode == "read":
                    num += rng.choice([1, 1, 2, 7, 40])
                    cmds.append(["eval", 1] + x)
                    ops.append(["feed", num, x, len(cmds) - 1, None])
                    continue
                w = rng.random()
                if w < 0.02 and not big:
                    bad = list(x)
                    bad[rng.randrange(d)] = rng.choice([float("nan"), float("inf")])
                    cmds.append(["eval", 0] + bad)
                elif w < 0.07 and not big:
                    cmds += [["rec", 0] + x, ["eval", 1] + x]
                    ops.append(["rec", x, len(cmds) - 1])
                elif w < 0.12:
                    cmds.append(["restart", 0, 0])
                    ops.append(["restart"])
                cmds.append(["eval", 0] + x)
                ops.append(["eval", x, len(cmds) - 1])
                if rng.random() < 0.02 and not opt.as_int:      # finite, but the objectives overflow (infinite or undefined): counted, never in the archive
                    far = [v * 10 ** rng.uniform(150, 300) for v in x]
                    cmds.append(["eval", 0] + far)
                    ops.append(["eval", far, len(cmds) - 1])
            if opt.mode == "read" and ops:
                # the values have to be known before they can be fed
                ops.append(["feedhere", len(cmds)])
                cmds.append(["info", 0])
            cmds.append(["pfree", 0])
            cmds.append(["pfree", 1])
        if opt.mode == "read":
            r = ctx.run(fast, cmds)
            if not ctx.legit(r, "%s %s" % (s, otext), cmds):
                return
            new, pos = [], {}
            spots = {o[1]: ops for _, ops in hist for o in ops if o[0] == "feedhere"}
            where = {id(ops): t for t, ops in hist}
            for k, cm in enumerate(cmds):
                pos[k] = len(new)
                if k in spots:
                    at = ideal_at[where[id(spots[k])]]
                    ideal, better, u = [r.events[at].nums()[0], r.events[at + 1].nums()[1]], rng.random() < .5, rng.uniform(0, 1.5)
                    for o in spots[k]:
                        if o[0] == "feed":
                            o[3] = r.events[o[3]].nums()
                            if better:      # better and better, in the end than the reference value, which makes the indicator negative
                                u += rng.uniform(0, .2)
                                o[3] = [i + (v - i) * 10 ** -(u * rng.uniform(.5, 1)) for i, v in zip(ideal, o[3])]
                            o[4] = len(new)
                            new.append(["feed", 0, o[1]] + o[3])
                new.append(cm)
            for t in ideal_at:
                ideal_at[t] = pos[ideal_at[t]]
            cmds = new
        exe = asan if rep % 15 == 0 and not big else fast
        r = ctx.run(exe, cmds, keep=True)
        what = "%s %s observer '%s'" % (s, probs, otext)
        if not ctx.legit(r, what, cmds):
            return ctx.drop(r)

        def model(shift):
            fd, nev = bo.Folder(opt, shift), 0
            for t, ops in hist:
                f, d, i = t
                e = infos[t]
                y1, y2 = r.events[ideal_at[t]].nums(), r.events[ideal_at[t] + 1].nums()
                known = not mix
                p = fd.begin(s, f, d, i, e.f[0], e.f[1], e.f[2], e.f[7], int(e.f[6]), [y1[0], y2[1]], e.nums(8 + 3 * d, 10 + 3 * d),
                             REF.get(e.f[0], 1.0) if known else 1.0, known)
                for o in ops:
                    if o[0] == "eval":
                        p.evaluate(o[1], r.events[o[2]].nums())
                        nev += 1
                    elif o[0] == "rec":
                        p.recommend(o[1], r.events[o[2]].nums())
                    elif o[0] == "restart":
                        p.restart()
                    elif o[0] == "feed":
                        kept = p.evaluate([0.0] * d, o[3], o[1])
                        nev += 1
                        if shift == 0 and int(r.events[o[4]].f[0]) != int(kept):
                            ctx.violation("feed result", "%s: feeding %s reports %s" % (what, o[3], r.events[o[4]].f[0]), {"script": cmds[:400]})
                p.end()
            return fd, nev
        fd, nev = model(0)
        got = bm.read_tree(os.path.join(r.dir, "exdata", "R"))
        diff = bo.compare(fd.files, got)
        if diff and any(bo.shape(model(k)[0]) != bo.shape(fd) for k in (1, -1, 30, -30)):
            ctx.bump(skipped_as_ambiguous=1)      # what is logged depends on the last digits
            diff = None
        if diff:
            ctx.violation(diff[0], "%s: %s" % (what, diff[1]), {"script": cmds[:400]})
        ctx.drop(r)
        if nev:
            ctx.case((s, rep), {"experiment": what[:300], "evaluations": nev, "files": len(got)} if nev > 30 else None)
        ctx.bump(evaluations_logged_over=nev, files_checked=len(got), lines_checked=sum(map(len, fd.files.values())), long_histories=int(big), fed=int(opt.mode == "read"))

    def table(f):
        """the reference values of all problems of one function, as written to the headers"""
        s = "bbob-biobj-ext"
        c = [["suite", 0, s, "instances: 1-15", "function_indices: %d" % f], ["observer", 0, "bbob-biobj", "result_folder: R log_nondominated: none precision_f: 15"]]
        for d in gen.dims(s):
            for i in range(1, 16):
                c += [["next", 0, 0, 0], ["eval", 0] + [1.0] * d]
        r = ctx.run(fast, c, timeout=300, keep=True)
        if not ctx.legit(r, "%s f%d, all problems" % (s, f), c):
            return ctx.drop(r)
        seen = 0
        for name, text in bm.read_tree(os.path.join(r.dir, "exdata", "R")).items():
            m = re.search(r"/(bbob-biobj\S*?_f\d+)(_d\d+)_hyp\.dat$", name)
            if m:
                for i, v in re.findall(r"instance = (\d+), reference value = (\S+)", text):
                    w = REF.get("%s_i%02d%s" % (m.group(1), int(i), m.group(2)), 1.0)
                    seen += 1
                    if abs(float(v) - w) > 1e-12:
                        ctx.violation("reference value", "%s f%d: %s gives the reference value %s for instance %s, published is %r" % (s, f, name, v, i, w), {"script": c[:10]})
        ctx.drop(r)
        if seen != 15 * len(gen.dims(s)):
            ctx.violation("reference value missing", "%s f%d: %d reference values found in the headers, expected %d" % (s, f, seen, 15 * len(gen.dims(s))), {"script": c[:10]})
        ctx.case(("table", f))
        ctx.bump(reference_values=seen)

    ctx.par(table, gen.functions("bbob-biobj-ext"))
    ctx.par(one, jobs)
