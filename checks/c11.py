"""Single-objective log: files after random experiments compared with an executable model of the log."""
import os, random
import bbobmodel as bm, gen, noise
from common import fl

NAMES = {"bbob-noisy": ["bbob", "bbob-noisy"], "bbob-mixint": ["bbob", "bbob-mixint"], "bbob-boxed": ["bbob", "bbob-boxed"],
         "bbob-largescale": ["bbob", "bbob-largescale"], "bbob-constrained": ["bbob", "bbob-constrained"]}


def options(rng, suite):
    kw, text = {}, []

    def put(p, key, attr, vals, fmt="%s"):
        if rng.random() < p:
            v = rng.choice(vals)
            kw[attr] = v
            text.append("%s: %s" % (key, fmt % (v,)))
    put(0.4, "number_target_triggers", "nt", [1, 2, 5, 10, 100, 333])
    put(0.3, "log_target_precision", "logp", [1e-1, 1e-4, 1e-8, 1e-10, 3e-6], "%g")
    put(0.5, "lin_target_precision", "linp", [1.0, 1e-2, 1e-5, 1e3, 1e5, 1e7, 1e12, 250.0, 0.7], "%g")
    if rng.random() < 0.4:
        b = rng.choice([[1, 2, 5], [1], [3, 7], [1, 2, 3, 4, 5, 6, 7, 8, 9], [4], [2, 3]])
        kw["base"] = b
        text.append('base_evaluation_triggers: "%s"' % ",".join(map(str, b)))
    put(0.4, "algorithm_name", "alg", ["ALG1", "my-algo_v2", "x"])
    put(0.3, "prefix", "prefix", ["pre", "bbobexp", "a_b"])
    put(0.4, "log_discrete_as_int", "as_int", [0, 1])
    if rng.random() < 0.3:
        kw["info"] = "an %d-line description, with: colons" % rng.randint(1, 9)
        text.append('algorithm_info: "%s"' % kw["info"])
    if rng.random() < 0.2:
        text.append("precision_x: %d" % rng.randint(1, 20))
    kw["observer"] = rng.choice(NAMES.get(suite, ["bbob"]))
    rng.shuffle(text)
    return bm.Options(**kw), " ".join(["result_folder: R"] + text), kw["observer"]


def run(ctx):
    ctx.rule = ("one case = one experiment: an observer with random options watching one to six problems in random order, each with a random history of evaluations, constraint "
                "evaluations, recommendations and restarts; all files of the result folder compared with the model; distinct by experiment; non-trivial = at least one evaluation")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    ref, = ctx.build("ref:fast")
    n = 120 if ctx.quick else 1200
    jobs = [(s, k) for s in gen.SINGLE for k in range(n)]
    ctx.rng.shuffle(jobs)

    def one(job):
        s, rep = job
        rng = random.Random("C11/%d/%s/%d" % (ctx.seed, s, rep))
        opt, otext, oname = options(rng, s)
        big = rng.random() < 0.08
        dims = [d for d in gen.dims(s) if d <= (5 if big else 40)] or [gen.dims(s)[0]]
        ds = rng.sample(dims, min(len(dims), rng.choice([1, 1, 2, 3])))
        fs = rng.sample(gen.functions(s), rng.randint(1, 3))
        ins = rng.sample(range(1, 16), rng.randint(1, 3)) if s != "bbob" or rng.random() < 0.5 else rng.sample(range(1, 120), 2)
        probs = [(rng.choice(fs), rng.choice(ds), rng.choice(ins)) for _ in range(1 if big else rng.randint(1, 6))]
        many = not big and rng.random() < 0.06      # the same groups started again and again
        if many:
            probs = [rng.choice(probs[:3]) if rng.random() < 0.3 else probs[q % min(2, len(probs))] for q in range(rng.choice([15, 30, 45, 90]))]
        elif rng.random() < 0.6:
            probs.sort()
        fdi = sorted(set(probs))
        noisy = s == "bbob-noisy"
        head = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: " + ",".join(map(str, sorted(ds)))]]
        # reference knowledge: optimum and optimal value, from a process of its own
        c = list(head)
        for k, (f, d, i) in enumerate(fdi):
            c += [["getfdi", k, 0, f, d, i], ["info", k], ["fopt", k], ["best", k]]
        r0 = ctx.run(fast, c)
        if not ctx.legit(r0, "%s %s" % (s, fdi), c):
            return
        know = {}
        for k, t in enumerate(fdi):
            inf, fo, be = (r0.events[1 + 4 * k + q] for q in (1, 2, 3))
            know[t] = (int(inf.f[5]), int(inf.f[6]), fl(fo.f[0]), [fl(v) for v in be.f[1:]] if be.f[0] == "1" else None)
        cmds = head + [["suite", 1] + head[0][2:], ["observer", 0, oname, otext]]
        hist = []      # (problem, [(op, x, event of the value, event of the constraints)])
        for t in probs:
            f, d, i = t
            nc, nint, fopt, xopt = know[t]
            cmds += [["getfdi", 0, 0, f, d, i], ["addobs", 0, 0]]
            ops = []
            hist.append((t, ops))
            twin = nc or noisy
            if twin:
                cmds.append(["getfdi", 1, 1, 101 + (f - 101) // 3 * 3 + 2 if noisy else f, d, i])

            def aux(x):
                """an event that tells the constraints / the noise-free value, from the twin"""
                if nc:
                    cmds.append(["cons", 1] + x)
                elif noisy:
                    cmds.append(["resetseeds"])
                    cmds.append(["eval", 1] + x)
                return len(cmds) - 1
            total = rng.choice([700, 1500, 2600, 2600, 12500]) if big else rng.choice([0, 1, 1, 2, 4]) if many else rng.choice([0, 1, 2, 5, 12, 30, 60])
            radius, pool = rng.choice([1.0, 3.0, 100.0, 1.0, 3.0, 100.0, 1e-5, 3e-8]), []
            keen = rng.random() < 0.2      # many recommendations
            rate = rng.choice([0.5, 0.8, 0.95])
            sparse = big and rng.random() < 0.7
            for _ in range(total):
                u = rng.random()
                if noisy and 0.45 <= u < 0.5:
                    u = 0.9      # the noise-free values are known only up to round-off: no huge values, no exact optimum
                if noisy:
                    radius = max(radius, 1e-4)
                if u < 0.05 and pool and not sparse:
                    x = rng.choice(pool)
                elif u < 0.45 and xopt:
                    radius = max(radius * rate, 1e-11)
                    x = [v + rng.gauss(0, 1) * radius for v in xopt]
                elif u < 0.47 and xopt and not sparse:
                    x = list(xopt)
                elif u < 0.5:
                    x = gen.point(rng, d) if not opt.as_int else [rng.uniform(-1e4, 1e4) for _ in range(d)]
                else:
                    x = [rng.uniform(-5, 5) for _ in range(d)]
                pool.append(x)
                w = rng.random()
                if keen and 0.2 < w < 0.5:
                    w = 0.1
                if w < 0.02 and not big:      # never counted, never logged
                    bad = list(x)
                    bad[rng.randrange(d)] = rng.choice([float("nan"), float("inf"), -float("inf")])
                    cmds.append(["eval", 0] + bad)
                elif w < 0.07 and nc:
                    for _ in range(rng.choice([1, 1, 3, 25])):
                        cmds.append(["cons", 0] + x)
                        if nc:
                            ops.append(("cons",))
                elif w < 0.13 and not big:
                    a = aux(x)
                    cmds.append(["rec", 0] + x)
                    if not twin:      # the value of the recommended point, from an unobserved problem
                        cmds += [["getfdi", 2, 1, f, d, i], ["eval", 2] + x, ["pfree", 2]]
                        v = len(cmds) - 2
                    elif nc:
                        cmds += [["getfdi", 2, 1, f, d, i], ["eval", 2] + x, ["pfree", 2]]
                        v = len(cmds) - 2
                    else:
                        v = a
                    ops.append(("rec", x, v, a))
                elif w < 0.18:
                    cmds.append(["restart", 0, 0])
                    ops.append(("restart",))
                elif w < 0.2:
                    cmds.append(["state", 0])
                a = aux(x)
                cmds.append(["eval", 0] + x)
                ops.append(("eval", x, len(cmds) - 1 if not noisy else a, a))
            cmds.append(["rmobs", 0, 0] if rng.random() < 0.3 else ["pfree", 0])
            if cmds[-1][0] == "rmobs":
                cmds.append(["pfree", 0])
            if twin:
                cmds.append(["pfree", 1])
        exe = asan if rep % 20 == 0 and not big else fast
        r = ctx.run(exe, cmds, keep=True)
        what = "%s %s observer %s '%s'" % (s, probs, oname, otext)
        if not ctx.legit(r, what, cmds):
            return ctx.drop(r)
        st = noise.Streams()

        def model(shift):
            fd, nev = bm.Folder(opt), 0
            for t, ops in hist:
                f, d, i = t
                nc, nint, fopt, xopt = know[t]
                p = fd.begin(s, f, d, i, fopt, nint, nc)
                for o in ops:
                    if o[0] == "cons":
                        p.cons()
                    elif o[0] == "restart":
                        p.restart()
                    else:
                        y = fl(r.events[o[2]].f[0])
                        g = [fl(v) for v in r.events[o[3]].f] if nc else None
                        if noisy:
                            st.reset()
                            e = noise.noisy(st, 101 + (f - 101) // 3 * 3 + 2, o[1], 0.0, fopt)
                            scale = 1e-12 * (abs(y) + abs(e) + abs(fopt))
                            y -= e
                            y += shift * scale * random.Random(y).uniform(-1, 1)
                        (p.evaluate if o[0] == "eval" else p.recommend)(o[1], y, g)
                        nev += o[0] == "eval"
                p.end()
            return fd, nev

        def shape(fd):
            return {n: [l.split()[:1] + l.split()[5:] for l in (v if isinstance(v, list) else v.split("\n"))] for n, v in fd.files.items()}
        fd, nev = model(0)
        if noisy and any(shape(model(k)[0]) != shape(fd) for k in (1, -1, 0.3, 10)):
            ctx.bump(noisy_experiments_skipped_as_ambiguous=1)      # which values are logged depends on the last digits
            return ctx.drop(r)
        got = bm.read_tree(os.path.join(r.dir, "exdata", "R"))
        diff = bm.compare(fd.files, got, 1e-7 if noisy else 3e-9)
        if diff:
            ctx.violation(diff[0], "%s: %s" % (what, diff[1]), {"script": cmds[:400]})
        ctx.drop(r)
        if nev:
            ctx.case((s, rep), {"experiment": what[:300], "evaluations": nev, "files": len(got)} if nev > 30 else None)
        lines = sum(len(v) for v in fd.files.values() if isinstance(v, list))
        ctx.bump(evaluations_logged_over=nev, files_checked=len(got), lines_checked=lines, long_histories=int(big))

    ctx.par(one, jobs)

    # the older variant of the observer: same files as the reference build
    def old(k):
        rng = random.Random("C11old/%d/%d" % (ctx.seed, k))
        s = rng.choice(["bbob", "bbob-constrained", "bbob-mixint"])
        d = rng.choice([x for x in gen.dims(s) if x <= 10])
        c = [["suite", 0, s, "instances: 1-3", "dimensions: %d function_indices: %s" % (d, ",".join(map(str, sorted(rng.sample(range(1, 24), 3)))))],
             ["observer", 0, "bbob-old", "result_folder: R"]]
        for _ in range(9):
            c.append(["next", 0, 0, 0])
            for _ in range(rng.choice([0, 1, 10, 40])):
                c.append(["eval", 0] + [rng.uniform(-5, 5) for _ in range(d)])
        a, b = ctx.run(fast, c, keep=True), ctx.run(ref, c, keep=True)
        if ctx.legit(a, "bbob-old", c) and not b.crashed:
            ta, tb = bm.read_tree(a.dir), bm.read_tree(b.dir)
            diff = bm.compare({n: (t.split("\n")[:-1] if n.endswith("dat") else t) for n, t in tb.items()}, ta)
            if diff:
                ctx.violation("bbob-old " + diff[0], "bbob-old: " + diff[1], {"script": c})
            ctx.case(("old", k))
            ctx.bump(old_format_files=len(ta))
        ctx.drop(a, b)
    ctx.par(old, range(10 if ctx.quick else 100))

    # every documented observer option takes effect, also the number of evaluation triggers
    for nev in (50, 5):
        rng = random.Random("C11nev/%d" % nev)
        c = [["suite", 0, "bbob", "instances: 1", "dimensions: 2"], ["observer", 0, "bbob", "result_folder: R number_evaluation_triggers: %d" % nev],
             ["getfdi", 0, 0, 1, 2, 1], ["addobs", 0, 0]]
        xs = [[rng.uniform(-5, 5) for _ in range(2)] for _ in range(300)]
        c += [["eval", 0] + x for x in xs] + [["pfree", 0], ["getfdi", 0, 0, 1, 2, 1], ["fopt", 0]]
        r = ctx.run(fast, c, keep=True)
        if ctx.legit(r, "evaluation triggers", c):
            fd = bm.Folder(bm.Options(nev=nev))
            p = fd.begin("bbob", 1, 2, 1, fl(r.events[-1].f[0]), 0, 0)
            for k, x in enumerate(xs):
                p.evaluate(x, fl(r.events[4 + k].f[0]))
            p.end()
            diff = bm.compare(fd.files, bm.read_tree(os.path.join(r.dir, "exdata", "R")))
            if diff:
                plain = bm.Folder(bm.Options())
                p = plain.begin("bbob", 1, 2, 1, fl(r.events[-1].f[0]), 0, 0)
                for k, x in enumerate(xs):
                    p.evaluate(x, fl(r.events[4 + k].f[0]))
                p.end()
                same = bm.compare(plain.files, bm.read_tree(os.path.join(r.dir, "exdata", "R"))) is None
                ctx.violation("number_evaluation_triggers is ignored" if same else diff[0], "number_evaluation_triggers: %d: %s" % (nev, diff[1]), {"script": c})
            ctx.case(("nev", nev))
        ctx.drop(r)
