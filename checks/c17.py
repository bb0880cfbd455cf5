"""Non-finite points: answers, and that a history with them is indistinguishable (later answers, states, log files) from the one without."""
import math, os, random
import bbobmodel as bm, gen, obsopts

NAN, INF = float("nan"), float("inf")


def run(ctx):
    ctx.rule = ("one case = one history executed twice, with and without evaluations of points with NaN or infinite coordinates; the answers to those are checked, all other answers, "
                "the state after every call and the log files must agree; distinct by (suite, problems, observer, options); non-trivial = at least one NaN and one infinite point")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 220 if ctx.quick else 1500
    jobs = [(s, k) for s in gen.SUITES for k in range(n)]
    ctx.rng.shuffle(jobs)

    def one(job):
        s, rep = job
        rng = random.Random("C17/%d/%s/%d" % (ctx.seed, s, rep))
        bi = "biobj" in s
        dims = [d for d in gen.dims(s) if d <= 40]
        d = rng.choice(dims)
        fs = rng.sample(gen.functions(s), rng.randint(1, 3))
        i = 1 if s == "toy" else rng.randint(1, 15)
        obs = rng.choice([None, "rw", "toy", "bbob-biobj", "bbob-biobj"] if bi else [None, "rw", "toy", "bbob", "bbob"])
        otext = obsopts.options(rng, obs) if obs else ""
        if bi and "read" in otext:
            otext = "result_folder: R"
        ops = [("cmd", ["suite", 0, s, "instances: %d" % i, "dimensions: %d" % d])]
        if obs:
            ops.append(("cmd", ["observer", 0, obs, otext]))
        ops.append(("cmd", ["resetseeds"]))
        kinds = set()
        for f in fs:
            if s == "bbob" and not obs and rng.random() < .3:
                ops.append(("cmd", ["bare", 0, f, d, i]))
            else:
                ops.append(("cmd", ["getfdi", 0, 0, f, d, i]))
            if obs:
                ops.append(("cmd", ["addobs", 0, 0]))
            cons = "constr" in s
            scale = rng.choice([5.0, 1.0, 4.0])
            for _ in range(rng.choice([1, 3, 10, 25])):
                x = [rng.uniform(-scale, scale) for _ in range(d)]
                while rng.random() < .4:
                    b = list(x)
                    k = rng.random()
                    where = [rng.randrange(d)] if k < .5 else [0] if k < .6 else [d - 1] if k < .7 else list(range(d)) if k < .8 else rng.sample(range(d), rng.randint(1, d))
                    what = rng.choice(["nan", "inf", "-inf", "+-inf"])
                    for w in where:
                        b[w] = NAN if what == "nan" else INF if what == "inf" else -INF if what == "-inf" else rng.choice([INF, -INF])
                    for w in range(d):
                        if w not in where and rng.random() < .1:
                            b[w] = gen.value(rng)
                    kinds.add(what == "nan")
                    ops.append(("bad", [rng.choice(["evals", "conss"]) if cons else "evals", 0] + b, what == "nan"))
                ops.append(("cmd", [rng.choice(["evals", "evals", "conss"]) if cons else "evals", 0] + x))
            while rng.random() < .5:      # the last call may be non-finite as well
                b = [rng.uniform(-5, 5) for _ in range(d)]
                b[rng.randrange(d)] = v = rng.choice([NAN, INF])
                kinds.add(v != v)
                ops.append(("bad", ["evals", 0] + b, v != v))
            ops.append(("cmd", ["pfree", 0]))
        A, B = [o[1] for o in ops], [o[1] for o in ops if o[0] == "cmd"]
        exe = asan if rep % 10 == 0 else fast
        lvl = rng.choice(["error", "warning"])
        ra, rb = ctx.run(exe, A, keep=True, loglevel=lvl), ctx.run(exe, B, keep=True, loglevel=lvl)
        what = "%s f%s d%d i%d %s '%s'" % (s, fs, d, i, obs, otext)
        if not (ctx.legit(ra, what, A) and ctx.legit(rb, what, B)):
            return ctx.drop(ra, rb)
        kb, prev = 0, None
        for o, ea in zip(ops, ra.events):
            if o[0] == "bad":
                v = ea.f
                cut = v.index("|")
                vals = ea.nums(0, cut)
                if "X-MODIFIED" in v:
                    ctx.violation("point modified", "%s: the caller's point was modified" % what, {"script": A})
                if not vals or any((y == y) if o[2] else (y != INF) for y in vals if y == y or not o[2]):
                    ctx.violation("answer to a %s point" % ("NaN" if o[2] else "infinite"), "%s: %s answered %s" % (what, o[1][:8], vals), {"script": A})
                if prev is not None and v[cut:] != prev:
                    ctx.violation("state changed by a non-finite point", "%s: state %s after %s, before %s" % (what, v[cut:], o[1][:8], prev), {"script": A})
                elif prev is None and v[cut + 1:cut + 5] != ["0", "0", "0", "0"]:
                    ctx.violation("state changed by a non-finite point", "%s: state %s after first call %s" % (what, v[cut:], o[1][:8]), {"script": A})
                continue
            eb = rb.events[kb]
            kb += 1
            if ea.f != eb.f:
                ctx.violation("later answers changed", "%s: %s answers %s with, %s without earlier non-finite points" % (what, o[1][:8], ea.f, eb.f), {"script": A})
                break
            prev = ea.f[ea.f.index("|"):] if "|" in ea.f else None
        ta, tb = bm.read_tree(ra.dir), bm.read_tree(rb.dir)
        ctx.drop(ra, rb)
        if "log_time: 1" not in otext and ta != tb:
            name = next((k for k in sorted(set(ta) | set(tb)) if ta.get(k) != tb.get(k)), None)
            a, b = (ta.get(name) or "").split("\n"), (tb.get(name) or "").split("\n")
            k = next((k for k in range(max(len(a), len(b))) if a[k:k + 1] != b[k:k + 1]), 0)
            ctx.violation("log changed", "%s: log file %s line %d: %r with, %r without the non-finite points" % (what, name, k + 1, a[k:k + 1], b[k:k + 1]), {"script": A})
        nb = sum(o[0] == "bad" for o in ops)
        if len(kinds) == 2:
            ctx.case((s, rep), {"case": what[:200], "calls": len(A), "non_finite": nb} if nb > 5 else None)
        ctx.bump(calls=len(A), nonfinite_calls=nb, files_compared=len(ta))

    ctx.par(one, jobs)
