"""Observer transparency: the same history with and without observers must look the same to the optimizer."""
import random
import gen, obsopts
from common import fl, close


def run(ctx):
    ctx.rule = ("one case = one history executed twice, on a plain and on an observed problem (one or two nested observers with random options), all results, "
                "accessors and states compared call by call, plus the counters of the underlying problem after the observers were removed; "
                "distinct by (suite, function, dimension, instance, observers, options); non-trivial = at least one evaluation")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    cells = []
    rng = ctx.rng
    for s in gen.SUITES:
        for f in gen.functions(s):
            for rep in range(6 if ctx.quick else 25):
                d = rng.choice([x for x in gen.dims(s) if x <= (20 if "biobj" in s else 40)])
                cells.append((s, f, d, 1 if s == "toy" else rng.randint(1, 15), rep))

    def one(cell):
        s, f, d, i, rep = cell
        rng = random.Random("C10/%d/%r" % (ctx.seed, cell))
        bi, con = "biobj" in s, "constrained" in s
        kinds = ["rw", "toy", "bbob-biobj"] if bi else ["bbob", "bbob", "rw", "toy", "bbob-old"]
        if s == "toy":
            kinds = ["bbob", "rw", "toy"]
        obs = [rng.choice(kinds)]
        if rng.random() < 0.2:
            obs.append(rng.choice([k for k in kinds if k not in obs]))
        opts = [obsopts.options(rng, o, "R%d" % k) for k, o in enumerate(obs)]
        remove = rng.random() < 0.6
        rec = not remove and s != "bbob-noisy" and "bbob-old" not in obs
        x0 = None
        ops = [("info",), ("state",)]
        limit = 1e9 if any("log_discrete_as_int: 1" in o for o in opts) else None
        pool = [gen.point(rng, d, limit) for _ in range(4)]
        for _ in range(rng.randint(150, 600) if rng.random() < 0.1 and d <= 10 else rng.randint(5, 50)):
            k = rng.random()
            x = rng.choice(pool) if rng.random() < 0.3 else gen.point(rng, d, limit)
            if k < 0.7:
                if k < 0.05:
                    x = list(x)
                    x[rng.randrange(d)] = rng.choice([float("nan"), float("inf")])
                ops.append(("evals", x))
            elif k < 0.8 and con:
                ops.append(("conss", x))
            elif k < 0.85 and rec:
                ops.append(("rec", x))
            elif k < 0.9:
                ops.append(("restart",))
            elif k < 0.95:
                ops.append(("info",))
            else:
                ops.append(("state",))
        late = None
        if rng.random() < 0.5:      # the observer is attached in the middle of the run, in some cases after the optimum was found
            late = rng.randint(2, len(ops))
            if not bi and s not in ("toy", "bbob-noisy") and rng.random() < 0.7:
                pre = [["suite", 0, s, "instances: %d" % i, "dimensions: %d" % d], ["getfdi", 0, 0, f, d, i], ["best", 0]]
                r = ctx.run(fast, pre)
                if not ctx.legit(r, "%s f%d d%d i%d" % (s, f, d, i), pre):
                    return
                if r.events[2].f[0] == "1":
                    xo = r.events[2].nums(1)
                    for _ in range(rng.randint(1, 2)):
                        e = rng.choice([0.0, 0.0, 1e-2, 1.0])
                        ops.insert(rng.randint(2, len(ops)), ("evals", [v + e * rng.uniform(-1, 1) for v in xo]))
                    ctx.bump(optimum_visited=1)
        notype = ["notype"] if s == "toy" else []

        def script(observed):
            c = [["suite", 0, s, "instances: %d" % i, "dimensions: %d" % d]]
            it = rng2.random() < 0.4 and late is None
            mark = []
            if it and len(obs) == 1:
                c[0][4] += " function_indices: %d" % (f - gen.SUITES[s][1] + 1)
                if observed:
                    c.append(["observer", 0, obs[0], opts[0]])
                c.append(["next", 0, 0, 0 if observed else -1])
            else:
                c.append(["getfdi", 0, 0, f, d, i])
                attach = [x for k, o in enumerate(obs) for x in (["observer", k, o, opts[k]], ["addobs", 0, k])] if observed else []
                if late is None:
                    c += attach
            if s == "bbob-noisy":
                c.append(["resetseeds"])
            for n, o in enumerate(ops + [("end",)]):
                if n == late:
                    c += attach
                if o[0] == "end":
                    mark.append(len(c))
                    c.append(["state", 0])
                    break
                if o[0] == "restart":
                    if observed and (late is None or n >= late) and obs[0] in ("bbob", "bbob-biobj") and len(obs) == 1:
                        c.append(["restart", 0, 0])
                    continue
                if o[0] == "rec" and (not observed or (late is not None and n < late)):
                    continue
                if o[0] != "rec":
                    mark.append(len(c))
                if o[0] == "info":
                    c.append(["info", 0] + notype)
                elif o[0] == "state":
                    c.append(["state", 0])
                else:
                    c.append([o[0], 0] + o[1])
            if remove and not (it and len(obs) == 1):
                if observed:
                    for k in reversed(range(len(obs))):
                        c.append(["rmobs", 0, k])
                mark.append(len(c))
                c.append(["state", 0])
                if s == "bbob-noisy":
                    c.append(["resetseeds"])
                for x in pool[:2]:
                    mark.append(len(c))
                    c.append(["evals", 0] + x)
                c.append(["pfree", 0])
            return c, mark
        rng2 = random.Random(rep)
        a, ma = script(False)
        rng2 = random.Random(rep)
        b, mb = script(True)
        exe = asan if rep == 0 and d <= 10 else fast
        ra, rb = ctx.run(fast, a), ctx.run(exe, b)
        what = "%s f%d d%d i%d with %s" % (s, f, d, i, list(zip(obs, opts)))
        if not ctx.legit(ra, "unobserved " + what, a) or not ctx.legit(rb, what, b):
            return
        for n1, n2 in zip(ma, mb):
            x, y = list(ra.events[n1].f), list(rb.events[n2].f)
            if ra.events[n1].cmd == "info":      # the name is not part of the promise
                x[1] = y[1] = x[2] = y[2] = ""
            if x != y:
                if len(x) == len(y):
                    try:
                        if all(p == q or close(fl(p), fl(q), 1e-10, 1e-10) for p, q in zip(x, y)):
                            continue
                    except ValueError:
                        pass
                ctx.violation("%s differs under observation" % ra.events[n1].cmd, "%s: call %d: %s unobserved, %s observed" % (what, n2, x[:10], y[:10]),
                              {"script": b[:n2 + 1]})
                return
        ctx.case((s, f, d, i, tuple(obs), tuple(opts)), {"problem": what, "calls compared": len(ma)} if f % 10 == 3 else None)
        ctx.bump(calls_compared=len(ma), removed=int(remove), attached_late=int(late is not None), nested=int(len(obs) > 1), **{"observer_" + o: 1 for o in obs})

    ctx.par(one, cells)
