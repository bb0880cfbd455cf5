"""Several observers on one problem: each must log exactly what it logs when it is alone."""
import os, random, re
import bbobmodel as bm, gen, obsopts

NAN, INF = float("nan"), float("inf")


NAME = re.compile(r"((?:problem_)?name = '?)([^'\n]*)(?='|$)", re.M)


def bare(m):
    n = m.group(2)
    while True:
        w = re.match(r"(?:bbob-biobj|bbob-old|bbob|rw|toy)\((.*)\)$", n)
        if not w:
            return m.group(1) + n
        n = w.group(1)


def tree(path):
    """the files of a result folder; the display name of a problem shows the observers below, by design"""
    return {k: NAME.sub(bare, v) for k, v in bm.read_tree(path).items()}


def run(ctx):
    ctx.rule = ("one case = one history on one to three problems with two or three nested observers (attached at different times, some removed again), executed once, and once more per observer with this observer alone; "
                "the folder of every observer must be the same in both runs, and so must everything returned; distinct by history; non-trivial = at least two folders with data")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 100 if ctx.quick else 800
    jobs = [(s, k) for s in gen.SUITES for k in range(n)]
    ctx.rng.shuffle(jobs)

    def one(job):
        s, rep = job
        rng = random.Random("C25/%d/%s/%d" % (ctx.seed, s, rep))
        bi, con = "biobj" in s, "constr" in s
        kinds = ["bbob-biobj", "rw", "toy", "bbob-biobj"] if bi else ["bbob", "rw", "toy", "bbob"]
        obs = [rng.choice(kinds[:1] * 2 + kinds) for _ in range(rng.choice([2, 2, 3]))]
        opts = [re.sub(r"log_time: \d ?", "", obsopts.options(rng, o, "R%d" % k)).strip() for k, o in enumerate(obs)]
        d = rng.choice([x for x in gen.dims(s) if x <= (20 if bi else 40)])
        fs = sorted(rng.sample(gen.functions(s), rng.randint(1, 3)))
        ops = []      # (observer or None, command)
        inst = [1] if s == "toy" else sorted(rng.sample(range(1, 16), rng.randint(1, 2)))
        ops.append((None, ["suite", 0, s, "instances: %s" % ",".join(map(str, inst)), "dimensions: %d" % d]))
        for k, o in enumerate(obs):
            ops.append((k, ["observer", k, o, opts[k]]))
        ops.append((None, ["resetseeds"]))
        for f in fs:
            for i in inst:
                ops.append((None, ["getfdi", 0, 0, f, d, i]))
                order = list(range(len(obs)))
                rng.shuffle(order)
                on = []
                scale = rng.choice([5.0, 5.0, 1.0])
                centre, best = [rng.uniform(-4, 4) for _ in range(d)], rng.random() < .5
                when = rng.random()
                n_ev = rng.choice([1, 4, 12, 30])
                late = 0 if when < .5 else rng.randint(1, n_ev) if when < .8 else -1     # all at once at the start, later, or one by one
                for q in range(n_ev):
                    if q == late:
                        while order:
                            on.append(order.pop())
                            ops.append((on[-1], ["addobs", 0, on[-1]]))
                    u = rng.random()
                    if best:
                        # an approach to the centre with setbacks: many improvements
                        r = scale * rng.choice([.9, .9, 1.3]) ** q
                        x = [c + rng.uniform(-r, r) for c in centre]
                    else:
                        x = [rng.uniform(-scale, scale) for _ in range(d)]
                    if rng.random() < .05:
                        x[rng.randrange(d)] = rng.choice([NAN, INF, -INF])
                    if u < .12 and order and late < 0:
                        on.append(order.pop())
                        ops.append((on[-1], ["addobs", 0, on[-1]]))
                    elif u < .13 and on and rng.random() < .6:
                        k = on.pop()
                        ops.append((k, ["rmobs", 0, k]))
                    elif u < .2 and on:
                        k = rng.choice(on)
                        ops.append((k, ["restart", k, 0]))
                    elif u < .26 and "noisy" not in s and (not on or obs[on[0]] == "bbob" and sum(obs[q] == "bbob" for q in on) == 1):
                        ops.append((None, ["rec", 0] + x))     # elsewhere the inner observers see the recommended point: known finding
                    elif u < .34 and con:
                        ops.append((None, ["cons", 0] + x))
                    else:
                        ops.append((None, ["eval", 0] + x))
                    if rng.random() < .05:
                        ops.append((None, ["state", 0]))
                ops.append((None, ["state", 0]))
                ops.append((None, ["pfree", 0]))
        what = "%s f%s i%s d%d with %s" % (s, fs, inst, d, list(zip(obs, opts)))
        exe = asan if rep % 10 == 0 else fast
        A = [o[1] for o in ops]
        ra = ctx.run(exe, A, keep=True, loglevel="error")
        if not ctx.legit(ra, what, A):
            return ctx.drop(ra)
        data = 0
        for k in range(len(obs)):
            B = [o[1] for o in ops if o[0] in (None, k)]
            rb = ctx.run(fast, B, keep=True, loglevel="error")
            if not ctx.legit(rb, what + " alone", B):
                ctx.drop(rb)
                break
            ea, eb = [e for o, e in zip(ops, ra.events) if o[0] is None], [e for o, e in zip([o for o in ops if o[0] in (None, k)], rb.events) if o[0] is None]
            for x, y, o in zip(ea, eb, [o for o in ops if o[0] is None]):
                if x.f != y.f:
                    ctx.violation("answers depend on other observers", "%s: %s answers %s with all observers, %s with observer %d alone" % (what, o[1][:5], x.f[:8], y.f[:8], k), {"script": A, "alone": B})
                    break
            sub = os.path.join("exdata", "R%d" % k)
            ta, tb = tree(os.path.join(ra.dir, sub)), tree(os.path.join(rb.dir, sub))
            data += any(len(v) > 0 for v in ta.values())
            if ta != tb:
                name = next((q for q in sorted(set(ta) | set(tb)) if ta.get(q) != tb.get(q)), None)
                a, b = (ta.get(name) or "").split("\n"), (tb.get(name) or "").split("\n")
                j = next((j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]), 0)
                ctx.violation("log of %s depends on other observers" % obs[k], "%s: observer %d (%s), %s line %d: %r with the others, %r alone" % (what, k, obs[k], name, j + 1, a[j:j + 1], b[j:j + 1]), {"script": A, "alone": B})
            ctx.drop(rb)
            ctx.bump(files_compared=len(ta))
        ctx.drop(ra)
        if data > 1:
            ctx.case((s, rep), {"case": what[:300], "calls": len(A)} if len(A) > 60 else None)
        ctx.bump(calls=len(A))

    ctx.par(one, jobs)
    # recommendations to a bbob observer on top of another observer
    for inner in ("rw", "toy", "bbob"):
        for s in ("bbob", "bbob-constrained"):
            base = [["suite", 0, s, "instances: 1", "dimensions: 2 function_indices: 1"], ["observer", 0, inner, "result_folder: R0"], ["observer", 1, "bbob", "result_folder: R1"],
                    ["getp", 0, 0, 0], ["addobs", 0, 0], ["addobs", 0, 1], ["eval", 0, 1.0, 2.0], ["rec", 0, .5, .25], ["eval", 0, 3.0, 1.0], ["pfree", 0]]
            ra, rb = (ctx.run(fast, b, keep=True, loglevel="error") for b in (base, [c for c in base if c[0] != "rec"]))
            if ctx.legit(ra, "recommendation over %s" % inner, base) and ctx.legit(rb, "evaluations over %s" % inner, base):
                if tree(os.path.join(ra.dir, "exdata/R0")) != tree(os.path.join(rb.dir, "exdata/R0")):
                    ctx.violation("recommendation logged as evaluation by an inner observer", "%s: %s below bbob: the recommended point is in the log of %s" % (s, inner, inner), {"script": base})
                ctx.case(("rec", inner, s))
            ctx.drop(ra)
            ctx.drop(rb)
