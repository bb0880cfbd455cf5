"""Tainting: which problems report to be tainted after every call, and that the default observer refuses tainted problems."""
import os, random, re
import bbobmodel as bm, gen


def run(ctx):
    ctx.rule = ("one case = one history over two to five live problems (several of them of the same function and instance) with queries, evaluations, look-ups of the optimum, and observers "
                "added and removed; the tainted flag of every live problem is read after every call; some histories end with the evaluation of a tainted, observed problem, which must be refused "
                "without a trace in the log; distinct by history; non-trivial = at least one problem tainted and one not")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 500 if ctx.quick else 3000
    jobs = [(s, k) for s in gen.SINGLE for k in range(n)]
    ctx.rng.shuffle(jobs)

    def one(job):
        s, rep = job
        rng = random.Random("C18/%d/%s/%d" % (ctx.seed, s, rep))
        ds = [d for d in gen.dims(s) if d <= 20]
        d = rng.choice(ds)
        fs = rng.sample(gen.functions(s), 2)
        cons = "constr" in s
        cmds = [["suite", 0, s, "instances: 1,2", "dimensions: %d" % d], ["suite", 1, s, "instances: 1,2", "dimensions: %d" % d]]
        names = ["bbob", "rw", "toy", "bbob"]
        for k, o in enumerate(names):
            cmds.append(["observer", k, o, "result_folder: R%d" % k])
        live = {}      # slot -> dict(tainted, wraps)
        expect = []    # (index of the command, slot, tainted)

        def look():
            for p, st in live.items():
                cmds.append(["tainted", p])
                expect.append((len(cmds) - 1, p, st["t"]))

        def new(p):
            f, i = rng.choice(fs), rng.choice([1, 2])
            if s == "bbob" and rng.random() < .2:
                cmds.append(["bare", p, f, d, i])
                live[p] = dict(t=0, w=[], suite=False)
            else:
                cmds.append(["getfdi", p, rng.choice([0, 1]), f, d, i])
                live[p] = dict(t=0, w=[], suite=True)
        for p in range(rng.randint(2, 5)):
            new(p)
        look()
        busy = set()
        refused = None
        for _ in range(rng.randint(5, 30)):
            p = rng.choice(list(live))
            st = live[p]
            x = [rng.uniform(-5, 5) for _ in range(d)]
            blocked = st["t"] and any(names[w] == "bbob" for w in st["w"])
            u = rng.random()
            if u < .35:
                if blocked:
                    if rng.random() < .5:
                        refused = ["eval", p] + x
                        break
                    continue
                cmds.append(["eval", p] + x)
            elif u < .4 and cons:
                cmds.append(["cons", p] + x)
            elif u < .5:
                cmds.append(rng.choice([["state", p], ["fopt", p], ["info", p, "notype"]]))
            elif u < .55 and not st["t"] and st["w"] and names[st["w"][-1]] == "bbob":
                cmds.append(["rec", p] + x)
            elif u < .65:
                cmds.append(["best", p])
                st["t"] = 1
            elif u < .8 and st["suite"]:
                w = rng.randrange(len(names))
                if w in st["w"] or names[w] == "bbob" and w in busy or len(st["w"]) > 2 or names[w] in [names[v] for v in st["w"]]:
                    continue
                cmds.append(["addobs", p, w])
                st["w"].append(w)
                busy.add(w)
            elif u < .93 and st["w"]:
                w = st["w"].pop()
                cmds.append(["rmobs", p, w])
                busy.discard(w)
            elif u < .96 and len(live) > 1:
                for w in st["w"]:
                    busy.discard(w)
                cmds.append(["pfree", p])
                del live[p]
            elif len(live) < 8:
                new(max(live) + 1)
            look()
        what = "%s d%d f%s" % (s, d, fs)
        exe = asan if rep % 10 == 0 else fast
        A = cmds + ([refused] if refused else [])
        ra = ctx.run(exe, A, keep=True, loglevel="error")
        if refused:
            if not (ra.crashed and ra.rc == 1 and "COCO FATAL ERROR" in ra.err and "anitizer" not in ra.err) or len(ra.events) != len(A):
                ctx.violation("tainted problem not refused", "%s: evaluating a tainted observed problem was not refused: %s" % (what, ra.describe()), {"script": A})
            rb = ctx.run(exe, cmds + [["exit"]], keep=True, loglevel="error")
            ta, tb = bm.read_tree(ra.dir), bm.read_tree(rb.dir)
            strip = lambda t: {k: v for k, v in t.items() if v or "toy" not in k}
            if strip(ta) != strip(tb):
                name = next(k for k in sorted(set(ta) | set(tb)) if ta.get(k) != tb.get(k))
                ctx.violation("refused evaluation left a trace", "%s: %s: %r after the refused evaluation, %r without" % (what, name, (ta.get(name) or "")[-200:], (tb.get(name) or "")[-200:]), {"script": A})
            ctx.drop(rb)
            ctx.bump(refused=1)
        elif not ctx.legit(ra, what, A):
            return ctx.drop(ra)
        ctx.drop(ra)
        seen = set()
        for k, p, t in expect:
            if k >= len(ra.events):
                break
            v = ra.events[k].f[0]
            seen.add(v)
            if v != str(t):
                last = next((c for c in reversed(cmds[:k]) if c[0] != "tainted"), None)
                ctx.violation("flag is %s, expected %d" % (v, t), "%s: problem %d reports tainted=%s after %s, expected %d" % (what, p, v, last[:3], t), {"script": A})
                break
        if len(seen) > 1:
            ctx.case((s, rep), {"case": what, "calls": len(A), "refused": bool(refused)} if len(A) > 60 else None)
        ctx.bump(flags_read=len(expect), calls=len(A))

    ctx.par(one, jobs)
