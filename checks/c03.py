"""Purity of evaluations: interleaved, shuffled and threaded histories against single-problem fresh processes."""
import random
import gen
from common import close, fl

NOISEFREE = [s for s in gen.SUITES if s != "bbob-noisy"]


def pick(rng, max_dim):
    s = rng.choice(NOISEFREE)
    ds = [d for d in gen.dims(s) if d <= max_dim]
    if not ds:
        return pick(rng, max_dim)
    return s, rng.choice(gen.functions(s)), rng.choice(ds), 1 if s == "toy" else rng.choice([1, 2, 3, 5, 8, 12, 15, 37 if "biobj" not in s else 4])


def run(ctx):
    ctx.rule = ("one case = one history: 3-9 live problems of several suites, evaluated alternately at repeated points while other problems are created, "
                "observed, iterated and freed; distinct by the generated program; non-trivial = at least two problems were evaluated alternately. "
                "Each value is compared with that of a fresh problem in a fresh process. Threaded cases: 4-8 distinct problems evaluated concurrently under ThreadSanitizer")
    fast, asan, tsan = ctx.build("cut:fast", "cut:asan", "cut:tsan")
    nh = 900 if ctx.quick else 3000
    nt = 60 if ctx.quick else 200
    cache = {}

    def suite_cmd(slot, cell):
        s, f, d, i = cell
        return ["suite", slot, s, "instances: %d" % i, "dimensions: %d" % d]

    def history(k):
        rng = random.Random("C03h/%d/%d" % (ctx.seed, k))
        cells = [pick(rng, 20 if rng.random() < 0.8 else 40) for _ in range(rng.randint(3, 9))]
        if rng.random() < 0.5:  # siblings: same suite and function, other instance or dimension, or the very same problem twice
            s, f, d, i = rng.choice(cells)
            d2 = rng.choice([x for x in gen.dims(s) if x <= 40])
            cells.append((s, f, d2, i))
            cells.append((s, f, d, 1 if s == "toy" else rng.choice([i, 1, 2, 3])))
            g = rng.choice(gen.functions(s))
            cells.append((s, g, d, i))
        rng.shuffle(cells)
        pts = {}
        for c in cells:
            d = c[2]
            pts.setdefault(d, [gen.point(rng, d) for _ in range(3)])
        cmds, ask = [], []   # ask: (event number, cell, point index, kind)
        live = {}
        order = list(range(len(cells)))
        created = 0
        nobs = 0
        for step in range(rng.randint(25, 60)):
            r = rng.random()
            if created < len(cells) and (r < 0.3 or not live):
                c = cells[created]
                slot = created
                created += 1
                cmds.append(suite_cmd(slot, c))
                if rng.random() < 0.3:
                    cmds.append(["enum", slot, 3])      # leave a current problem behind in the suite
                cmds.append(["getfdi", slot, slot, c[1], c[2], c[3]])
                live[slot] = c
                if rng.random() < 0.5:
                    cmds.append(["suitefree", slot])    # the problem outlives its suite
                elif rng.random() < 0.4 and "biobj" not in c[0] and nobs < 60:
                    cmds.append(["observer", nobs, "bbob", "result_folder: R"])
                    cmds.append(["addobs", slot, nobs])
                    nobs += 1
            elif r < 0.36 and len(live) > 2:
                slot = rng.choice(list(live))
                del live[slot]
                cmds.append(["pfree", slot])
            elif live:
                slot = rng.choice(list(live))
                c = live[slot]
                q = rng.randrange(3)
                kind = "cons" if "constrained" in c[0] and rng.random() < 0.4 else "eval"
                if rng.random() < 0.08:
                    bad = list(pts[c[2]][q])
                    bad[rng.randrange(len(bad))] = rng.choice([float("nan"), float("inf")])
                    cmds.append([kind, slot] + bad)
                cmds.append([kind, slot] + pts[c[2]][q])
                ask.append((len(cmds) - 1, c, q, kind))
        r = ctx.run(asan if max(c[2] for c in cells) <= 20 and k % 3 == 0 else fast, cmds, timeout=120)
        if not ctx.legit(r, "history %d" % k, cmds):
            return
        # fresh process per problem, fresh problem object per point
        want = {}
        for c in sorted({a[1] for a in ask}):
            kinds = sorted({(a[2], a[3]) for a in ask if a[1] == c})
            b = [suite_cmd(0, c)]
            for q, kind in kinds:
                b += [["getfdi", 0, 0, c[1], c[2], c[3]], [kind, 0] + pts[c[2]][q], ["pfree", 0]]
            rb = ctx.run(fast, b)
            if not ctx.legit(rb, "fresh process %s" % (c,), b):
                return
            for n, (q, kind) in enumerate(kinds):
                want[c, q, kind] = rb.events[2 + 3 * n].f
        for at, c, q, kind in ask:
            got = r.events[at].f
            exp = want[c, q, kind]
            if "X-MODIFIED" in got:
                ctx.violation("point modified", "history %d: evaluating %s modified the caller's point" % (k, c), {"script": cmds})
                return
            if got != exp and not (len(got) == len(exp) and all(close(fl(a), fl(b), 1e-9, 1e-9) for a, b in zip(got, exp))):
                ctx.violation("value depends on the history", "history %d: %s of %s at call %d gives %s, in a fresh process %s (point %s)" % (
                    k, kind, c, at, [fl(v) for v in got[:4]], [fl(v) for v in exp[:4]], pts[c[2]][q][:6]), {"script": cmds})
                return
        ctx.case(("h", k), {"problems": cells, "calls": len(cmds), "compared": len(ask)})
        ctx.bump(values_compared=len(ask), histories=1, fresh_processes=len(want))

    def systematic(job):
        """one problem, related points in random order with repetitions, then a long run, then the points again"""
        s, f, rep = job
        rng = random.Random("C03s/%d/%s/%d/%d" % (ctx.seed, s, f, rep))
        d = rng.choice([x for x in gen.dims(s) if x <= 20])
        i = 1 if s == "toy" else rng.randint(1, 15)
        base = [rng.uniform(-4, 4) for _ in range(d)]
        pool = [base, [-v for v in base], base[::-1], [0.0] * d, [rng.uniform(-50, 50) for _ in range(d)]]
        for _ in range(5):
            q = list(base)
            q[rng.choice([0, d - 1, rng.randrange(d)])] += rng.choice([1e-3, 1.0, -2.0, 1e-7, 40.0])
            pool.append(q)
        cons = "constrained" in s
        cmds = [suite_cmd(0, (s, f, d, i)), ["getfdi", 0, 0, f, d, i], ["getfdi", 1, 0, rng.choice(gen.functions(s)), d, i]]
        ask = []
        for phase in range(2):
            for _ in range(25):
                q = rng.randrange(len(pool))
                kind = "cons" if cons and rng.random() < 0.4 else "eval"
                if rng.random() < 0.25:
                    cmds.append([kind, 1] + pool[rng.randrange(len(pool))])
                cmds.append([kind, 0] + pool[q])
                ask.append((len(cmds) - 1, q, kind))
            if phase == 0:
                cmds.append(["sweep", 0, rng.randrange(10 ** 6), 600 if rep else 40, "0,1,4,3", 0, 0])
                if rng.random() < 0.3:
                    cmds += [["pfree", 1], ["getfdi", 1, 0, f, d, i]]
        a = ctx.run(fast, cmds)
        b = [suite_cmd(0, (s, f, d, i))]
        keys = sorted({(q, kind) for _, q, kind in ask})
        for q, kind in keys:
            b += [["getfdi", 0, 0, f, d, i], [kind, 0] + pool[q], ["pfree", 0]]
        rb = ctx.run(fast, b)
        if not ctx.legit(a, "history on %s f%d" % (s, f), cmds) or not ctx.legit(rb, "fresh %s f%d" % (s, f), b):
            return
        want = {k: rb.events[2 + 3 * n].f for n, k in enumerate(keys)}
        for at, q, kind in ask:
            got, exp = a.events[at].f, want[q, kind]
            if got != exp and not (len(got) == len(exp) and all(close(fl(x), fl(y), 1e-9, 1e-9) for x, y in zip(got, exp))):
                ctx.violation("value depends on the history", "%s f%d d%d i%d: %s at call %d gives %s, a fresh problem %s" % (
                    s, f, d, i, kind, at, got[:3], exp[:3]), {"script": cmds})
                return
        ctx.case(("s", s, f, rep), None)
        ctx.bump(values_compared=len(ask), problems_with_long_history=1)

    def threaded(k):
        rng = random.Random("C03t/%d/%d" % (ctx.seed, k))
        cells = [pick(rng, 20) for _ in range(rng.randint(3, 6))]
        c0 = cells[0]
        cells += [c0, (c0[0], c0[1], c0[2], c0[3] if c0[0] == "toy" else c0[3] + 1)]
        if k % 2:   # all functions of the same kind: shared statics would be shared here
            s = c0[0]
            cells = [(s, f, c0[2], c0[3]) for f in rng.sample(gen.functions(s), 6)] + [c0, c0]
        seed, n = rng.randrange(10 ** 6), 12
        modes = "0,1,2,3,4,8,9,10,11"
        cmds, ref = [], []
        for q, c in enumerate(cells):
            cmds += [suite_cmd(q, c), ["getfdi", q, q, c[1], c[2], c[3]]]
        cmds.append(["par", seed, n, modes] + list(range(len(cells))))
        for q, c in enumerate(cells):
            cmds.append(["pfree", q])
        for q, c in enumerate(cells):
            ref += [suite_cmd(q, c), ["getfdi", q, q, c[1], c[2], c[3]], ["sweep", q, seed, n, modes, 0, 0], ["pfree", q]]
        a, b = ctx.run(tsan, cmds, timeout=200), ctx.run(fast, ref)
        if not ctx.legit(a, "concurrent evaluation of %s" % cells, cmds) or not ctx.legit(b, "serial %s" % cells, ref):
            return
        got = "\t".join(a.events[2 * len(cells)].f).split("|")[1:]
        for q, c in enumerate(cells):
            g, w = got[q].strip("\t").split("\t"), b.events[4 * q + 2].f
            if g != w and not (len(g) == len(w) and all(close(fl(x), fl(y), 1e-9, 1e-9) for x, y in zip(g, w))):
                ctx.violation("value depends on concurrent evaluations", "%s evaluated next to %s gives other values" % (c, cells), {"script": cmds})
                return
        ctx.case(("t", k), None)
        ctx.bump(threaded=1, threads=len(cells), threaded_values=sum(len(x.f) for x in b.events if x.cmd == "sweep"))

    ctx.par(history, range(nh))
    ctx.par(systematic, [(s, f, rep) for s in NOISEFREE for f in gen.functions(s) for rep in range(2 if ctx.quick else 12)
                         if ctx.quick and any(d <= 20 for d in gen.dims(s)) or not ctx.quick])
    ctx.par(threaded, range(nt), workers=4)
