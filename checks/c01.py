"""Suite selection: iteration, indices, look-ups and list accessors against an executable model."""
import gen, suitemodel as sm


def enum_expect(sel):
    return ["%s|%d|%d" % (sm.expected_id(sel.suite, f, i, d), idx, d) for idx, f, d, i in sel.triples()]


def run(ctx):
    ctx.rule = ("random (suite, instance string, option string) triples from a grammar of the documented syntax, every suite also "
                "unfiltered; non-trivial = the suite was built and at least one problem was visited; distinct by the triple")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    cases = []
    for s in gen.SUITES:
        cases.append((s, "NULL", "NULL", sm.Selection(s, sm.default_instances(s)), True))
        for y in range(2008, 2027) if s == "bbob" else (0, 2016, 2022, 2023):
            spec = sm.YEARS.get(s, lambda y: None)(y)
            if spec:
                kf = {1, gen.SUITES[s][0]}
                cases.append((s, "year: %d" % y, "function_indices: 1,%d dimension_indices: 1" % gen.SUITES[s][0],
                              sm.Selection(s, gen.expand(spec), keep_f=kf, keep_d={1}), False))
    n = 420 if ctx.quick else 6000
    for k in range(n):
        rng = ctx.rng
        while True:
            s, inst, opts, sel = sm.random_selection(rng, max_dim=20 if ctx.quick else 40)
            if sel is None or sum(1 for _ in sel.triples()) <= 400:
                break
        cases.append((s, inst, opts, sel, False))
    for k in range(10 if ctx.quick else 120):
        # long lists of instances (up to the maximum), high dimensions
        rng = ctx.rng
        s = rng.choice([x for x in gen.SUITES if x != "toy"])
        a = rng.randint(1, 60)
        m = rng.choice([101, 128, 256, 257, 300]) if "biobj" not in s else rng.choice([30, 101, 129])
        if k == 0:
            s, a, m = "bbob", 1, 999      # the maximum is "less than 1000"
        f, di = rng.randint(1, gen.SUITES[s][0]), rng.randint(1, 2)
        parts = ["%d-%d" % (a, a + m - 1)]
        if rng.random() < 0.5:
            c = rng.randint(1, m - 1)
            parts = ["%d-%d" % (a + c, a + m - 1), "%d-%d" % (a, a + c - 1)]
        vals = [v for p in parts for v in range(int(p.split("-")[0]), int(p.split("-")[1]) + 1)]
        keep = None
        opts = "function_indices: %d dimension_indices: %d" % (f, di)
        if rng.random() < 0.5:
            lo = rng.randint(1, m)
            keep = set(range(lo, m + 1))
            opts += " instance_indices: %d-" % lo
        cases.append((s, "instances: " + ",".join(parts), opts, sm.Selection(s, vals, keep_f={f}, keep_d={di}, keep_i=keep), False))
    for k in range(8 if ctx.quick else 80):
        rng = ctx.rng
        s = rng.choice(["bbob-largescale", "bbob-mixint", "bbob-biobj-mixint"])
        d = rng.choice([x for x in gen.dims(s) if x > 40])
        f, i = rng.randint(1, gen.SUITES[s][0]), rng.randint(1, 15)
        cases.append((s, "instances: %d" % i, "dimensions: %d function_indices: %d" % (d, f), sm.Selection(s, [i], keep_f={f}, dimensions={d}), False))
    refusals = [0]

    def one(t):
        k, (s, inst, opts, sel, big) = t
        import random
        rng = random.Random("%s/%d/%d" % (ctx.pid, ctx.seed, k))
        what = "suite(%r, %r, %r)" % (s, inst, opts)
        cmds = [["suite", 0, s, inst, opts]]
        if sel is None:
            cmds.append(["suitefree", 0])
            r = ctx.run(asan, cmds)
            if not ctx.legit(r, what, cmds):
                return
            if r.events[0].f[0] != "NULL":
                ctx.violation("not-refused", what + ": no dimension is left, yet the suite was built", {"script": cmds})
            ctx.bump(refused=1)
            return
        exp = enum_expect(sel)
        byidx = {int(e.split("|")[1]): e for e in exp}
        trip = list(sel.triples())
        second = rng.random() < 0.3 and not big
        again = rng.random() < 0.3 and not big and len(exp) <= 200
        cmds.append(["enum", 0, len(exp) + 5])
        if not big:
            cmds.append(["enumidx", 0, sel.total])
        if again:
            cmds.append(["enum", 0, len(exp) + 5])
        cmds.append(["lists", 0, len(sel.f), len(sel.d), len(sel.i)])
        probes = []
        for _ in range(12):
            fi, di, ii = rng.randrange(len(sel.f)), rng.randrange(len(sel.d)), rng.randrange(len(sel.i))
            probes.append((fi, di, ii))
            cmds.append(["encode", 0, fi, di, ii])
            cmds.append(["decode", 0, sel.index(fi, di, ii)])
        # look-ups by (function, dimension, instance): present, filtered and foreign ones
        looks = []
        pool = rng.sample(trip, min(10, len(trip)))
        for idx, f, d, i in pool:
            looks.append((f, d, i))
        for _ in range(8):
            looks.append((rng.choice(sel.all_f), rng.choice([x for x in sel.all_d if x <= 40] or sel.all_d[:1]), rng.choice(sel.all_i)))
        idx, f, d, i = trip[0]
        looks += [(f, d, 1 + max(sel.all_i)), (f, max(sel.all_d) + 1, i), (max(sel.all_f) + 1, d, i), (0, d, i), (f, d, 0), (f, 0, i)]
        base = len(cmds)
        for n_, (f, d, i) in enumerate(looks):
            cmds.append(["getfdi", 1, 0, f, d, i])
            cmds.append(["info", 1, "notype"])
            cmds.append(["pfree", 1])
        # two suites iterated alternately must not disturb each other
        if second:
            cmds += [["suite", 1, s, inst, opts], ["suite", 2, s, inst, opts]]
            walk = []
            pos = [0, 0]
            for _ in range(min(40, 2 * len(exp) + 2)):
                q = rng.randrange(2)
                if pos[q] > len(exp):
                    continue
                cmds.append(["next", 10 + q, 1 + q, -1])
                walk.append((q, pos[q]))
                pos[q] += 1
        r = ctx.run(asan if not big and len(exp) < 120 and max(x[2] for x in trip) <= 20 else fast, cmds, timeout=240)
        if not ctx.legit(r, what, cmds):
            return
        ev = r.events
        bad = lambda key, msg: ctx.violation(key, what + ": " + msg, {"script": [list(map(str, c)) for c in cmds[:60]]})
        if ev[0].f[0] != "ok" or int(ev[0].f[1]) != sel.total:
            return bad("number-of-problems", "expected %d problems, got %s" % (sel.total, ev[0].f))
        if ev[1].f != exp:
            dif = next((x for x in zip(ev[1].f + ["<end>"] * len(exp), exp + ["<end>"]) if x[0] != x[1]), None)
            return bad("iteration", "visited %d problems, expected %d; first difference (got, expected) %s" % (len(ev[1].f), len(exp), dif))
        p = 2
        if not big:
            want = [byidx.get(k, "-") for k in range(sel.total)]
            if ev[p].f != want:
                dif = next((k, a, b) for k, (a, b) in enumerate(zip(ev[p].f + ["<none>"] * len(want), want)) if a != b)
                return bad("by-index", "problem by index (index, got, expected) %s" % (dif,))
            p += 1
        if again:
            # the iteration came to its end: it starts over, or has nothing more to offer
            if ev[p].f and ev[p].f != exp:
                dif = next((x for x in zip(ev[p].f + ["<end>"] * len(exp), exp + ["<end>"]) if x[0] != x[1]), None)
                return bad("second sweep", "the sweep after the end visits %d problems, expected %d; first difference (got, expected) %s" % (len(ev[p].f), len(exp), dif))
            p += 1
            ctx.bump(second_sweeps=1)
        got = " ".join(ev[p].f)
        want = " ".join(map(str, sel.f + ["|"] + sel.d + ["|"] + sel.i))
        if got != want:
            return bad("list-accessors", "functions|dimensions|instances %s, expected %s" % (got[:300], want[:300]))
        p += 1
        for fi, di, ii in probes:
            if int(ev[p].f[0]) != sel.index(fi, di, ii):
                return bad("encode", "index of positions %s is %s, expected %d" % ((fi, di, ii), ev[p].f[0], sel.index(fi, di, ii)))
            if [int(v) for v in ev[p + 1].f] != [fi, di, ii]:
                return bad("decode", "index %d decodes to %s, expected %s" % (sel.index(fi, di, ii), ev[p + 1].f, (fi, di, ii)))
            p += 2
        for f, d, i in looks:
            there = next((x for x in trip if x[1:] == (f, d, i)), None)
            if (ev[p].f[0] == "ok") != (there is not None):
                return bad("look-up-presence", "look-up of f%d d%d i%d gives %s, expected %s" % (f, d, i, ev[p].f[0], "a problem" if there else "none"))
            if there and (ev[p + 1].f[0] != sm.expected_id(s, f, i, d) or int(ev[p + 1].f[3]) != d or int(ev[p + 1].f[7]) != there[0]):
                return bad("look-up", "look-up of f%d d%d i%d gives %s" % (f, d, i, ev[p + 1].f[:8]))
            p += 3
        if second:
            p += 2
            for q, k2 in walk:
                g = "NULL" if ev[p].f[0] == "NULL" else "%s|%s|%s" % (ev[p].f[1], ev[p].f[2], ev[p].f[3])
                w = exp[k2] if k2 < len(exp) else "NULL"
                if g != w:
                    return bad("alternating-iteration", "step %d of suite copy %d gives %s, expected %s" % (k2, q, g, w))
                p += 1
            ctx.bump(alternating_walks=1)
        ctx.case((s, inst, opts), {"suite": s, "instance": inst, "options": opts, "visited": len(exp), "first": exp[0], "last": exp[-1]})
        ctx.bump(problems_visited=len(exp), lookups=len(looks))

    ctx.par(one, enumerate(cases))
