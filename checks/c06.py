"""Mixed-integer suites: declared variables, rounding/clamping relations, and the documented embedding of the continuous problem."""
import math, random
import gen
from biobj import PAIRS, INST, SCALE, cardinality, discretize
from common import fl, close


def run(ctx):
    ctx.rule = ("one case = one mixed-integer problem; its declaration is compared with the documented one, its values with those of the continuous problem it is "
                "built from (through an independent model of the discretisation) and with its own values at points that round to the same levels; "
                "non-trivial = a change of level changed the value at least once")
    exe, = ctx.build("cut:fast")
    jobs = []
    for s in ("bbob-mixint", "bbob-biobj-mixint"):
        for d in gen.dims(s):
            for f in gen.functions(s):
                if s == "bbob-mixint":
                    n = 4 if d <= 40 else 2
                elif d <= 20:
                    n = 2
                elif ctx.quick and ctx.rng.random() > (0.5 if d == 40 else 0.15):
                    continue
                else:
                    n = 1
                if not ctx.quick:
                    n *= 4
                ins = ctx.rng.sample(range(1, 16), min(n, 15))
                if s == "bbob-mixint":
                    ins[0] = ctx.rng.randint(16, 300)
                jobs.append((s, d, f, ins))
    jobs.sort(key=lambda j: -j[1])

    def one(job):
        s, d, f, ins = job
        bi = "biobj" in s
        cont = "bbob-largescale" if d >= 50 else "bbob"
        rng = random.Random("C06/%d/%s/%d/%d" % (ctx.seed, s, d, f))
        comps = {}
        for i in ins:
            comps[i] = list(zip(PAIRS[f - 1], INST[i])) if bi else [(f, i)]
        allinst = sorted({i2 for i in ins for _, i2 in comps[i]})
        head = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: %d" % d],
                ["suite", 1, cont, "instances: " + ",".join(map(str, allinst)), "dimensions: %d" % d]]
        pre = list(head)
        for i in ins:
            for cf, ci in comps[i]:
                pre += [["getfdi", 0, 1, cf, d, ci], ["best", 0], ["pfree", 0]]
        r = ctx.run(exe, pre)
        if not ctx.legit(r, "continuous problems of %s f%d d%d" % (s, f, d), pre):
            return
        p = 2
        cmds, plan = list(head), []
        for i in ins:
            xos = []
            for _ in comps[i]:
                xos.append(r.events[p + 1].nums(1))
                p += 3
            base = []
            for k in range(d):
                n = cardinality(k, d)
                base.append(float(rng.randrange(n)) if n else rng.uniform(-5, 5))
            pts = [base]                                        # 0: an admissible point
            jit = list(base)
            for k in range(d):
                if cardinality(k, d):
                    jit[k] += rng.choice([rng.uniform(-0.5, 0.4999), -0.5, 0.49999999, 0.0, -0.25])
            pts.append(jit)                                     # 1: rounds to the same levels
            out = list(base)
            lev = list(base)
            for k in range(d):
                n = cardinality(k, d)
                if n and rng.random() < 0.6:
                    up = rng.random() < 0.5
                    far = 10 ** rng.uniform(*rng.choice([(-1, 8), (-1, 8), (8, 20), (20, 300)]))
                    out[k] = (n - 1 + far) if up else -far
                    lev[k] = float(n - 1 if up else 0)
            pts += [out, lev]                                   # 2, 3: outside of the bounds, and the nearest admissible point
            k1 = rng.randrange(d - d // 5)
            for v in range(cardinality(k1, d)):                 # 4...: all levels of one variable
                q = list(base)
                q[k1] = float(v)
                pts.append(q)
            for _ in range(3):
                q = list(base)
                k = rng.randrange(d - d // 5)
                q[k] = float(rng.randrange(cardinality(k, d)))
                pts.append(q)
            tie = list(base)
            for k in range(d):
                n = cardinality(k, d)
                if n:
                    tie[k] = rng.randrange(n) - 0.5             # ties
            pts.append(tie)
            pts.append([rng.uniform(-20, 20) for _ in range(d)])
            pts.append([gen.value(rng) for _ in range(d)])
            plan.append((i, len(cmds), pts, xos))
            cmds += [["getfdi", 0, 0, f, d, i], ["info", 0]] + [["eval", 0] + q for q in pts]
            for c, (cf, ci) in enumerate(comps[i]):
                cmds += [["getfdi", 1, 1, cf, d, ci]] + [["eval", 1] + discretize(q, xos[c]) for q in pts] + [["pfree", 1]]
            cmds.append(["pfree", 0])
        r = ctx.run(exe, cmds)
        if not ctx.legit(r, "%s f%d d%d" % (s, f, d), cmds):
            return
        for i, at, pts, xos in plan:
            what = "%s f%d d%d i%d" % (s, f, d, i)
            bad = lambda key, msg: ctx.violation(key, what + ": " + msg, {"script": head + cmds[at:at + len(pts) + 3]})
            info = r.events[at + 1]
            nint = d // 5 * 4
            if int(info.f[6]) != nint:
                bad("number of integer variables", "%s integer variables declared, documented %d" % (info.f[6], nint))
            lo, up = info.nums(8, 8 + d), info.nums(8 + d, 8 + 2 * d)
            for k in range(d):
                n = cardinality(k, d)
                w = (0.0, n - 1.0) if n else ((-100.0, 100.0) if bi else (-5.0, 5.0))
                if (lo[k], up[k]) != w:
                    bad("bounds", "variable %d has bounds %s, documented %s" % (k, (lo[k], up[k]), w))
                    break
            x0 = info.nums(8 + 2 * d, 8 + 3 * d)
            if any(v != math.floor(v) for v in x0[:nint]) or any(not (l <= v <= u) for l, v, u in zip(lo, x0, up)):
                bad("initial solution", "the initial solution %s is not admissible" % x0[:8])
            ys = [r.events[at + 2 + q].nums() for q in range(len(pts))]
            same = lambda a, b: all(close(u, v, 1e-9, 1e-9) for u, v in zip(a, b))
            if not same(ys[0], ys[1]):
                bad("rounding", "%s at %s but %s at %s, which rounds to the same levels" % (ys[0], pts[0][:6], ys[1], pts[1][:6]))
            if not same(ys[2], ys[3]):
                bad("clamping", "%s at %s but %s at the nearest admissible point" % (ys[2], pts[2][:6], ys[3]))
            q = at + 2 + len(pts)
            for c, (cf, ci) in enumerate(comps[i]):
                for k in range(len(pts)):
                    w = fl(r.events[q + 1 + k].f[0]) * SCALE[cf - 1]
                    if not close(ys[k][c], w, 1e-7, 1e-7):
                        bad("embedding", "objective %d is %r at %s, the continuous problem f%d i%d gives %r there" % (c, ys[k][c], pts[k][:8], cf, ci, w))
                        break
                q += len(pts) + 2
            if len({tuple(v) for v in ys}) > 2:
                ctx.case((s, f, d, i), {"problem": what, "point": pts[1][:6], "value": ys[1]} if f == 7 and d <= 10 else None)
            ctx.bump(points=len(pts), relations=3 * len(comps[i]) + len(pts))

    ctx.par(one, jobs)
