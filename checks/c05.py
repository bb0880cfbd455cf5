"""Constrained suites: constraint counts, feasibility and activity at start and optimum, relation of the three variants."""
import random
import gen
from common import fl, close

V = ["bbob-constrained", "bbob-constrained-active-only", "bbob-constrained-no-disguise"]


def n_active(f, d):
    return [1, 2, 6, 6 + d // 2, 6 + d, 6 + 3 * d][(f - 1) % 6]


def run(ctx):
    ctx.rule = ("one case = (function, dimension, instance) built in all three variants; at its optimum, its initial solution and sampled points the constraint "
                "values, counts and the best observed value are monitored; non-trivial = both a feasible and an infeasible point were seen in at least one variant")
    exe, = ctx.build("cut:fast")
    jobs = []
    rng0 = ctx.rng
    for d in gen.dims(V[0]):
        for f in gen.functions(V[0]):
            n = (20 if d <= 10 else 8 if d == 20 else 3) if ctx.quick else (60 if d <= 10 else 20)
            ins = rng0.sample(range(1, 16), min(n - 1, 15) if n > 1 else 1) + rng0.sample(range(16, 500), max(1, n - 16) if n > 1 else 0)
            jobs.append((d, f, ins))
    jobs.sort(key=lambda j: -j[0])

    def one(job):
        d, f, ins = job
        rng = random.Random("C05/%d/%d/%d" % (ctx.seed, d, f))
        na = n_active(f, d)
        pts = {}
        for i in ins:
            pts[i] = [gen.point(rng, d) for _ in range(2)] + [[rng.uniform(-5, 5) for _ in range(d)] for _ in range(3)]
            pts[i].append([(a + b) / 2 for a, b in zip(pts[i][2], pts[i][3])])
        # first pass: optimum and start
        first = []
        for s in V:
            first.append(["suite", V.index(s), s, "instances: " + ",".join(map(str, ins)), "dimensions: %d" % d])
        for i in ins:
            for v in range(3):
                first += [["getfdi", 0, v, f, d, i], ["info", 0], ["best", 0], ["pfree", 0]]
        r = ctx.run(exe, first)
        if not ctx.legit(r, "constrained f%d d%d" % (f, d), first):
            return
        p = 3
        cmds, plan = first[:3], []
        for i in ins:
            for v in range(3):
                info, best = r.events[p + 1], r.events[p + 2]
                p += 4
                x0, xo = info.nums(8 + 2 * d), best.nums(1)
                lo, up = info.nums(8, 8 + d), info.nums(8 + d, 8 + 2 * d)
                ps = [xo, x0] + pts[i]
                # points between start and optimum: both feasible and infeasible ones occur here
                for t in (0.5, 0.9, 1.5):
                    ps.append([a + t * (b - a) for a, b in zip(x0, xo)])
                plan.append((i, v, len(cmds), info, lo, up, x0, xo, ps))
                cmds.append(["getfdi", 0, v, f, d, i])
                order = list(range(1, len(ps)))      # the optimum itself last: its value hides all others
                for q in order + [0]:
                    cmds += [["cons", 0] + ps[q], ["evals", 0] + ps[q]]
                cmds += [["fopt", 0], ["pfree", 0]]
        r = ctx.run(exe, cmds)
        if not ctx.legit(r, "constrained f%d d%d" % (f, d), cmds):
            return
        vals = {}
        for i, v, at, info, lo, up, x0, xo, ps in plan:
            what = "%s f%d d%d i%d" % (V[v], f, d, i)
            bad = lambda key, msg: ctx.violation(key, what + ": " + msg, {"script": cmds[:3] + cmds[at:at + 2 * len(ps) + 3]})
            nc = int(info.f[5])
            want = na if v == 1 else na + na // 2
            if nc != want:
                bad("number of constraints", "%d constraints, documented are %d" % (nc, want))
                continue
            if not all(l <= x <= u for l, x, u in zip(lo, x0, up)):
                bad("start outside of the region of interest", "initial solution %s" % x0[:6])
            seen = [False, False]
            best = float("inf")
            n = at + 1
            for q in list(range(1, len(ps))) + [0]:
                g = r.events[n].nums()
                e = r.events[n + 1].f
                n += 2
                y = fl(e[0])
                state_best = fl(e[e.index("|") + 5])
                vals[i, v, q] = (y, g)
                feas = all(t <= 0 for t in g)
                seen[feas] = True
                if feas:
                    best = min(best, y)
                if len(g) != nc or any(t != t for t in g) and max(map(abs, ps[q])) < 1e100:      # huge values overflow
                    bad("constraint values", "%d constraints evaluated to %s" % (nc, g[:5]))
                if state_best != best and not (best == float("inf") and state_best > 1e300):
                    bad("best observed value", "best observed value is %r, best value of a feasible point is %r (last point %s)" % (state_best, best, "feasible" if feas else "infeasible"))
                if int(e[e.index("|") + 1]) != (n - at - 1) // 2 or int(e[e.index("|") + 2]) != (n - at - 1) // 2:
                    bad("counters", "after %d evaluations of each kind the counters are %s" % ((n - at - 1) // 2, e[e.index("|") + 1:e.index("|") + 3]))
            y0, g0 = vals[i, v, 1]
            if any(t > 0 for t in g0):
                bad("start infeasible", "constraints at the initial solution: max %r" % max(g0))
            if not any(t < 0 for t in g0):
                bad("start not inside", "no constraint is strictly satisfied at the initial solution")
            yo, go = vals[i, v, 0]
            scale = 1e-9 * (1 + max(abs(t) for t in g0))
            if max(go) > 1e-8:
                bad("optimum infeasible", "max constraint at x_opt %r" % max(go))
            act = sum(1 for t in go if abs(t) <= scale)
            if act != na:
                bad("active constraints", "%d constraints are active at x_opt, documented are %d" % (act, na))
            fopt = fl(r.events[at + 2 * len(ps) + 1].f[0])
            if not close(yo, fopt, 1e-9, 1e-8):
                bad("optimum not attained", "f(x_opt)=%r, f_opt=%r" % (yo, fopt))
            if (f + 5) // 6 in (1, 3, 7):
                # sphere, linear slope and different powers have linear constraints: value at the mid point is the mean
                ga, gb, gm = vals[i, v, 4][1], vals[i, v, 5][1], vals[i, v, 7][1]
                for a, b, m in zip(ga, gb, gm):
                    if not close((a + b) / 2, m, 1e-9, 1e-7 * (1 + abs(a) + abs(b))):
                        bad("constraint not linear", "%r and %r, %r half-way" % (a, b, m))
                        break
            if all(seen):
                ctx.case((f, d, i), {"problem": what, "constraints": nc, "active": na, "f_opt": fopt, "f(start)": y0} if f in (9, 20) else None)
            else:
                ctx.case((f, d, i))
            ctx.bump(points=len(ps))
        for i in ins:
            differ = False
            for q in range(8):
                full, act, nod = (vals.get((i, v, q)) for v in range(3))
                if not (full and act and nod):
                    break
                if not close(full[0], act[0], 1e-9, 1e-9) or not close(full[0], nod[0], 1e-9, 1e-9):
                    ctx.violation("variants differ in the objective", "f%d d%d i%d: %r %r %r" % (f, d, i, full[0], act[0], nod[0]), {"script": cmds[:200]})
                    break
                # the active constraints of the full variant are those at zero in its optimum, in order
                go = vals[i, 0, 0][1]
                g0 = vals[i, 0, 1][1]
                scale = 1e-9 * (1 + max(abs(t) for t in g0))
                sub = [t for t, o in zip(full[1], go) if abs(o) <= scale]
                if len(sub) != len(act[1]) or not all(close(a, b, 1e-9, 1e-9) for a, b in zip(sub, act[1])):
                    ctx.violation("active-only constraints", "f%d d%d i%d: the active constraints of the full variant are %s, of the active-only variant %s" % (
                        f, d, i, sub[:5], act[1][:5]), {"script": cmds[:200]})
                    break
                # the disguise changes the slope of one active constraint at most
                differ = differ or q > 1 and any(not close(a, b, 1e-6, 1e-6) for a, b in zip(full[1], nod[1]))
                other = [k for k, (a, b) in enumerate(zip(full[1], nod[1])) if not close(a, b, 1e-9, 1e-9)]
                if len(full[1]) != len(nod[1]) or len(other) > (1 if na > 1 else 0) or any(abs(go[k]) > scale for k in other):
                    ctx.violation("no-disguise constraints", "f%d d%d i%d: with and without disguise the constraints %s differ" % (f, d, i, other[:8]), {"script": cmds[:200]})
                    break
            else:
                if na > 1 and not differ:
                    ctx.violation("no-disguise constraints equal", "f%d d%d i%d: the constraints are the same with and without disguise" % (f, d, i), {"script": cmds[:200]})

    ctx.par(one, jobs)
